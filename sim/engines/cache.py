"""Processes loading the encounter data through one cache on the simulated disk.  C01-C07, D01, T03.

The scheduler picks, call by call, which process's file system request is served next; faults
are attached to requests; between phases the disk may lose power, be damaged or be cleaned.
"""

import errno
import functools
import json
import os

import control
import encounters
import tables
import vfs
from control import Violation

NODE = "cache"
REAL = [
    "numba_pokemon_prngs.data and everything it imports, loaded anew in every process life",
    "CPython's import system, pickle, json, pathlib, platformdirs, numpy, numba typed dicts",
    "node processes (really killed)",
]
STUB = [
    "the file system below the cache, home and temporary directories (simulated disk with "
    "page-wise durability), file objects and os calls on it",
    "reads of the package's resource files (served from a snapshot; faults in C05)",
    "clock, sleep, process id, urandom, temporary names (seeded) and the locale's encoding",
]

LOCATIONS = ["/vsim/cache", "/vsim/a b/c", "/vsim/{x}/c{0}", "/vsim/缓存/é", "/vsim/p/q/r/s",
             "/vsim/cache/", None, "", "/vsim/%s%d", "/vsim/~x/{}", "/vsim/it's", "/vsim/tmp",
             "/vsim/x.pkl", "/vsim//double", "/vsim/cache/../other", "/vsim/$HOME/${USER}",
             "/vsim/[a]*?", "/vsim/a\\n", "/vsim/a\nb", "/vsim/#;&|", "/vsim/-r", "/vsim/" + "x" * 200,
             "/vsim/" + "d/" * 60 + "e"]
ERRORS = ["EACCES", "EPERM", "EROFS", "ENOSPC", "EDQUOT", "EIO", "EMFILE", "ENFILE", "ENOMEM",
          "EISDIR", "ENOTDIR", "ELOOP", "ENAMETOOLONG", "ESTALE", "EBUSY", "ETXTBSY", "ENOENT",
          "EFBIG", "ETIMEDOUT"]
DAMAGES = ["flip", "flip", "overwrite", "truncate", "extend", "zero", "zeroall", "swap", "copy",
           "page", "digest", "pickle", "field"]
STEP_LIMIT = 60000
# items that give all sections of these names
WHOLE = {"import": "", "again": "", "tables": ("table:", "game:"), "names": "list:"}


def modes(prop):
    return ["numba", "numpy"]


def params(prop):
    return {}


# ------------------------------------------------------------------ plan
def nth(rng):
    return rng.choice([1, 1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 12), rng.randrange(1, 40)])


def trigger(rng, life, what=None):
    op = what or rng.choice(["create", "create", "write", "write", "read", "open", "other", "any"])
    count = nth(rng)
    if op == "any":
        count = rng.randrange(1, 130)
    return {"life": life, "op": op, "nth": count}


TXT_FILES = ["txt/%s_en.txt" % name for name in ("species", "abilities", "natures", "types")]
TABLE_FILES = TXT_FILES + ["bin/personal/personal_" + name for name in (
    "rs e fr lg dp pt bw b2w2 xy ao sm uu swsh bdsp la".split())]
ENCOUNTER_FILES = TXT_FILES[:1] + ["encount/%s_wild_encounters.json" % name for name in ("rs", "e", "frlg")] + [
    "encount/la/" + name for name in ["encounter_table_names.json", "spawner_names.json", "poke_misc.bin",
                                      "poke_encount.bin", "new_huge_outbreak_group.bin", "new_huge_outbreak_group_lottery.bin"]
    + ["ha_area%02d_%s.bin" % (number, what) for number in range(1, 6) for what in ("encounter", "spawner")]]


def read_fault(rng, op):
    pick = rng.random()
    if pick < 0.2:
        return ["interrupt", rng.choice(["kbd", "mem"]), rng.choice(["before", "after"])]
    if pick < 0.5 and op == "res-read":
        return ["short", rng.random()]
    return ["error", rng.choice(["EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "ESTALE", "ENOENT",
                                 "ETIMEDOUT"]), rng.choice([1, 1, 1, 2, 5])]


def plan_tables(rng, tier, index):
    """D01: stat tables and name lists"""
    versions = [{"tables": "real" if rng.random() < 0.1 else rng.randrange(80), "mtime": 1.6e9}]
    out = {"versions": versions, "cache": "/vsim/cache", "made": False, "page": 4096, "phases": [],
           "faults": []}
    lives = 0
    for _ in range(rng.choice([1, 2, 3])):
        phase = {"before": [], "lives": [], "switch": [], "disk": {}}
        for _ in range(rng.choice([1, 1, 2])):
            numba = rng.random() < 0.35
            script = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                pick = rng.random()
                if pick < 0.45:
                    item = ["tables"]
                elif pick < 0.6:
                    item = ["names"]
                elif pick < 0.75:
                    item = ["forget"]  # the next item imports everything again
                elif numba and pick < 0.97:
                    item = ["tables"]
                else:
                    item = ["info3", rng.choice(["RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN"])]
                if item[0] != "forget" and rng.random() < 0.15:
                    item.append({"at": rng.choice([rng.randrange(1, 60), rng.randrange(1, 400)]),
                                 "what": rng.choice(["kbd", "mem"])})
                script.append(item)
            phase["lives"].append({"id": lives, "mode": "numba" if numba else "numpy", "version": 0,
                                   "script": script, "seed": rng.getrandbits(32)})
            lives += 1
        if len(phase["lives"]) > 1:
            step = 0
            for _ in range(rng.choice([0, 3, 20])):
                step += 1 + int(rng.expovariate(0.1))
                phase["switch"].append([step, rng.randrange(2)])
        out["phases"].append(phase)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        op = rng.choice(["res-read", "res-read", "res-open", "res-any"])
        count = rng.choice([rng.randrange(1, 12), rng.randrange(1, 25), rng.randrange(1, 60),
                            rng.randrange(1, 150)])
        out["faults"].append({"life": rng.randrange(lives), "op": op, "nth": count, "do": read_fault(rng, op)})
        if rng.random() < 0.5:
            out["faults"][-1].update(file=rng.choice(TABLE_FILES), nth=rng.choice([1, 1, 2, 3]))
    return out


def plan_threads(rng, tier, index):
    """T03: threads of a process load at once"""
    out = {"versions": [{"seed": rng.randrange(60), "mtime": 1.6e9}], "cache": "/vsim/cache",
           "made": rng.random() < 0.4, "page": rng.choice([512, 4096]), "phases": [], "faults": []}
    lives = 0
    for _ in range(rng.choice([1, 1, 2])):
        phase = {"before": [], "lives": [], "switch": [], "disk": {}}
        for _ in range(rng.choice([1, 1, 1, 1, 2])):
            script = [["import"]]
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.85:
                    script.append(["clear"])
                script.append(threads_item(rng, tier))
            if rng.random() < 0.3:
                script.append(["again"])
            phase["lives"].append({"id": lives, "mode": "numba" if rng.random() < 0.2 else "numpy",
                                   "version": 0, "script": script, "seed": rng.getrandbits(32)})
            lives += 1
        if len(phase["lives"]) > 1:
            step = 0
            for _ in range(rng.choice([3, 20])):
                step += 1 + int(rng.expovariate(0.1))
                phase["switch"].append([step, rng.randrange(2)])
        out["phases"].append(phase)
    everyone = [life for phase in out["phases"] for life in phase["lives"]]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        life = rng.choice(everyone)
        pick = rng.random()
        if pick < 0.45:
            do, op = ["unlink", rng.randrange(30)], None
        elif pick < 0.5:
            do, op = ["clear"], None
        elif pick < 0.6:
            do, op = ["kill", rng.random()], None
        elif pick < 0.7:
            do, op = ["interrupt", rng.choice(["kbd", "mem"]), rng.choice(["before", "after"])], None
        elif pick < 0.8:
            do, op = ["short", rng.random()], rng.choice(["write", "read"])
        else:
            do, op = ["error", rng.choice(ERRORS), rng.choice([1, 1, 2, 5])], None
        fault = dict(trigger(rng, life["id"], op), do=do)
        fault["item"] = rng.choice([i for i, item in enumerate(life["script"]) if item[0] == "threads"])
        out["faults"].append(fault)
    out["phases"].append({"before": [], "disk": {}, "switch": [], "lives": [{
        "id": lives, "mode": "numpy", "version": 0, "script": [["import"]], "seed": 1}]})
    return out


def threads_item(rng, tier):
    loads = [["load", "gen3", game] for game in sorted(encounters.GAMES)]
    loads += [["load", "la", area] for area in range(1, 6)]
    pool = rng.sample(loads, rng.choice([1, 1, 2, 3]))
    count = rng.choice([2, 2, 2, 3, 4])
    programs, faults = [], []
    for number in range(count):
        program = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            load = rng.choice(pool)
            if program and rng.random() < 0.5:
                program.append(["clear"])
            if rng.random() < 0.12:
                # cut short, then tried again
                at = int(10 ** rng.uniform(0, 3.2))
                faults.append([number, len(program), at,
                               rng.choice(["interrupt", "memory", "timeout", "timeout", "die"])])
                program.append(load)
            program.append(load)
            if rng.random() < 0.2:
                program.append(["scribble"])
        programs.append(program)
    granularity, most = ("line", 2.9) if rng.random() < 0.7 else ("instr", 4)
    if rng.random() < 0.4:
        granularity += ":data/encounter/__init__.py"
        most -= 0.5
    style = rng.random()
    segments = []
    few = rng.random() < 0.3  # lines of the package's own loading code
    for _ in range(rng.choice([2, 6, 20, 60] if tier == "quick" else [2, 6, 20, 60, 200])):
        if style < 0.3 or (style > 0.7 and rng.random() < 0.5):
            length = -rng.choice([1, 1, 2, 3, rng.randrange(1, 20)])
        elif few:
            length = int(10 ** rng.uniform(0, 1.3))
        else:
            length = int(10 ** rng.uniform(0, most))
        segments.append([rng.randrange(count), length])
    return ["threads", programs, segments, granularity, faults]


def plan(rng, prop, tier, index):
    make = {"D01": plan_tables, "T03": plan_threads}.get(prop, plan_cache)
    out = make(rng, prop, tier, index) if make is plan_cache else make(rng, tier, index)
    for phase in out["phases"]:
        for life in phase["lives"]:
            if life["seed"] % 8 == 5:
                life["encoding"] = ("latin-1", "ascii", "cp1252", "cp932")[life["seed"] // 8 % 4]
        lives = phase["lives"]
        if make is plan_cache and len(lives) > 1 and lives[0]["seed"] % 6 == 1:
            for life in lives:  # containers that share the cache: each has its own process 1
                life["pid"] = 1
    return out


def plan_cache(rng, prop, tier, index):
    deep = tier == "thorough"
    real = index % (150 if deep else 250) == 7
    spec = {"real": True} if real else {"seed": rng.randrange(60)}
    if not real and rng.random() < (0.12 if prop == "C06" else 0.02):
        spec = {"seed": rng.randrange(3), "big": True}  # entries of more than 64 KiB
    versions = [spec]
    if prop == "C07":
        for _ in range(rng.choice([1, 1, 2])):
            versions.append(dict(spec, vary=[rng.randrange(1000), rng.choice([1, 1, 1, 2, 4])]))
        if rng.random() < 0.15 and not real:
            versions.append({"seed": rng.randrange(60)})
    for version in versions:
        version["mtime"] = rng.choice([1.6e9, 1.6e9, 1.7e9, 1.8e9])
    cache = rng.choice(LOCATIONS) if prop == "C01" or rng.random() < 0.25 else "/vsim/cache"
    out = {
        "versions": versions, "cache": cache, "made": rng.random() < 0.4,
        "page": rng.choice([64, 512, 512, 4096]), "phases": [], "faults": [],
    }
    lives = 0
    total = rng.choice([2, 2, 3, 4, 6]) * (2 if deep and rng.random() < 0.2 else 1)
    if real:
        total = 2
    while lives < total:
        together = 1
        if prop == "C03":
            together = rng.choice([2, 2, 3, 4])
        elif rng.random() < (0.4 if prop in ("C02", "C07") else 0.2):
            together = 2
        if real:
            together = min(2, together)
        phase = {"before": [], "lives": [], "switch": [], "disk": {}}
        for _ in range(together):
            script = [["import"]]
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                pick = rng.random()
                if pick < 0.7 and rng.random() < 0.35 and not real:
                    script.append(["clear"])  # the next load finds nothing
                if pick < 0.35:
                    script.append(["load", "gen3", rng.choice(sorted(encounters.GAMES))])
                elif pick < 0.7:
                    script.append(["load", "la", rng.randrange(1, 6)])
                elif pick < 0.9 and len(script) > 1:
                    script.append(["scribble"])
                    script.append(["load", *script[-2][1:]] if script[-2][0] == "load" else ["again"])
                else:
                    script.append(["again"])
            if real:
                script = script[:1]
            phase["lives"].append({
                "id": lives, "mode": "numba" if rng.random() < (0.5 if real else 0.3) else "numpy",
                "version": rng.randrange(len(versions)), "script": script,
                "seed": rng.getrandbits(32),
            })
            lives += 1
        if together > 1:
            step, gap = 0, rng.choice([1, 3, 10, 40])
            for _ in range(rng.choice([3, 20, 80])):
                step += 1 + int(rng.expovariate(1 / gap))
                phase["switch"].append([step, rng.randrange(together)])
        out["phases"].append(phase)
    everyone = [life for phase in out["phases"] for life in phase["lives"]]

    def add(fault, op=None, only=None):
        life = rng.choice(only or everyone)
        out["faults"].append(dict(trigger(rng, life["id"], op), do=fault))
        loads = [i for i, item in enumerate(life["script"]) if item[0] == "load"]
        if loads and rng.random() < 0.5:
            out["faults"][-1]["item"] = rng.choice(loads)

    def between(*event):
        rng.choice(out["phases"])["before"].append(list(event))

    # removing entries is normal use
    if prop in ("C01", "C02", "C03", "C06", "C07") and rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 6])):
            between("unlink", rng.randrange(30))
        if rng.random() < 0.1:
            between("rmtree")
    if rng.random() < 0.3:
        between("clock", rng.choice([-1e6, -3600, 1, 3600, 1e7]))
    if prop == "C03":
        for _ in range(rng.choice([0, 0, 1, 3, 8])):
            add(["unlink", rng.randrange(30)])
        if rng.random() < 0.1:
            add(["rmtree"])
        if rng.random() < 0.25:
            add(["kill", rng.random()])
    elif prop == "C02":
        for _ in range(rng.choice([1, 1, 2, 3])):
            pick = rng.random()
            if pick < 0.35:
                add(["kill", rng.choice([0, 1, rng.random()])])
            elif pick < 0.65:
                add(["power", rng.choice([0, 1, rng.random()]), rng.getrandbits(32)])
            elif pick < 0.8:
                add(["interrupt", rng.choice(["kbd", "kbd", "mem"]), rng.choice(["before", "after"])])
            else:
                life = rng.choice(everyone)
                item = rng.randrange(len(life["script"]))
                if life["script"][item][0] not in ("scribble", "clear") and not isinstance(life["script"][item][-1], dict):
                    life["script"][item] = life["script"][item] + [{
                        "at": rng.choice([rng.randrange(1, 60), rng.randrange(1, 400), rng.randrange(1, 4000)]),
                        "what": rng.choice(["kbd", "kbd", "mem"])}]
        if rng.random() < 0.3:
            between("power", rng.getrandbits(32))
        if rng.random() < 0.2:
            between("sync")
    elif prop == "C04":
        style = rng.random()
        phase = rng.choice(out["phases"])
        if style < 0.12:
            phase["disk"]["readonly"] = True
        elif style < 0.3:
            phase["disk"]["capacity"] = rng.choice([0, 40, 500, 3000, 20000])
        elif style < 0.38:
            phase["before"].append(["obstacle", rng.randrange(1, 4)])
        for _ in range(rng.choice([1, 1, 2, 4])):
            pick = rng.random()
            if pick < 0.1:
                add(["obstruct"], "create")
            elif pick < 0.25:
                add(["short", rng.random()], rng.choice(["write", "read"]))
            else:
                add(["error", rng.choice(ERRORS), rng.choice([1, 1, 1, 2, 5, 1000])])
        if rng.random() < 0.2:
            between("obstruct", rng.randrange(30))
    elif prop == "C05":
        for _ in range(rng.choice([1, 1, 2, 4])):
            op = rng.choice(["res-read", "res-read", "res-open", "res-any"])
            fault = read_fault(rng, op)
            add(fault, op)
            if rng.random() < 0.25:
                out["faults"][-1].pop("item", None)
                out["faults"][-1].update(file=rng.choice(ENCOUNTER_FILES), nth=rng.choice([1, 1, 2, 3]))
            elif "item" in out["faults"][-1]:
                out["faults"][-1]["nth"] = rng.randrange(1, 9)
            else:
                out["faults"][-1]["nth"] = rng.choice([rng.randrange(1, 60), rng.randrange(1, 200)])
        if rng.random() < 0.3:
            between("unlink", rng.randrange(30))
    elif prop == "C06":
        for _ in range(rng.choice([1, 1, 2, 4])):
            event = ["damage", rng.choice(DAMAGES), rng.randrange(1000), rng.getrandbits(32)]
            if rng.random() < 0.7 and len(out["phases"]) > 1:
                rng.choice(out["phases"][1:])["before"].append(event)
            else:
                add(event)
    elif prop == "C07":
        pick = rng.random()
        if pick < 0.15:
            add(["kill", rng.random()])
        elif pick < 0.3:
            # the same read fails in several processes, perhaps with different files
            nth = rng.choice([rng.randrange(1, 12), rng.randrange(1, 40)])
            op = rng.choice(["res-open", "res-read", "res-any"])
            for life in rng.sample(everyone, min(len(everyone), rng.choice([1, 2, 3]))):
                fault = read_fault(rng, op)
                if fault[0] == "error":
                    out["faults"].append({"life": life["id"], "op": op, "nth": nth, "do": fault})
    # afterwards everybody loads without any fault
    for mode in (["numpy", "numba"] if rng.random() < 0.5 else ["numba"] if rng.random() < 0.3 else ["numpy"]):
        out["phases"].append({"before": [], "disk": {}, "switch": [], "lives": [{
            "id": lives, "mode": mode, "version": rng.randrange(len(versions)),
            "script": [["import"]], "seed": 1}]})
        lives += 1
    return out


def lists(plan):
    found = [["phases"], ["faults"]]
    for i, phase in enumerate(plan["phases"]):
        found += [["phases", i, "lives"], ["phases", i, "before"], ["phases", i, "switch"]]
        for j in range(len(phase["lives"])):
            found.append(["phases", i, "lives", j, "script"])
            for k, item in enumerate(phase["lives"][j]["script"]):
                if item[0] == "threads":
                    path = ["phases", i, "lives", j, "script", k]
                    found += [path + [2], path + [4]]
                    found += [path + [1, n] for n in range(len(item[1]))]
    return found


def simplify(plan):
    def copy():
        return json.loads(json.dumps(plan))

    for i, phase in enumerate(plan["phases"]):
        for j, life in enumerate(phase["lives"]):
            for key in ("encoding", "pid"):
                if key in life:
                    candidate = copy()
                    del candidate["phases"][i]["lives"][j][key]
                    yield candidate
            if life["mode"] != "numpy":
                candidate = copy()
                candidate["phases"][i]["lives"][j]["mode"] = "numpy"
                yield candidate
            for k, item in enumerate(life["script"]):
                if item[0] == "threads" and item[3] != "line" and not item[4]:
                    candidate = copy()
                    candidate["phases"][i]["lives"][j]["script"][k][3] = "line"
                    yield candidate
        if phase["disk"]:
            candidate = copy()
            candidate["phases"][i]["disk"] = {}
            yield candidate
    if plan["cache"] != "/vsim/cache":
        yield dict(copy(), cache="/vsim/cache")
    for i, version in enumerate(plan["versions"]):
        if version.get("tables", 1) != 1:
            candidate = copy()
            candidate["versions"][i]["tables"] = 1
            yield candidate
        if version.get("real"):
            candidate = copy()
            del candidate["versions"][i]["real"]
            candidate["versions"][i]["seed"] = 1
            yield candidate
        if version.get("big"):
            candidate = copy()
            del candidate["versions"][i]["big"]
            yield candidate
    for i, fault in enumerate(plan["faults"]):
        if fault["do"][0] == "error" and fault["do"][2] > 1:
            candidate = copy()
            candidate["faults"][i]["do"][2] = 1
            yield candidate


# ------------------------------------------------------------------ resources
@functools.lru_cache(None)
def real_files():
    return encounters.real_resources(control.REPO)


@functools.lru_cache(None)
def real_tables():
    return tables.real(control.REPO)


@functools.lru_cache(64)
def version_files(text):
    spec = json.loads(text)
    if "tables" in spec:
        files = real_tables()
        if spec["tables"] != "real":
            files = tables.synthetic(spec["tables"], files)
        sections = tables.decode(files)
        return files, sections, {k: encounters.fingerprint(v) for k, v in sections.items()}
    if spec.get("real"):
        files = real_files()
    else:
        files = encounters.synthetic(spec["seed"], real_files()["txt/species_en.txt"], spec.get("big"))
    if "vary" in spec:
        files = encounters.vary(files, spec["vary"][0], spec["vary"][1])
    sections = encounters.decode(files)
    return files, sections, {k: encounters.fingerprint(v) for k, v in sections.items()}


def version(spec):
    return version_files(json.dumps({k: v for k, v in spec.items() if k != "mtime"}, sort_keys=True))


# ------------------------------------------------------------------ execution
class Life:
    def __init__(self, spec, node):
        self.spec, self.node = spec, node
        self.fds = {}
        self.item = -1
        self.excused = False  # something was done to the current item that permits an error
        self.request = None
        self.counts = {}
        self.item_counts = {}  # since the current item began
        self.file_counts = {}
        self.blocked = False
        self.over = False
        self.tries = 0
        self.interrupts = 0  # by calls of the current item


def kind_of(op, args):
    if op == "open":
        return "create" if args[1] & vfs.O_CREAT else "open"
    if op in ("write", "read") or op.startswith("res-"):
        return op
    return "other"


class Run:
    def __init__(self, plan, env, history):
        self.plan, self.env, self.history = plan, env, history
        self.disk = vfs.Vfs(plan["page"])
        self.start = self.disk.now
        for path in ("/vsim", "/vsim/home", "/vsim/tmp"):
            self.disk.call({}, "mkdir", (path, 0o755))
        cache = plan["cache"]
        if plan["made"] and cache:
            self.make(self.clean(cache))
        self.disk.sync_all()
        self.faults = [dict(fault, left=None) for fault in plan["faults"]]
        self.lives = {}
        self.order = []

    @staticmethod
    def clean(path):
        return os.path.normpath(path)

    def make(self, path):
        parts = path.strip("/").split("/")
        for i in range(1, len(parts) + 1):
            try:
                self.disk.call({}, "mkdir", ("/" + "/".join(parts[:i]), 0o755))
            except vfs.FsError:
                pass

    # ------------------------------------------------------------ events on the disk
    def entries(self):
        return [path for path, _ in self.disk.files()]

    def outside(self, op, args):
        """An operation of somebody else, whom the processes' read-only mount does not bind"""
        readonly, self.disk.readonly = self.disk.readonly, False
        try:
            return self.disk.call({}, op, args)
        finally:
            self.disk.readonly = readonly

    def disturb(self, event):
        what = event[0]
        history = self.history
        if what == "unlink":
            entries = self.entries()
            if entries:
                path = entries[event[1] % len(entries)]
                self.outside("unlink", (path,))
                history.fault("cache entry removed")
                history.event("removed", path)
        elif what == "clear":
            for path in self.entries():
                self.outside("unlink", (path,))
            history.fault("all cache entries removed")
            history.event("removed entries")
        elif what == "rmtree":
            for path, inode in reversed(list(self.disk.walk())):
                if path.count("/") > 1 and path not in ("/vsim/home", "/vsim/tmp"):
                    self.outside("rmdir" if inode.directory else "unlink", (path,))
            history.fault("cache directory removed")
            history.event("removed all")
        elif what == "damage":
            done = self.disk.damage(control.rng_for(event[3]), event[1], event[2])
            if done:
                history.fault("damage: " + event[1])
            history.event("damaged", done, event[1])
        elif what == "power":
            self.disk.power_loss(control.rng_for(event[1]))
            history.fault("power loss")
            history.event("power", self.disk.digest())
        elif what == "sync":
            self.disk.sync_all()
        elif what == "clock":
            self.disk.now += event[1]
            self.start += event[1]
            history.fault("clock jump")
        elif what == "obstacle":
            # a file where a directory of the cache's path should be
            parts = self.clean(self.plan["cache"] or "/vsim/home/.cache").strip("/").split("/")
            path = "/" + "/".join((parts + ["numba_pokemon_prngs"])[: 1 + event[1]])
            try:
                fd = self.disk.call(fds := {}, "open", (path, vfs.O_CREAT | vfs.O_WRONLY | vfs.O_EXCL, 0o644))
                self.disk.call(fds, "write", (fd, b"not a directory"))
                self.disk.release(fds)
                history.fault("file in place of a directory")
            except vfs.FsError:
                pass
        elif what == "obstruct":
            entries = self.entries()
            if entries:
                path = entries[event[1] % len(entries)]
                self.outside("unlink", (path,))
                self.outside("mkdir", (path, 0o755))
                history.fault("directory in place of an entry")
        history.marks.add(self.disk.digest())

    # ------------------------------------------------------------ nodes
    def begin(self, spec):
        files, _, _ = version(self.plan["versions"][spec["version"]])
        node = self.env.spawn(spec["mode"], {"cpu": 200})
        life = Life(spec, node)
        index = len(self.current)
        node.send({
            "cache": self.plan["cache"], "resources": files, "pid": spec.get("pid", 100 + index),
            "roots": ["/vsim", "/home", "/root", "/tmp", "/var/tmp"],
            "exclude": [control.REPO + "/", control.HERE, "/tmp/simrun-"],
            "resource_rpc": self.resource_faults, "seed": spec["seed"],
            "mtime": self.plan["versions"][spec["version"]]["mtime"],
            "encoding": spec.get("encoding", "utf-8"),
        })
        if "encoding" in spec:
            self.history.fault("locale that is not UTF-8")
        if "pid" in spec:
            self.history.fault("process ids that coincide")
        return life

    def next_item(self, life):
        life.item += 1
        life.tries = 0
        script = life.spec["script"]
        if life.item >= len(script):
            self.finish(life)
            return
        life.item_counts = {}
        life.interrupts = 0
        if script[life.item][0] == "clear":
            self.disturb(["clear"])
            self.next_item(life)
            return
        self.order_item(life, script[life.item])

    def order_item(self, life, item):
        life.excused = False
        life.node.send(item)
        self.take(life)

    def take(self, life):
        """Receive what the node does next"""
        message = life.node.recv()
        if message[0] == "fs":
            life.request = message[1:]
            return
        self.history.event("life", life.spec["id"], life.item, message[0],
                           message[1] if message[0] == "failed" else "")
        script = life.spec["script"]
        item = script[life.item]
        if message[0] == "failed":
            fired = message[3]
            if fired:
                self.history.fault("interrupt at a line: " + item[-1]["what"])
            if not (fired or life.excused):
                raise Violation("load failed", "process %d (%s) item %r: %s\n%s" % (
                    life.spec["id"], life.spec["mode"], item, message[1], message[2]))
            self.history.probe("load failed with an error, then retried")
            life.tries += 1
            again = [part for part in item if not isinstance(part, dict)]
            if life.tries > len(self.plan["faults"]) * 6 + 3:
                raise control.HarnessError("endless retries")
            self.order_item(life, again)
            return
        if message[0] == "odd":
            raise Violation("wrong data", "process %d (%s) item %r: not usable:\n%s" % (
                life.spec["id"], life.spec["mode"], item, message[1]))
        if message[0] == "threaded":
            self.threaded(life, item, message[1])
            self.next_item(life)
            return
        if message[2]:
            self.history.fault("interrupt at a line: " + item[-1]["what"])
        _, sections, prints = version(self.plan["versions"][life.spec["version"]])
        answer = message[1]
        expected = set(answer)
        if item[0] in WHOLE:
            expected = {name for name in prints if name.startswith(WHOLE[item[0]])}
        wrong = sorted(name for name in expected | set(answer) if answer.get(name) != prints.get(name))
        if wrong:
            life.node.send(("show", wrong[:2]))
            _, shown = life.node.recv()
            detail = []
            for name, text in zip(wrong, shown):
                want = repr(sections.get(name))
                at = next((i for i, (a, b) in enumerate(zip(text, want)) if a != b), min(len(text), len(want)))
                detail.append("section %s differs at character %d: got ...%s... want ...%s..." % (
                    name, at, text[max(0, at - 60):at + 80], want[max(0, at - 60):at + 80]))
            raise Violation("wrong data", "process %d (%s) item %r: sections %s\n%s" % (
                life.spec["id"], life.spec["mode"], item, wrong, "\n".join(detail)))
        self.history.probe("loads checked: " + life.spec["mode"])
        self.next_item(life)

    def threaded(self, life, item, outcome):
        """What the threads of a process loaded"""
        history = self.history
        where = "process %d (%s)" % (life.spec["id"], life.spec["mode"])
        if outcome["stuck"]:
            raise Violation("no progress", "%s: threads wait forever\n%s" % (where, outcome["stuck"]))
        _, sections, prints = version(self.plan["versions"][life.spec["version"]])
        history.event("threads", encounters.fingerprint([outcome["results"], outcome["switches"]]))
        history.marks.add("threads " + encounters.fingerprint(outcome["switches"]))
        history.probe("hand-overs between threads", len(outcome["switches"]))
        cuts = life.interrupts
        life.interrupts = 0
        for fired in outcome["fired"]:
            history.fault("thread cut: " + fired[1])
            cuts += 1
        wrong = []

        def check(number, load, answer, when):
            if load[0] != "load":
                return
            names = (["names:" + load[2], "areas:" + load[2]] if load[1] == "gen3"
                     else ["la:%d" % load[2]])
            for name in names:
                if answer.get(name) != prints[name]:
                    wrong.append((number, name, when))
            history.probe("loads by threads checked")

        for number, results in enumerate(outcome["results"]):
            for load, result in zip(item[1][number], results):
                if result[0] == "cut" and cuts:
                    cuts -= 1
                elif result[0] == "ok":
                    check(number, load, result[1], "")
                elif result[0] == "harness":
                    raise control.HarnessError(result[1])
                else:
                    raise Violation("load failed", "%s thread %d item %r: %s" % (
                        where, number, load, "\n".join(str(part) for part in result[1:])))
        for number, load, answer in outcome["later"]:
            check(number, load, answer, " later")
        if wrong:
            number, name, when = wrong[0]
            life.node.send(("show", ["%d %s%s" % wrong[0]]))
            (text,) = life.node.recv()[1]
            want = repr(sections.get(name))
            at = next((i for i, (a, b) in enumerate(zip(text, want)) if a != b), min(len(text), len(want)))
            raise Violation("wrong data", "%s thread %d: section %s%s differs at character %d: "
                            "got ...%s... want ...%s..." % (
                                where, number, name, when, at, text[max(0, at - 60):at + 80],
                                want[max(0, at - 60):at + 80]))

    def finish(self, life):
        life.over = True
        life.request = None
        self.disk.release(life.fds)
        life.node.end()

    def kill(self, life):
        life.over = True
        life.request = None
        self.disk.release(life.fds)
        life.node.crash()
        self.history.marks.add(self.disk.digest())

    # ------------------------------------------------------------ one request
    def matching(self, life, op, args):
        kind = kind_of(op, args)
        resource = op.startswith("res-")
        kinds = [kind] + (["res-any"] if resource else ["any"])
        for name in kinds:
            life.counts[name] = life.counts.get(name, 0) + 1
            life.item_counts[name] = life.item_counts.get(name, 0) + 1
            if resource:
                life.file_counts[args[0], name] = life.file_counts.get((args[0], name), 0) + 1
        for fault in self.faults:
            if fault["life"] != life.spec["id"] or fault["op"] not in kinds:
                continue
            counts = life.counts
            if "file" in fault:
                if not resource or args[0] != fault["file"]:
                    continue
                counts = life.file_counts
            elif "item" in fault:
                if fault["item"] != life.item:
                    continue
                counts = life.item_counts
            key = (fault["file"], fault["op"]) if "file" in fault else fault["op"]
            if fault["left"] is None and counts[key] == fault["nth"]:
                fault["left"] = fault["do"][2] if fault["do"][0] == "error" else 1
            if fault["left"]:
                fault["left"] -= 1
                return fault
        return None

    def perform(self, life, op, args):
        """Result of a request: ("ok", value) or ("err", errno); None if the caller must wait"""
        if op == "clock":
            self.disk.now += 0.001
            return "ok", self.disk.now
        if op == "sleep":
            self.disk.now += max(0.0, args[0])
            return "ok", None
        if op == "sync":
            self.disk.sync_all()
            return "ok", None
        if op == "x-clear":
            self.disturb(["clear"])
            return "ok", None
        if op == "res-read":
            return "ok", args[1]
        if op.startswith("res-"):
            return "ok", None
        self.disk.now += 0.0005
        try:
            if op == "flock":
                held = self.disk.call(life.fds, "flock", args[:3])
                if not held and args[3]:
                    return None
                return "ok", held
            return "ok", self.disk.call(life.fds, op, args)
        except vfs.FsError as exc:
            return "err", exc.errno

    def serve(self, life):
        op, args = life.request
        history = self.history
        history.event(life.spec["id"], op, args[0] if args and isinstance(args[0], str) else len(args),
                      len(args[1]) if op == "write" else 0)
        if not life.blocked and op not in ("clock", "sleep", "x-clear"):
            self.order.append((life.spec["id"], op))
            fault = self.matching(life, op, args)
        else:
            fault = None
        after = None
        if fault:
            do = fault["do"]
            what = do[0]
            name = what if what != "error" else "error %s on %s" % (do[1], kind_of(op, args))
            history.event("fault", name, op)
            if what == "error":
                history.fault(name)
                if op.startswith("res-"):
                    life.excused = True
                if op == "close":  # closes even if it reports an error
                    self.perform(life, op, args)
                self.answer(life, ("err", getattr(errno, do[1])))
                return
            if what == "short":
                if op == "write" and len(args[1]) > 1:
                    history.fault("short write")
                    args = (args[0], args[1][: max(1, int(len(args[1]) * do[1]))])
                elif op == "read" and args[1] > 1:
                    history.fault("short read")
                    args = (args[0], max(1, int(args[1] * do[1])))
                elif op == "res-read" and args[1] > 1:
                    history.fault("short read of a resource")
                    args = (args[0], max(1, int(args[1] * do[1])))
            elif what in ("kill", "power"):
                if do[1] > 0 and op == "write":
                    args = (args[0], args[1][: int(round(len(args[1]) * do[1]))])
                    history.fault("partial write before the end")
                if do[1] > 0:
                    self.perform(life, op, args)
                if what == "kill":
                    history.fault("process killed")
                    self.kill(life)
                else:
                    for other in self.current:
                        if not other.over:
                            self.kill(other)
                    self.disturb(["power", do[2]])
                    self.dark = True
                return
            elif what == "interrupt":
                history.fault("interrupt at a call: " + do[1])
                life.excused = True
                life.interrupts += 1
                if do[2] == "before":
                    self.answer(life, ("interrupt", do[1]))
                    return
                after = ("interrupt", do[1])
            elif what == "obstruct":
                if op == "open":
                    try:
                        self.disk.call({}, "unlink", (args[0],))
                    except vfs.FsError:
                        pass
                    try:
                        self.disk.call({}, "mkdir", (args[0], 0o755))
                        history.fault("directory in place of an entry")
                    except vfs.FsError:
                        pass
            else:
                self.disturb(do)
        result = self.perform(life, op, args)
        if result is None:
            life.blocked = True
            self.history.probe("waited for a lock")
            return
        life.blocked = False
        self.answer(life, after or result)

    def answer(self, life, message):
        life.request = None
        life.node.send(message)
        self.take(life)

    # ------------------------------------------------------------ a phase
    def phase(self, phase):
        for event in phase["before"]:
            self.disturb(event)
        condition = phase["disk"]
        self.disk.readonly = condition.get("readonly", False)
        self.disk.capacity = condition.get("capacity")
        if self.disk.capacity is not None:
            self.disk.capacity += self.disk.used()
            self.history.fault("nearly full disk")
        if self.disk.readonly:
            self.history.fault("read-only disk")
        self.current = []
        self.dark = False
        waiting = list(phase["lives"])
        for spec in waiting:
            self.current.append(self.begin(spec))
        switches = [tuple(s) for s in phase["switch"]]
        step, at = 0, 0
        started = set()
        while True:
            runnable = [life for life in self.current if not life.over]
            if not runnable:
                break
            step += 1
            if step > STEP_LIMIT:
                raise Violation("no progress", "%d file system calls in one phase" % step)
            while switches and switches[0][0] <= step:
                at = switches.pop(0)[1]
            if at >= len(self.current) or self.current[at].over:
                at = self.current.index(runnable[0])
            life = self.current[at]
            if life.blocked or (life.request and life.request[0] == "sleep"):
                # a waiting process lets the others go on
                others = [o for o in runnable if o is not life and not o.blocked]
                if life.blocked:
                    self.serve(life)
                    if life.blocked:
                        if not others:
                            raise Violation("no progress", "every process waits for a lock")
                        at = self.current.index(others[step % len(others)])
                        self.step_life(self.current[at], started)
                    continue
                self.serve(life)
                if others:
                    at = self.current.index(others[step % len(others)])
                continue
            self.step_life(life, started)
        self.disk.readonly, self.disk.capacity = False, None
        self.history.marks.add(self.disk.digest())

    def step_life(self, life, started):
        if life.spec["id"] not in started:
            started.add(life.spec["id"])
            self.next_item(life)
        else:
            self.serve(life)


def execute(plan, env, history):
    run = Run(plan, env, history)
    run.resource_faults = any(fault["op"].startswith("res-") for fault in plan["faults"])
    for phase in plan["phases"]:
        run.phase(phase)
        history.event("disk", run.disk.digest())
    history.time += run.disk.now - run.start
    history.probe("file system calls", len(run.order))
    concurrent = any(len(phase["lives"]) > 1 for phase in plan["phases"])
    if concurrent:
        history.marks.add("order " + encounters.fingerprint(run.order))
