"""Processes importing the package, part by part and again and again, under faults.  I01.

One process life: the environment variable, whether numba is installed, which parts are
imported in which order, where an import is interrupted or a file of it cannot be read, and what
is tried next are all drawn from the seed.
"""

import errno
import functools
import json

import control
import encounters
import gen3model as gm
import models
import opgen
import tables
from control import Violation
from engines import cache, gen3

NODE = "imports"
REAL = ["all modules of the package, imported anew in every process life from their source files",
        "CPython's import system and logging, numpy, numba", "node processes (really killed)"]
STUB = ["whether numba is found (its finders answer that there is none)",
        "the package's resource files (served from memory, with faults) and reads of its source files (faults)",
        "the cache directory (there is none)"]
PACKAGE = "numba_pokemon_prngs"
ERRORS = ["EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "ESTALE", "ETIMEDOUT"]
UTIL = {"change_endian_u32": 32, "hex_32": 32, "rotate_left_u32": 32, "rotate_right_u32": 32,
        "rotate_left_u64": 64, "rotate_right_u64": 64, "compute_stat": 0}
NUMPY_SETTINGS = [["FALSE", False], ["FALSE", True], ["0", False], ["", False], ["true", False], ["True", True],
                  ["TRUE ", False], ["TRUE", True], ["TRUE", True], [None, True], [None, True], [None, True]]


def modes(prop):
    return ["numba", "numpy"]


def params(prop):
    return {}


@functools.lru_cache(None)
def known():
    return tables.modules(control.REPO)


@functools.lru_cache(None)
def expected():
    contents = tables.with_encounters(control.REPO)
    return {
        "names": {k: encounters.fingerprint(v) for k, v in tables.decode(contents).items() if k.startswith("list:")},
        "tables": {k: encounters.fingerprint(v) for k, v in tables.decode(contents).items()
                   if not k.startswith("list:")},
        "encounter": {k: encounters.fingerprint(v) for k, v in encounters.decode(contents).items()},
    }


# ------------------------------------------------------------------ plan
def is_fault(part):
    return isinstance(part, dict) and "kind" in part


def fault(rng):
    pick = rng.random()
    if pick < 0.55:
        return {"kind": "line", "at": int(10 ** rng.uniform(0, rng.choice([1.5, 2.5, 3.3]))),
                "what": rng.choice(["kbd", "mem", "mem"])}
    if pick < 0.75:
        return {"kind": "source", "nth": rng.randrange(1, rng.choice([3, 8, 20])),
                "errno": getattr(errno, rng.choice(ERRORS))}
    op = rng.choice(["res-read", "res-open", "res-any"])
    do = rng.choice([["error", getattr(errno, rng.choice(ERRORS)), rng.choice([1, 1, 2, 5])],
                     ["interrupt", rng.choice(["kbd", "mem"])], ["short", rng.random()]])
    found = {"kind": "res", "op": op, "nth": rng.choice([1, rng.randrange(1, 10), rng.randrange(1, 60)]), "do": do}
    if rng.random() < 0.4:
        found.update(file=rng.choice(cache.TABLE_FILES + cache.ENCOUNTER_FILES + cache.TXT_FILES * 3),
                     nth=rng.choice([1, 1, 2]))
    return found


def probe(rng, mode):
    pick = rng.random()
    if pick < 0.4:
        kinds = ["lcrng", "mt", "sfmt", "tiny", "xs", "xo"]
        if rng.random() < 0.2:
            spec = opgen.sha1_spec(rng)
            source = opgen.Source(rng, spec, mode, 300)
            ops = [["button", 0xFF2F0000], ["date", 2010, 9, 18, 6], ["timer", 0xC79, 0x60], ["time", 14, 30, 1]]
            ops += [op for op in (source.op() for _ in range(rng.randrange(4))) if op[0] in ("button", "date", "timer", "time")]
            return ["gen", spec, ops + [["pre"], ["hash"]]]
        spec = opgen.generator_spec(rng, kinds)
        source = opgen.Source(rng, spec, mode, 300)
        ops = []
        for _ in range(rng.choice([1, 2, 5, 12])):
            op = source.op()
            if mode == "numba" and op[0] in ("cjump", "crand"):
                continue
            ops.append(op)
        return ["gen", spec, ops]
    if pick < 0.5:
        return ["names"]
    if pick < 0.6:
        return ["tables"]
    if pick < 0.7:
        return ["encounter"]
    if pick < 0.8 and mode == "numpy":
        game = rng.choice([1, 2, 4, 8, 16])
        area = gen3.made_up(rng, game)
        config = [rng.choice(gm.METHODS), rng.choice([gm.GRASS, gm.SURFING, gm.OLD_ROD]),
                  rng.choice(gen3.LEADS), game, rng.randrange(65536), rng.randrange(65536)]
        return ["search", config, {k: v if isinstance(v, int) else [list(s) for s in v] for k, v in area.items()},
                opgen.word(rng, 32), rng.choice([0, 1000]), rng.choice([0, rng.randrange(10000)]), rng.choice([1, 2, 3])]
    if pick < 0.9:
        calls = []
        for _ in range(rng.choice([1, 3, 8])):
            name = rng.choice(sorted(UTIL))
            bits = UTIL[name]
            if name == "compute_stat":
                calls.append([name, rng.randrange(1, 1000), rng.randrange(25), rng.randrange(1, 6)])
            elif name.startswith("rotate"):
                calls.append([name, opgen.word(rng, bits), rng.randrange(1, bits)])
            else:
                calls.append([name, opgen.word(rng, bits)])
        return ["util", calls]
    if pick < 0.96:
        return ["fnv", ["".join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(1, 0xD800)]))
                                for _ in range(rng.randrange(20))) for _ in range(2)]]
    pairs = []
    for _ in range(3):
        bits = rng.choice([8, 32, 64])
        pairs.append([opgen.word(rng, bits) | 1, 1 << bits])
    return ["inverse", pairs]


def item(rng, mode):
    pick = rng.random()
    if pick < 0.5:
        names = known()
        name = rng.choice(names)
        if pick < 0.2:
            name = PACKAGE + rng.choice(["", ".lcrng", ".xorshift", ".mersenne_twister", ".data", ".data.encounter",
                                         ".data.personal", ".enums", ".gen3.wild_generator_3", ".util", ".sha1"])
        if name not in names:
            name = PACKAGE
        return [rng.choice(["import", "import", "import", "star"]), name]
    if pick < 0.55:
        return ["from", *rng.choice([
            [PACKAGE + ".lcrng", "PokeRNGMod"], [PACKAGE + ".data", "SPECIES_EN"], [PACKAGE + ".enums", "Game"],
            [PACKAGE + ".data.personal", "PersonalInfo3"], [PACKAGE + ".options", "USE_NUMBA"],
            [PACKAGE, "data"], [PACKAGE, "lcrng"], [PACKAGE + ".data", "encounter"], [PACKAGE + ".gen3", "state"],
            [PACKAGE + ".data.encounter", "ENCOUNTER_INFORMATION_GEN3"]])]
    if pick < 0.6 and mode == "numpy":
        return ["forget"]
    return probe(rng, mode)


def threads(rng, mode, easy=False):
    """Threads that import and use parts at once"""
    count = rng.choice([2, 2, 2, 3, 4])
    choice = (lambda: light(rng)) if easy else (lambda: item(rng, mode))
    theme = [choice() for _ in range(rng.choice([1, 1, 2]))]
    programs, faults = [], []
    for number in range(count):
        program = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            one = rng.choice(theme) if rng.random() < 0.6 else choice()
            if one[0] == "forget":
                continue
            if rng.random() < 0.15:
                faults.append([number, len(program), int(10 ** rng.uniform(0, 3.3)),
                               rng.choice(["interrupt", "memory", "die"])])
            program.append(one)
        programs.append(program)
    style = rng.choice(["fine", "mixed", "lockstep", "lockstep", "few", "bursts"])
    if style == "fine":
        segments = [[rng.randrange(count), rng.randrange(1, 20)] for _ in range(rng.choice([30, 300]))]
    elif style == "mixed":
        segments = [[rng.randrange(count), int(10 ** rng.uniform(0, 3.3))] for _ in range(rng.choice([10, 60]))]
    elif style == "lockstep":
        step = rng.choice([1, 1, 2, 5, 30])
        segments = [[i % count, step] for i in range(rng.choice([50, 500]))]
    elif style == "few":
        segments = [[rng.randrange(count), int(10 ** rng.uniform(0, 3.6))] for _ in range(rng.choice([1, 2, 4]))]
    else:
        segments = []
        for _ in range(8):
            segments.append([rng.randrange(count), int(10 ** rng.uniform(0, 3.3))])
            segments += [[rng.randrange(count), rng.randrange(1, 8)] for _ in range(rng.randrange(30))]
    return ["threads", programs, segments, faults]


LIGHT = ["", ".options", ".patch", ".compilation", ".compatability", ".enums", ".lcrng", ".lcrng.lcrng32", ".data",
         ".data.personal", ".mersenne_twister.mt", ".mersenne_twister.tinymt", ".rng_list"]


def light(rng):
    """What needs no compilation"""
    pick = rng.random()
    if pick < 0.1:
        return rng.choice([["names"], ["tables"]])
    if pick < 0.2:
        return ["from", PACKAGE, rng.choice(["data", "lcrng", "enums", "compilation"])]
    return ["import", PACKAGE + rng.choice(LIGHT)]


def walk(rng, mode, setting):
    """The same import cut at one line after the other"""
    one = light(rng) if mode == "numba" else ["import", rng.choice(known())]
    what = rng.choice(["kbd", "mem", "mem"])
    fresh = mode == "numpy" and rng.random() < 0.7
    script, at, step = [], rng.choice([1, 1, 1, rng.randrange(1, 300)]), rng.choice([1, 1, 1, 2, 3, 7])
    again = rng.choice([0, 10**9])  # whether it is tried again only after many cuts
    for _ in range(rng.choice([10, 25, 40])):
        script.append([one + [{"kind": "line", "at": at, "what": what}], 0 if fresh else again])
        if fresh:
            script.append([["offers"], 0])
            script.append([["forget"], 0])
        at += step if fresh or rng.random() < 0.5 else 0
    script.append([one, 0])
    if mode == "numpy":
        script += [[probe(rng, mode), 0] for _ in range(2)]
    return {"mode": mode, "variable": setting[0], "hidden": setting[1], "script": script}


def plan(rng, prop, tier, index):
    if rng.random() < 0.12:
        mode = rng.choice(["numba", "numpy", "numpy"])
        return walk(rng, mode, [rng.choice(["TRUE", None]), False] if mode == "numba" else rng.choice(NUMPY_SETTINGS))
    pick = rng.random()
    mode = "numba" if pick < 0.08 else "numpy"
    if mode == "numba" and pick > (0.01 if tier == "quick" else 0.02):
        script = []
        for _ in range(rng.choice([1, 3, 6])):
            one = light(rng)
            if rng.random() < 0.2:
                script.append([threads(rng, mode, True), 0])
            if rng.random() < 0.7:
                broken = fault(rng)
                if broken["kind"] == "line":
                    broken["at"] = rng.randrange(1, rng.choice([25, 60, 200]))
                script.append([one + [broken], rng.choice([0, 0, 1, 2])])
            script.append([one, 0])
        return {"mode": mode, "variable": rng.choice(["TRUE", None]), "hidden": False, "script": script}
    setting = [rng.choice(["TRUE", None]), False] if mode == "numba" else rng.choice(NUMPY_SETTINGS)
    rate = rng.choice([0.1, 0.5, 0.8])
    script = []
    for _ in range(rng.choice([1, 3, 6, 12]) if mode == "numpy" else rng.choice([1, 3])):
        if mode == "numpy" and rng.random() < 0.15:
            script.append([threads(rng, mode), 0])
        one = item(rng, mode)
        later = rng.choice([0, 0, 1, 2])  # tried again at once, after the next, or at the end
        if one[0] != "forget":
            while rng.random() < rate:
                broken, target = fault(rng), one
                if broken["kind"] == "res" and rng.random() < 0.6:
                    if rng.random() < 0.5 and mode == "numpy":
                        script.append([["forget"], 0])
                    target = rng.choice([["names"], ["tables"], ["encounter"], ["import", PACKAGE + rng.choice(
                        [".data", ".data.personal", ".data.encounter", ".gen3.state"])]])
                script.append([target + [broken], later])
                if rng.random() < 0.5:
                    break
        script.append([one, 0])
    for _ in range(rng.choice([1, 2, 3])):
        script.append([probe(rng, mode), 0])
    return {"mode": mode, "variable": setting[0], "hidden": setting[1], "script": script}


def lists(plan):
    return [["script"]]


def simplify(plan):
    for i, (one, later) in enumerate(plan["script"]):
        candidate = json.loads(json.dumps(plan))
        if later:
            candidate["script"][i][1] = 0
            yield candidate
        elif one[0] == "gen" and len(one[2]) > 1 and one[1]["k"] != "sha1":
            candidate["script"][i][0][2] = one[2][:len(one[2]) // 2]
            yield candidate
        elif one[0] == "threads":
            for part in (1, 2, 3):
                for k in range(len(one[part])):
                    if part == 1 and not one[1][k]:
                        continue
                    candidate = json.loads(json.dumps(plan))
                    entry = candidate["script"][i][0]
                    if part == 1:
                        entry[1][k].pop()
                    else:
                        del entry[part][k]
                    yield candidate
        elif one[0] == "util" and len(one[1]) > 1:
            candidate["script"][i][0][1] = one[1][:len(one[1]) // 2]
            yield candidate


# ------------------------------------------------------------------ reference
def rotate(value, count, bits):
    return (value << count | value >> bits - count) & (1 << bits) - 1


def util(name, *args):
    if name == "change_endian_u32":
        return int.from_bytes(args[0].to_bytes(4, "little"), "big")
    if name == "hex_32":
        return "%08X" % args[0]
    if name.startswith("rotate"):
        bits = int(name[-2:])
        return rotate(args[0], args[1] if "left" in name else bits - args[1], bits)
    # attack, defense, speed, special attack, special defense; raised by its row, lowered by its column
    stat, nature, index = args
    order = (0, 1, 4, 2, 3)
    percent = 100 + 10 * (order[nature // 5] == index - 1) - 10 * (order[nature % 5] == index - 1)
    return stat * percent // 100


def fnv(text):
    one = other = 0xCBF29CE484222645
    for char in text:
        one = one * 0x100000001B3 & models.M64 ^ ord(char)
        other = (other ^ ord(char)) * 0x100000001B3 & models.M64
    return [one, other]


def want(one):
    """What the item must give, or None"""
    name = one[0]
    if name == "gen":
        model = models.create(one[1])
        return [model.apply(op) for op in one[2]]
    if name in ("names", "tables", "encounter"):
        return expected()[name]
    if name == "search":
        return gm.Search(one[1], one[2], gen3.tables()).run(*one[3:7])
    if name == "util":
        return [util(*call) for call in one[1]]
    if name == "fnv":
        return [fnv(text) for text in one[1]]
    if name == "inverse":
        return [pow(value, -1, modulus) for value, modulus in one[1]]
    if name == "offers":
        return []
    return None


QUIET = ("slides", "slide", "move")


def agrees(one, wanted, got):
    if one[0] == "gen":
        return len(got) == len(wanted) and all(
            w is None or op[0] in QUIET or models.same(w, g) for op, w, g in zip(one[2], wanted, got))
    if one[0] == "search":
        return [list(w) for w in wanted] == got
    return wanted == got


# ------------------------------------------------------------------ execution
def execute(plan, env, history):
    mode = plan["mode"]
    where = "NPP_USE_NUMBA %s, numba %s" % (
        "not set" if plan["variable"] is None else "= %r" % plan["variable"],
        "missing" if plan["hidden"] else "installed")
    node = env.spawn(mode, {"cpu": 200})
    node.send({"variable": plan["variable"], "hidden": plan["hidden"]})
    if plan["hidden"]:
        history.fault("numba missing")
    wanted = plan["variable"] in (None, "TRUE")
    compiled = wanted and not plan["hidden"]
    warned = 0
    delayed = []  # [items to go before, item]
    past = []

    def run_threads(one):
        """Whether the imports did not get into each other's way"""
        nonlocal warned
        (result,) = node.call([one])
        failure, outcome, _, _, texts, heard = result
        warned += len(texts)
        if texts and not (wanted and plan["hidden"]):
            raise Violation("warning", "%s: %r logs %r" % (where, one[1], texts))
        if failure:
            raise control.HarnessError("%s\n%s" % (failure[0], failure[1]))
        if outcome["stuck"]:
            raise Violation("no progress", "%s: threads wait forever\n%s" % (where, outcome["stuck"]))
        history.event("threads", outcome["results"], outcome["switches"], outcome["fired"], outcome["deadlocks"])
        history.marks.add("threads " + encounters.fingerprint(outcome["switches"]))
        history.probe("hand-overs between threads", len(outcome["switches"]))
        for entry in outcome["fired"]:
            history.fault("thread: " + entry[1])
        # CPython's import system has two weaknesses of its own: it may find a circular wait between
        # a package and its modules (and says so), and a thread that waited for an import that
        # failed in another thread may get the incomplete module
        clean = not outcome["deadlocks"] and not outcome["fired"]
        if outcome["deadlocks"]:
            history.probe("circular waits of imports, found by the import system")
        cuts = [entry[0] for entry in outcome["fired"]]
        for number, (program, results) in enumerate(zip(one[1], outcome["results"])):
            for item, result in zip(program, results):
                if result[0] == "cut":
                    if number not in cuts:
                        raise Violation("cut", "%s: thread %d of %r: %r" % (where, number, one[1], result))
                    cuts.remove(number)
                    continue
                if result[0] == "harness":
                    raise control.HarnessError(result[1])
                if not clean:
                    continue
                if result[0] == "error":
                    raise Violation("failed:threads", "%s: after %r\nthread %d of %r: %r raises %s\n%s" % (
                        where, past, number, one[1], item, result[1], result[2]))
                aim = want(item)
                if aim is not None and not agrees(item, aim, result[1]):
                    raise Violation("wrong:threads", "%s: after %r\nthread %d of %r: %r gives\n%.3000r instead of\n%.3000r" % (
                        where, past, number, one[1], item, result[1], aim))
                history.probe("results of threads checked: " + item[0])
        past.append(["threads", one[1]])
        return clean

    def run(one):
        nonlocal warned
        (result,) = node.call([one])
        failure, value, fired, excused, texts, heard = result
        past.append(one[0] if one[0] in ("gen", "search", "util", "fnv") else one)
        history.event(one, failure and failure[0], value if one[0] != "offers" else None, fired)
        history.marks.add(encounters.fingerprint([plan["variable"], plan["hidden"], past[-3:], fired]))
        injected = next((part for part in one if is_fault(part)), None)
        if fired:
            what = injected["kind"]
            history.fault({"line": "interrupt at a line: " + injected.get("what", ""),
                           "source": "error reading a source file",
                           "res": "resource: " + injected.get("do", [""])[0]}[what])
        warned += len(texts)
        if texts and not (wanted and plan["hidden"]):
            raise Violation("warning", "%s: %r logs %r" % (where, one, texts))
        if heard:
            raise Violation("numeric warning", "%s: %r warns %r" % (where, one, heard[:3]))
        if failure:
            if not excused:
                raise Violation("failed:" + one[0], "%s: after %r\n%r raises %s\n%s" % (
                    where, past[:-1], one, failure[0], failure[1]))
            history.probe("failed with an error")
            return False
        aim = want(one)
        if aim is not None:
            if not agrees(one, aim, value):
                if isinstance(aim, dict):
                    value = sorted(k for k in {*aim, *value} if aim.get(k) != value.get(k))
                    aim = "(these sections as in the files)"
                raise Violation("wrong:" + one[0], "%s: after %r\n%r gives\n%r instead of\n%r" % (
                    where, past[:-1], one, value, aim))
            history.probe("results checked: " + one[0])
        elif one[0] in ("import", "star", "from"):
            history.probe("imports")
        return True

    def settle(count):
        for entry in list(delayed):
            if entry[0] <= count:
                delayed.remove(entry)
                if not run(entry[1]):
                    raise control.HarnessError("a fault fired without a fault")
                history.probe("tried again later")

    for number, (one, later) in enumerate(plan["script"]):
        if one[0] == "threads":
            if not run_threads(one):
                run(["forget"])
                delayed.clear()
        elif run(one):
            if one[0] == "forget":
                delayed.clear()
        else:
            again = [part for part in one if not is_fault(part)]
            if later == 0:
                run(again)
                history.probe("tried again at once")
            else:
                delayed.append([number + 1 if later == 1 else 10**9, again])
        settle(number)
    settle(10**9)
    run(["mode"])
    run(["offers"])
    if wanted and plan["hidden"] and not warned:
        raise Violation("warning", "%s: nothing was logged" % where)
    (result,) = node.call([["mode"]])
    flags = result[1]
    if flags != [compiled] * 3 + ([True] if compiled else [False]):
        raise Violation("mode", "%s: USE_NUMBA, compiled functions, compiled classes, numba imported: %r" % (where, flags))
    history.probe("modes checked: " + ("compiled" if compiled else "not compiled"))
    node.end(kill=True)
