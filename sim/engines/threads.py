"""Threads of one process: own objects, shared read-only objects, interrupts,
re-entrant uses.  T01, T02, R01, T04.

The plan says which thread runs for how many bytecode instructions (or lines) of the package,
and where threads die or get an asynchronous exception.
"""

import json
import struct
from fractions import Fraction

import control
import gen3model as gm
import models
import opgen
from control import Violation
from engines import gen3

NODE = "threads"
REAL = ["every class and function of the package the threads use, executed by real threads",
        "node processes"]
STUB = ["the thread scheduler: a baton passed at instrumented instructions (between calls in "
        "compiled mode)", "the source of asynchronous exceptions"]
GENERATORS = ["lcrng", "mt", "sfmt", "tiny", "xs", "xo"]
FAULTS = ["interrupt", "memory", "timeout"]


def modes(prop):
    return ["numpy"] if prop in ("R01", "T04") else ["numpy", "numba"]


def params(prop):
    area = dict(gen3.real_areas()[4][3][1], rock_rate=255)
    area["rock"] = [(5, 9, 74)] * 5
    warm = [{"k": "lcrng", "cls": c, "args": [1]} for c in opgen.LC32 + opgen.LC64]
    if prop != "T02":
        warm += [{"k": kind, "args": [1]} for kind in ("mt", "sfmt", "tiny")]
        warm += [{"k": "xs", "args": [1, 2, 3, 4]}]
        warm += [{"k": "xo", "cls": c, "args": [1]} for c in opgen.XO]
        warm += [{"k": "sha1", "args": [1 << 12, 0, 0, 1, 0, 1, 1]}]
        for base, fn, size in opgen.LIST_POOL[:4]:
            warm.append({"k": "list", "rng": dict(base, args=[1]), "fn": fn, "size": size})
    warm2 = [[{"k": "wild", "config": [1, encounter, lead, 4, 1, 2], "area": area},
              ["search", 5, 1, 2, 3]] for encounter, lead in ((0, 255), (3, 0), (0, 28))]
    warm2.append([{"k": "info", "game": 4}, ["info3", 5]])
    warm2.append([{"k": "la", "table": 1, "slots": [[1, [1.0] * 4, [1.0] * 9]]}, ["slot", 5, 1, 1]])
    return {"warm": warm, "warm2": warm2}


# ------------------------------------------------------------------ read-only objects
def f32(value):
    return struct.unpack("<f", struct.pack("<f", value))[0]


class WildModel:
    def __init__(self, spec):
        self.search = gm.Search(spec["config"], spec["area"], gen3.tables())

    def apply(self, op):
        # threads do not look at the text shown for an encounter
        return [state[:-1] for state in self.search.run(*op[1:])]


class InfoModel:
    def __init__(self, spec):
        self.table = gen3.tables()[spec["game"]]

    def apply(self, op):
        info = self.table[op[1]]
        return [*info["base"], *info["types"], info["ratio"], *info["abilities"]]


class LaModel:
    def __init__(self, spec):
        self.slots = spec["slots"]

    def apply(self, op):
        _, rand, time, weather = op
        weights = [base * Fraction(times[time]) * Fraction(weathers[weather])
                   for base, times, weathers in self.slots]
        total = sum(weights)
        scaled = Fraction(rand, 1 << 24) * total
        limit = 0
        for number, weight in enumerate(weights):
            limit += weight
            if total and abs(scaled - limit) < total * Fraction(3, 10**6):
                return None  # too close to call: compiled code computes in single precision
            if scaled < limit:
                return number + 1
        return len(weights)


def create(spec):
    kind = {"wild": WildModel, "info": InfoModel, "la": LaModel}.get(spec["k"])
    return kind(spec) if kind else models.create(spec)


def wild_spec(rng):
    while True:
        game = rng.choice([1, 2, 4, 4, 4, 8, 16])
        area = rng.choice(gen3.real_areas()[game])[1] if rng.random() < 0.6 else gen3.made_up(rng, game)
        kinds = gen3.available(area)
        if kinds:
            break
    tid = rng.randrange(65536)
    config = [rng.choice(gm.METHODS), rng.choice(kinds), rng.choice(gen3.LEADS + [3, 12]), game, tid,
              rng.choice([0, tid, rng.randrange(65536)])]
    return {"k": "wild", "config": config, "area": area}


def info_spec(rng):
    return {"k": "info", "game": rng.choice([1, 2, 4, 8, 16])}


def la_spec(rng):
    values = [0.0, 0.5, 1.0, 1.5, 2.0, 0.1, 3.25]
    slots = []
    for _ in range(rng.choice([1, 2, 5, 9, 20])):
        slots.append([rng.choice([0, 1, 50, rng.randrange(1, 1000), rng.getrandbits(32)]),
                      [f32(rng.choice(values)) for _ in range(4)],
                      [f32(rng.choice(values)) for _ in range(9)]])
    return {"k": "la", "table": rng.getrandbits(64), "slots": slots}


class ReadSource:
    def __init__(self, rng, spec):
        self.rng, self.spec = rng, spec

    def op(self):
        rng, kind = self.rng, self.spec["k"]
        if kind == "wild":
            return ["search", opgen.word(rng, 32), rng.choice([0, 0, rng.randrange(5000)]),
                    rng.choice([0, rng.randrange(100000)]), rng.choice([0, 1, 1, 2, 4])]
        if kind == "info":
            return [rng.choice(["info3", "info3", "info"]), rng.randrange(1, 387)]
        return ["slot", rng.choice([0, (1 << 24) - 1, rng.getrandbits(24)]), rng.randrange(4), rng.randrange(9)]


# ------------------------------------------------------------------ plan
def logarithmic(rng, top):
    return int(2 ** rng.uniform(0, top.bit_length()))


def schedule(rng, count, mode):
    style = rng.choice(["fine", "mixed", "mixed", "few", "lockstep", "bursts"])
    if mode == "numba":
        return [[rng.randrange(count), rng.choice([1, 1, 2, 5])] for _ in range(rng.choice([5, 40, 100]))]
    if style == "fine":
        return [[rng.randrange(count), rng.randrange(1, 30)] for _ in range(rng.choice([50, 400]))]
    if style == "mixed":
        return [[rng.randrange(count), logarithmic(rng, 20000)] for _ in range(rng.choice([10, 40, 120]))]
    if style == "few":
        return [[rng.randrange(count), logarithmic(rng, 100000)] for _ in range(rng.choice([2, 3, 4]))]
    if style == "lockstep":
        step = rng.choice([1, 1, 3, 17, 100])
        return [[i % count, step] for i in range(rng.choice([100, 600]))]
    found = []
    while len(found) < 150:  # one thread alone for long, then a tight fight
        found.append([rng.randrange(count), logarithmic(rng, 50000)])
        found += [[rng.randrange(count), rng.randrange(1, 12)] for _ in range(rng.randrange(30))]
    return found


def own_spec(rng, mode, kind):
    if kind == "list":
        if mode == "numba":
            base, fn, size = rng.choice(opgen.LIST_POOL[:4])
            base = dict(base)
            base["args"] = opgen.seed_args(rng, base)
            return {"k": "list", "rng": base, "fn": fn, "size": size}
        spec = opgen.list_spec(rng, mode)
        spec["size"] = min(spec["size"], 64)
        return spec
    if kind == "sha1":
        return opgen.sha1_spec(rng)
    if kind == "wild":
        return wild_spec(rng)
    return opgen.generator_spec(rng, [kind])


def source(rng, spec, mode):
    if spec["k"] in ("wild", "info", "la"):
        return ReadSource(rng, spec)
    return opgen.Source(rng, spec, mode, 30 if spec["k"] in ("mt", "sfmt", "tiny") else 100)


def configure(rng, spec):
    """Operations that bring an object into a known state, whatever state it is in"""
    kind = spec["k"]
    if kind == "list":
        return [["rng", ["re_init"] + opgen.seed_args(rng, spec["rng"])], ["re_init"]]
    if kind == "sha1":
        ops = [
            ["button", opgen.word(rng, 32)],
            ["date", 2000 + rng.randrange(100), rng.randrange(1, 13), rng.randrange(1, 32), rng.randrange(7)],
            ["timer", opgen.word(rng, 16), rng.randrange(256)],
            ["time", rng.randrange(24), rng.randrange(60), rng.randrange(60)],
        ]
        rng.shuffle(ops)
        return ops + [["pre"]]
    return [["re_init"] + opgen.seed_args(rng, spec)]


TWISTERS = {"mt": 640, "sfmt": 330, "tiny": 8}


def race(rng):
    """T01: all threads do the same for the first time at the same time"""
    count = rng.choice([2, 2, 3])
    kind = rng.choice(["lcrng", "lcrng"] + GENERATORS + ["list", "sha1", "wild"])
    objects, threads, sources = [], [[] for _ in range(count)], []
    first = own_spec(rng, "numpy", kind)
    for t in range(count):
        spec = json.loads(json.dumps(first))
        if kind == "list":
            spec["rng"]["args"] = opgen.seed_args(rng, spec["rng"])
        elif kind == "sha1":
            spec = opgen.sha1_spec(rng)
        elif kind == "wild":
            spec = spec if rng.random() < 0.5 else wild_spec(rng)
        else:
            spec["args"] = opgen.seed_args(rng, spec)
        objects.append(spec)
        sources.append(source(rng, spec, "numpy"))
        threads[t].append(["make", t])
        if kind == "sha1":
            threads[t].append(["recover", t, configure(rng, spec)])
    for _ in range(rng.choice([1, 2, 4])):
        model = sources[0].op()
        for t in range(count):
            op = model
            if t and rng.random() < 0.6:
                for _ in range(30):
                    op = sources[t].op()
                    if op[0] == model[0]:
                        break
            threads[t].append(["op", t, op])
    if kind in TWISTERS:
        for t in range(count):  # whatever is wrong in its state comes out
            threads[t].append(["op", t, ["drain", TWISTERS[kind]]])
    long = first.get("rng", first)["k"] in ("mt", "sfmt", "sha1", "wild") and rng.random() < 0.7
    step = rng.choice([1, 1, 2, 3, 5, 8, 13, 30] if not long else [30, 50, 100, 200, 400])
    segments = [[rng.randrange(count), logarithmic(rng, 30000 if long else 600)]] if rng.random() < 0.5 else []
    segments += [[i % count, step if rng.random() < 0.8 else rng.randrange(1, 2 * step + 40)]
                 for i in range(rng.choice([200, 800]))]
    return {"inside": rng.random() < 0.5, "mode": "numpy", "style": rng.choice(["np", "int"]),
            "objects": objects, "shared": [], "threads": threads, "faults": [], "segments": segments,
            "granularity": "instr" if rng.random() < 0.8 else "line"}


def guest(rng, spec):
    """Another object of the same class with other contents"""
    spec = json.loads(json.dumps(spec))
    if spec["k"] == "list":
        spec["rng"]["args"] = opgen.seed_args(rng, spec["rng"])
    elif spec["k"] == "sha1":
        spec = opgen.sha1_spec(rng)
    elif spec["k"] == "la":
        spec = la_spec(rng)
    elif spec["k"] == "wild":
        other = wild_spec(rng)
        if rng.random() < 0.5:  # the same search of another area
            spec["area"] = other["area"]
            if spec["config"][1] not in gen3.available(other["area"]) or spec["config"][3] != other["config"][3]:
                spec = other
        else:
            spec = other
    elif spec["k"] in GENERATORS:
        spec["args"] = opgen.seed_args(rng, spec)
    return spec


def visited(rng, tier):
    """T04: operations, and others of the same thread in the middle of them"""
    count = rng.choice([1, 1, 1, 2])
    kinds = GENERATORS + ["lcrng", "list", "list", "sha1", "sha1", "wild", "wild", "info", "la", "la"]
    objects, threads, shared, visitors, visits = [], [], [], [], []
    deep = 2 if tier == "thorough" and rng.random() < 0.2 else 1

    def spec_of(kind):
        return info_spec(rng) if kind == "info" else la_spec(rng) if kind == "la" else own_spec(rng, "numpy", kind)

    def program_of(number, length):
        spec, items = objects[number], []
        feed = source(rng, spec, "numpy")
        if number not in shared:
            items.append(["make", number])
            if spec["k"] == "sha1":
                items.append(["recover", number, configure(rng, spec)])
        items += [["op", number, feed.op()] for _ in range(length)]
        if spec["k"] in ("mt", "sfmt"):
            for item in items[1:]:
                if rng.random() < 0.4:  # a refill
                    item[2] = ["advance", TWISTERS[spec["k"]] - rng.randrange(12)]
        return feed, items

    for t in range(count):
        spec = spec_of(rng.choice(kinds))
        objects.append(spec)
        number = len(objects) - 1
        if spec["k"] in ("wild", "info", "la") and rng.random() < 0.7:
            shared.append(number)
        feed, program = program_of(number, rng.choice([1, 2, 4, 8]) * deep)
        first = len(visitors)
        for _ in range(rng.choice([1, 1, 2, 3])):
            if number in shared and rng.random() < 0.6:
                mine = number  # reads the same object
            else:
                objects.append(guest(rng, spec) if rng.random() < 0.75 else spec_of(rng.choice(kinds)))
                mine = len(objects) - 1
            feed2, items = program_of(mine, rng.choice([1, 2, 4, 10]) * deep)
            if objects[mine]["k"] == spec["k"] and rng.random() < 0.4:
                # does what the others do, in their order
                for i, item in enumerate(x for x in program if x[0] == "op"):
                    at = [j for j, x in enumerate(items) if x[0] == "op"]
                    if i < len(at):
                        for _ in range(30):
                            op = feed2.op()
                            if op[0] == item[2][0]:
                                items[at[i]][2] = op
                                break
            if objects[mine]["k"] in TWISTERS and rng.random() < 0.5:
                items.append(["op", mine, ["drain", TWISTERS[objects[mine]["k"]]]])
            visitors.append({"items": items, "chunk": rng.choice([1, 2, 3, len(items)])})
        if spec["k"] in TWISTERS and rng.random() < 0.5:
            program.append(["op", number, ["drain", TWISTERS[spec["k"]]]])
        top = {"mt": 60000, "sfmt": 60000, "list": 3000, "sha1": 6000, "wild": 6000, "la": 600}.get(spec["k"], 300)
        at = 0
        while at < len(program):
            if rng.random() < 0.6:
                then = None
                for _ in range(rng.choice([1, 1, 2, 3] + [6] * (top > 10000))):
                    when = rng.randrange(1, 60) if rng.random() < 0.3 else logarithmic(rng, top)
                    if top > 10000 and rng.random() < 0.5:
                        when = rng.randrange(1, 20000)
                    visits.append([t, at, when, rng.randrange(first, len(visitors)), None])
                if rng.random() < 0.12 and program[at][0] == "op":
                    visits[-1][4] = then = rng.choice(FAULTS)
                if then and spec["k"] not in ("wild", "info", "la"):
                    program.insert(at + 1, ["recover", number, configure(rng, spec)])
                    at += 1
            at += 1
        threads.append(program)
    return {"inside": rng.random() < 0.6, "mode": "numpy", "style": rng.choice(["np", "int"]), "objects": objects,
            "shared": shared, "threads": threads, "faults": [], "visits": visits, "visitors": visitors,
            "segments": schedule(rng, count, "numpy") if count > 1 else [],
            "granularity": "instr" if rng.random() < 0.8 else "line"}


def plan(rng, prop, tier, index):
    if prop == "T04":
        return visited(rng, tier)
    if prop == "T01" and rng.random() < 0.25:
        return race(rng)
    mode = "numba" if prop != "R01" and rng.random() < 0.2 else "numpy"
    deep = tier == "thorough" and rng.random() < 0.2
    style = "np" if mode == "numba" or rng.random() < 0.5 else "int"
    count = rng.choice([1, 2, 2, 3] if prop == "R01" else [2, 2, 3, 4])
    objects, threads, faults, shared = [], [], [], []
    kinds = GENERATORS + ["list", "list", "sha1", "wild"]
    theme = rng.choice(kinds)
    consts = None
    if prop == "T02":
        specs = [wild_spec(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
        specs += [info_spec(rng) for _ in range(rng.choice([0, 0, 1]))]
        specs += [la_spec(rng) for _ in range(rng.choice([0, 1]))]
        shared = list(range(len(specs)))
        objects += specs
        if not specs or rng.random() < 0.5:
            cls = rng.choice(opgen.LC32 + opgen.LC64)
            consts = {"cls": cls}
    base_ops = rng.choice([2, 4, 8, 15]) * (3 if deep else 1)
    steady = None
    for t in range(count):
        program, mine = [], list(shared)
        if prop == "T02":
            if consts:
                spec = {"k": "lcrng", "cls": consts["cls"]}
                spec["args"] = opgen.seed_args(rng, spec)
                objects.append(spec)
                mine.append(len(objects) - 1)
        else:
            for _ in range(rng.choice([1, 1, 2])):
                kind = theme if rng.random() < 0.7 else rng.choice(kinds)
                if kind == theme and objects and rng.random() < 0.6 and steady is not None and \
                        objects[steady]["k"] == theme:
                    spec = json.loads(json.dumps(objects[steady]))  # the same class as the other thread's
                    if theme == "list":
                        spec["rng"]["args"] = opgen.seed_args(rng, spec["rng"])
                    elif theme not in ("sha1", "wild"):
                        spec["args"] = opgen.seed_args(rng, spec)
                    elif theme == "sha1":
                        spec = opgen.sha1_spec(rng)
                else:
                    spec = own_spec(rng, mode, kind)
                objects.append(spec)
                mine.append(len(objects) - 1)
                if spec["k"] == theme:
                    steady = len(objects) - 1
        sources = {}
        for number in mine:
            spec = objects[number]
            sources[number] = source(rng, spec, mode)
            if consts and spec["k"] == "lcrng":
                if "values" not in consts:
                    consts["values"] = sources[number].consts
                sources[number].consts = consts["values"]
                sources[number].mix = {"cjump": 6, "crand": 6}
            if number in shared:
                continue
            program.append(["make", number])
            if prop == "R01" and rng.random() < 0.3:
                faults.append([t, len(program) - 1, logarithmic(rng, 60000), rng.choice(FAULTS)])
                program.append(["make", number])
            if spec["k"] == "sha1":
                program.append(["recover", number, configure(rng, spec)])
            if prop == "R01" and spec["k"] in GENERATORS and rng.random() < 0.5:
                program.append(["save", number])
        while len(program) < base_ops + 2 * len(mine):
            number = rng.choice(mine)
            spec = objects[number]
            op = sources[number].op()
            if mode == "numba" and op[0] in ("cjump", "crand") and prop != "T02":
                continue
            program.append(["op", number, op])
            if prop != "R01":
                continue
            if rng.random() < 0.5:
                top = {"mt": 60000, "sfmt": 60000, "list": 3000, "sha1": 6000, "wild": 6000}.get(spec["k"], 300)
                faults.append([t, len(program) - 1, logarithmic(rng, top), rng.choice(FAULTS)])
                if spec["k"] == "wild":
                    program.append(["op", number, op])  # read only: a retry is enough
                elif spec["k"] == "sha1" and rng.random() < 0.5:
                    if rng.random() < 0.2:
                        program.append(["retry", number, op])
                        faults.append([t, len(program) - 1, logarithmic(rng, top), rng.choice(FAULTS)])
                    program.append(["retry", number, op])
                else:
                    recovery = configure(rng, spec)
                    if op[0] == "re_init" and spec["k"] in GENERATORS and rng.random() < 0.5:
                        recovery = [op]  # the same once more
                    if rng.random() < 0.35:
                        program.append(["recover", number, recovery])
                        at = logarithmic(rng, top) if rng.random() < 0.5 else rng.randrange(1, top // 3)
                        faults.append([t, len(program) - 1, at, rng.choice(FAULTS)])
                        if rng.random() < 0.4:
                            recovery = configure(rng, spec)
                    if spec["k"] in GENERATORS and rng.random() < 0.3:
                        program.append(["restore", number])
                    else:
                        program.append(["recover", number, recovery])
            elif spec["k"] in GENERATORS and rng.random() < 0.1:
                program.append(["save", number])
        for number in mine:
            if objects[number]["k"] in TWISTERS and rng.random() < 0.5:
                program.append(["op", number, ["drain", TWISTERS[objects[number]["k"]]]])
        threads.append(program)
    if prop != "R01" and rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            t = rng.randrange(count)
            faults.append([t, rng.randrange(len(threads[t])), logarithmic(rng, 20000),
                           rng.choice(["die", "die"] + FAULTS)])
    if prop == "R01" and count > 1 and rng.random() < 0.4:
        # a thread dies; another one takes its objects over
        t = rng.randrange(count - 1)
        at = rng.randrange(len(threads[t]))
        faults = [f for f in faults if f[:2] != [t, at]]
        faults.append([t, at, logarithmic(rng, 6000), "die"])
        taken = sorted({item[1] for item in threads[t]})
        threads[-1].append(["wait", t])
        for number in taken:
            if objects[number]["k"] != "wild":
                threads[-1].append(["recover", number, configure(rng, objects[number])])
            taker = source(rng, objects[number], mode)
            for _ in range(rng.choice([2, 5])):
                threads[-1].append(["op", number, taker.op()])
    return {"inside": mode == "numpy" and rng.random() < 0.5, "mode": mode, "style": style, "objects": objects, "shared": shared, "threads": threads,
            "faults": faults, "segments": schedule(rng, count, mode),
            "granularity": "instr" if rng.random() < 0.8 else "line"}


def lists(plan):
    return [["segments"], ["faults"]] + ([["visits"]] if "visits" in plan else [])


def simplify(plan):
    def copy():
        return json.loads(json.dumps(plan))

    for t, program in enumerate(plan["threads"]):
        if program:
            candidate = copy()
            candidate["threads"][t] = []
            candidate["faults"] = [f for f in candidate["faults"] if f[0] != t]
            if "visits" in candidate:
                candidate["visits"] = [f for f in candidate["visits"] if f[0] != t]
            yield candidate
    for v, visitor in enumerate(plan.get("visitors", ())):
        for at in range(len(visitor["items"])):
            candidate = copy()
            del candidate["visitors"][v]["items"][at]
            yield candidate
        if visitor["chunk"] < len(visitor["items"]):
            candidate = copy()
            candidate["visitors"][v]["chunk"] = len(visitor["items"])
            yield candidate
    for t, program in enumerate(plan["threads"]):
        for size in (8, 4, 2, 1):
            for at in range(0, len(program), size):
                candidate = copy()
                del candidate["threads"][t][at:at + size]
                for name in ("faults", "visits"):
                    kept = []
                    for f in candidate.get(name, ()):
                        if f[0] == t and f[1] >= at:
                            if f[1] < at + size:
                                continue
                            f[1] -= size
                        kept.append(f)
                    if name in candidate:
                        candidate[name] = kept
                yield candidate
    for i, (_, length) in enumerate(plan["segments"]):
        for smaller in (1, length // 2, length - 1):
            if 0 < smaller < length:
                candidate = copy()
                candidate["segments"][i][1] = smaller
                yield candidate


# ------------------------------------------------------------------ execution and oracle
def execute(plan, env, history):
    node = env.spawn(plan["mode"], {"cpu": 60})
    outcome = node.call({key: plan[key] for key in (
        "style", "objects", "shared", "threads", "faults", "segments", "granularity", "inside",
        "visits", "visitors") if key in plan})
    node.end(kill=True)
    if "failed" in outcome:
        raise Violation("raised:prepare", "%s: %s" % tuple(outcome["failed"]))
    for switch in outcome["switches"]:
        history.event("switch", *switch)
        if switch[2]:
            history.marks.add(switch[2])
    for fired in outcome["fired"]:
        history.event("fault", *fired)
        history.fault({"die": "thread death", "interrupt": "KeyboardInterrupt",
                       "memory": "MemoryError", "timeout": "timeout exception",
                       "visit": "re-entrant use in the middle of an operation"}[fired[1]])
        history.marks.add("%s at %s:%s" % (fired[1], fired[2], fired[3]))
    history.fault("preemption inside an operation", sum(1 for s in outcome["switches"] if s[2]))
    history.probe("instrumented events", outcome["events"])
    history.time += outcome["events"]
    things = {number: create(plan["objects"][number]) for number in plan["shared"]}
    dirty, saved = set(), {}
    # threads in the order in which their work on an object happens
    order = sorted(range(len(plan["threads"])), key=lambda t: any(i[0] == "wait" for i in plan["threads"][t]))
    for t in order:
        program, results = plan["threads"][t], outcome["results"][t]
        for index, result in enumerate(results):
            if result[0] == "harness":
                raise control.HarnessError("thread %d: %s" % (t, result[1]))
            item = program[index]
            check(plan, t, index, item, result, things, dirty, saved, history)
        if len(results) < len(program) and (not results or results[-1] != ["cut", "die"]):
            raise control.HarnessError("thread %d stopped" % t)
    for v, results in enumerate(outcome["visited"]):
        for index, result in enumerate(results):
            check(plan, "visitor %d" % v, index, plan["visitors"][v]["items"][index], result, things, dirty, saved,
                  history)
    if outcome["before"] != outcome["after"]:
        changed = [plan["objects"][number]["k"] for number, a, b in
                   zip(plan["shared"], outcome["before"], outcome["after"]) if a != b]
        raise Violation("changed", "shared objects changed by their use: %r" % changed)


def check(plan, t, index, item, result, things, dirty, saved, history):
    status, value = result[0], result[1]
    what, number = item[0], item[1]
    if what == "wait":
        return
    spec = plan["objects"][number]
    history.event(t, index, what, number, status, value)
    if status == "error":
        raise Violation("raised:%s:%s" % (value, spec["k"]), "thread %s item %d %r of %s in %s mode: %s"
                        % (t, index, short(item), name(spec), plan["mode"], result[2]))
    if value == "skipped" and status == "ok":
        history.probe("items skipped on a cut-short object")
        return
    read_only = spec["k"] in ("wild", "info", "la")
    if status == "cut":
        if what == "make":
            things.pop(number, None)
        elif not read_only:
            dirty.add(number)
        return
    if what == "make":
        things[number] = create(spec)
        dirty.discard(number)
        return
    model = things[number]
    if what == "recover":
        for op in item[2]:
            model.apply(op)
        dirty.discard(number)
        history.probe("objects brought into a known state")
        return
    if what == "save":
        saved[number] = models.clone(model)
        return
    if what == "restore":
        things[number] = models.clone(saved[number])
        dirty.discard(number)
        history.probe("states restored")
        return
    op = item[2]
    if what == "retry":
        dirty.discard(number)
        history.probe("interrupted operations repeated")
    if op[0] == "hash" and not model.ready():
        return
    expected = model.apply(op)
    history.probe("operations checked")
    if op[0] in ("slide", "slides", "move") or expected is None:
        return
    if not models.same(expected, value):
        raise Violation("mismatch:%s:%s" % (spec["k"], op[0]),
                        "thread %s item %d: %s in %s mode: %r gave %s, alone it gives %s"
                        % (t, index, name(spec), plan["mode"], op, short(value), short(expected)))


def short(value):
    text = repr(value)
    return text if len(text) < 300 else text[:300] + "..."


def name(spec):
    if spec["k"] == "wild":
        return "search %r" % (spec["config"],)
    if spec["k"] == "list":
        return "list of %s.%s[%d]" % (name(spec["rng"]), spec["fn"], spec["size"])
    return spec.get("cls", spec["k"])
