"""Histories of operations of several clients on shared objects, with crashes and restores.

H01, H02, H03, L01, S01, R02.  The scheduler decides which client acts next, when state is
saved, when the process dies, and in which execution mode its successor runs.
"""

import control
import models
import opgen

NODE = "gen"
REAL = [
    "every generator, list and hasher class of the package, its compiled code in numba mode",
    "node processes (really killed)",
]
STUB = ["the clients' durable store (a controller variable)", "the scheduler of the clients"]

KINDS = {
    "H01": ["lcrng"],
    "H02": ["mt", "sfmt", "tiny"],
    "H03": ["xs", "xo"],
    "R02": ["lcrng", "mt", "sfmt", "tiny", "xs", "xo"],
}


def modes(prop):
    return ["numba", "numpy"]


def params(prop):
    warm = []
    kinds = KINDS.get(prop, [])
    if "lcrng" in kinds:
        names = opgen.LC32 + opgen.LC64
        warm += [{"k": "lcrng", "cls": c, "args": [1]} for c in names]
    for kind in ("mt", "sfmt", "tiny"):
        if kind in kinds:
            warm.append({"k": kind, "args": [1]})
    if "xs" in kinds:
        warm.append({"k": "xs", "args": [1, 2, 3, 4]})
    if "xo" in kinds:
        warm += [{"k": "xo", "cls": c, "args": [1]} for c in opgen.XO]
    if prop == "L01":
        for base, fn, size in opgen.LIST_POOL:
            args = {"xs": [1, 2, 3, 4]}.get(base["k"], [1])
            warm.append({"k": "list", "rng": dict(base, args=args), "fn": fn, "size": size})
    if prop == "S01":
        warm.append({"k": "sha1", "args": [1 << 12, 0, 0, 1, 0, 1, 1]})
    return {"warm": warm}


# ------------------------------------------------------------------ plan
def plan(rng, prop, tier, index):
    mode = "numba" if rng.random() < 0.5 else "numpy"
    deep = tier == "thorough" and rng.random() < 0.2
    style = "np" if mode == "numba" or rng.random() < 0.5 else "int"
    objects = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if prop == "L01":
            spec = opgen.list_spec(rng, mode)
            if rng.random() < 0.004:  # beyond 16 bits; in numba mode a compilation of seconds
                spec["size"] = 1 << 17
                if spec["rng"]["k"] in ("mt", "sfmt") and mode == "numpy":
                    spec["size"] = 1 << 10
            if objects and rng.random() < 0.4:
                # a second list on the generator of the first, perhaps of other results or size
                first = objects[0][0]
                if mode == "numba":
                    spec = dict(first)
                else:
                    spec["rng"] = first["rng"]
                    spec["fn"] = opgen.function(rng, first["rng"])
                spec["share"] = 0
        elif prop == "S01":
            spec = opgen.sha1_spec(rng)
            if objects and rng.random() < 0.5:
                spec = dict(objects[0][0])  # a second hasher of the same console
        else:
            spec = opgen.generator_spec(rng, KINDS[prop])
        objects.append([spec, style])
    heavy = (20000 if mode == "numba" else 1500) * (4 if deep else 1)
    # clients: each works on a subset of the objects with its own mix of operations
    clients = []
    for _ in range(rng.choice([1, 2, 3])):
        mine = rng.sample(range(len(objects)), rng.randrange(1, len(objects) + 1))
        clients.append({o: opgen.Source(rng, objects[o][0], mode, heavy) for o in mine})
        if prop == "S01":
            for one in clients[-1].values():
                one.mix["pools"] = clients[0][min(clients[0])].mix.setdefault("pools", {})
    length = rng.choice([5, 15, 40, 80]) * (5 if deep else 1)
    crash_rate = rng.choice([0, 0, 0.02, 0.08])
    save_rate = rng.choice([0.02, 0.1])
    if prop == "R02":
        crash_rate, save_rate = rng.choice([0.03, 0.1, 0.2]), rng.choice([0.05, 0.2])
    elif prop in ("L01", "S01"):
        save_rate = 0
    both = prop == "R02" or rng.random() < 0.3
    if style == "int":
        both = False
    if prop == "L01":
        both = False
    events = []
    made_consts = 0
    while len(events) < length:
        pick = rng.random()
        if pick < crash_rate:
            mode_next = rng.choice(["numba", "numpy"]) if both else mode
            events.append(["crash", mode_next, rng.randrange(2)])
        elif pick < crash_rate + save_rate:
            events.append(["save", rng.randrange(len(objects))])
        elif prop == "R02" and pick < crash_rate + save_rate + 0.05:
            events.append(["rollback", rng.randrange(len(objects))])
        else:
            client = rng.randrange(len(clients))
            # a client does a burst before the scheduler switches
            for _ in range(rng.choice([1, 1, 2, 5])):
                target = rng.choice(sorted(clients[client]))
                op = clients[client][target].op()
                if op[0] in ("cjump", "crand") and (mode == "numba" or both):
                    made_consts += 1
                    if made_consts > 2 or rng.random() < 0.7:
                        continue  # compiling each constant takes a tenth of a second
                if op[0] == "hashk" and rng.random() < 0.5:
                    op.append(rng.randrange(len(objects)))
                events.append(["op", client, target, op])
                if prop == "L01" and rng.random() < 0.01:
                    events.append(["op", client, target, odd(rng, objects[target][0], mode)])
    if prop == "S01":
        for o in range(len(objects)):
            events[:0] = [
                ["op", 0, o, ["button", 0xFF2F0000]], ["op", 0, o, ["date", 2010, 9, 18, 6]],
                ["op", 0, o, ["timer", 0xC79, 0x60]], ["op", 0, o, ["time", 14, 30, 1]],
            ]
            events += [["op", 0, o, ["pre"]], ["op", 0, o, ["hash"]]]
    return {"mode": mode, "objects": objects, "events": events}


def odd(rng, spec, mode):
    """A list whose size is no power of two: refused, or a window of that size"""
    spec = {key: spec[key] for key in ("k", "rng", "fn")}
    spec["size"] = size = rng.choice([3, 5, 6, 7, 12, 100, 1000, rng.randrange(3, 500)])
    script = []
    for _ in range(rng.choice([4, 12])):
        script += [["get"]] * rng.choice([1, 3, size + 1 if size < 50 else 2])
        script.append(rng.choice([["slide"], ["slides", rng.randrange(2 * size)], ["move", rng.randrange(size)], ["re_init"]]))
    return ["odd", spec, script]


def lists(plan):
    return [["events"], ["objects"]]


def simplify(plan):
    import json

    for i, event in enumerate(plan["events"]):
        if event[0] == "op":
            for j, arg in enumerate(event[3]):
                if isinstance(arg, int) and arg > 1:
                    for smaller in (1, arg // 2, arg - 1):
                        copy = json.loads(json.dumps(plan))
                        copy["events"][i][3][j] = smaller
                        yield copy
    for i, (spec, style) in enumerate(plan["objects"]):
        for j, arg in enumerate(spec.get("args", [])):
            if spec["k"] not in ("sha1",) and arg > 1:
                copy = json.loads(json.dumps(plan))
                copy["objects"][i][0]["args"][j] = 1
                yield copy


# ------------------------------------------------------------------ execution and oracle
class Shared:
    """An object as the clients see it: its model, last saved state and journal"""

    def __init__(self, spec, style):
        self.spec, self.style = spec, style
        self.model = models.create(spec)
        self.saved = None  # (public state, model at that time)
        self.journal = []


def resolve(plan, number):
    """The spec of an object, sharing a generator only with an earlier list of the same one"""
    spec = plan["objects"][number][0]
    if "share" in spec:
        other = plan["objects"][spec["share"]][0] if spec["share"] < number else None
        if not other or other["k"] != "list" or other["rng"] != spec["rng"] or "share" in other:
            spec = {key: value for key, value in spec.items() if key != "share"}
    return spec


def tie(shared):
    """Lists made of one generator, in the order they are made"""
    for thing in shared:
        if "share" in thing.spec:
            first = shared[thing.spec["share"]].model
            thing.model = models.RngListModel(first.rng, thing.spec["fn"], thing.spec["size"])


def describe(spec):
    if spec["k"] == "list":
        return "list of %s.%s[%d]" % (describe(spec["rng"]), spec["fn"], spec["size"])
    return spec.get("cls", spec["k"])


def execute(plan, env, history):
    shared = [Shared(resolve(plan, number), style) for number, (_, style) in enumerate(plan["objects"])]
    if not shared:
        return
    tie(shared)
    mode = plan["mode"]
    node = env.spawn(mode)
    batch, handlers = [], []

    def push(item, handler):
        batch.append(item)
        handlers.append(handler)

    def flush():
        if not batch:
            return
        results = node.call(list(batch))
        for i, handler in enumerate(handlers[: len(results)]):
            result = results[i]
            if isinstance(result, tuple) and result and result[0] == "error":
                raise control.Violation(
                    "raised:%s:%s" % (result[1], name_of(batch[i])),
                    "%s mode, %r: %s" % (mode, batch[i], result[2]),
                )
            handler(result)
        batch.clear()
        handlers.clear()

    def name_of(item):
        return item[2][0] if item[0] == "op" else item[0]

    def issue(number, op):
        thing = shared[number]
        if op[0] == "hash" and not ready(thing.model):
            return
        if op[0] == "advance" and op[1] > 100000 and mode == "numpy":
            return  # planned for compiled code; the mode has changed since
        if op[0] == "huge":
            if mode == "numba":
                return
            expected = models.huge(thing.model, op)
        elif op[0] == "hashk" and len(op) > 2:
            if op[2] >= len(shared):
                return
            expected = thing.model.apply(op[:2], shared[op[2]].model)
        else:
            expected = thing.model.apply(op)
        history.marks.add("%s/%s/%s" % (describe(thing.spec), op[0], where(thing.model, op)))

        def handler(got):
            history.event(number, op, got)
            if op[0] == "slides" or op[0] == "slide" or op[0] == "move":
                return
            if expected is None:
                return
            if not models.same(expected, got):
                raise control.Violation(
                    "mismatch:%s:%s" % (thing.spec["k"], op[0]),
                    "%s in %s mode: %r gave %r, the reference sequence has %r"
                    % (describe(thing.spec), mode, op, got, expected),
                )

        push(["op", number, op], handler)

    def start():
        for number, thing in enumerate(shared):
            if thing.saved is not None:
                spec = dict(thing.spec, args=[(a ^ 0x5A5A5A5A) & 0xFFFFFFFF for a in thing.spec["args"]])
                push(["make", number, spec, thing.style], lambda got: None)
                push(["restore", number, thing.saved[0]], lambda got: None)
            else:
                push(["make", number, thing.spec, thing.style], lambda got: None)

    start()
    for event in plan["events"]:
        kind = event[0]
        if kind == "op":
            _, client, number, op = event
            if number >= len(shared):
                continue
            issue(number, op)
            shared[number].journal.append(op)
        elif kind == "save":
            number = event[1]
            if number >= len(shared) or shared[number].spec["k"] in ("list", "sha1"):
                continue
            thing = shared[number]
            model = models.clone(thing.model)

            def keep(got, thing=thing, model=model, number=number):
                history.event("save", number, got)
                thing.saved = (got, model)

            push(["save", number], keep)
            flush()
            thing.journal = []
        elif kind == "rollback":
            number = event[1]
            if number >= len(shared) or shared[number].saved is None:
                continue
            thing = shared[number]
            history.fault("rollback")
            thing.model = models.clone(thing.saved[1])
            push(["restore", number, thing.saved[0]], lambda got: None)
            thing.journal = []
        elif kind == "crash":
            flush()
            node.crash()
            history.fault("crash" if event[1] == mode else "crash+mode change")
            history.event("crash", event[1])
            mode = event[1]
            node = env.spawn(mode)
            for thing in shared:
                if thing.saved is not None:
                    thing.model = models.clone(thing.saved[1])
                else:
                    thing.model = models.create(thing.spec)
            tie(shared)
            start()
            redo = event[2]
            for number, thing in enumerate(shared):
                if redo:
                    history.probe("operations redone after a crash", len(thing.journal))
                    for op in thing.journal:
                        issue(number, op)
                else:
                    thing.journal = []
            if not redo and any(thing.spec["k"] == "sha1" for thing in shared):
                history.probe("hasher rebuilt unset")
    flush()
    node.end(kill=True)


def ready(model):
    return model.ready()


def where(model, op):
    """Coarse position: what the state measure counts"""
    if hasattr(model, "position"):
        return model.position()
    for arg in op[1:]:
        if isinstance(arg, int):
            return "arg2^%d" % arg.bit_length()
    return ""
