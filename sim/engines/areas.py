"""Histories of edits, choices and searches by several clients on shared encounter areas.  E01.

The scheduler decides which client acts next, when state is saved, when the process dies and in
which execution mode its successor runs.  Whatever happened before, a choice, a level and a
search must be those of the areas' present contents.
"""

import copy
import json
from fractions import Fraction

import encounters
import gen3model as gm
import opgen
from control import Violation
from engines import gen3
from engines.threads import f32

NODE = "areas"
REAL = ["encounter areas, area tables, choices, levels, searches, LCRNG and typed dictionaries of "
        "the package, its compiled code in numba mode", "node processes (really killed)"]
STUB = ["the clients' durable store (a controller variable)", "the scheduler of the clients"]
KINDS = (gm.GRASS, gm.ROCK_SMASH, gm.SURFING, gm.OLD_ROD, gm.GOOD_ROD, gm.SUPER_ROD)
RATES = ("location", "land_rate", "water_rate", "rock_rate", "fish_rate")
WORDS = {"species": 16, "base_probability": 32}


def modes(prop):
    return ["numba", "numpy"]


def params(prop):
    area = dict(gen3.real_areas()[4][3][1], rock_rate=255)
    area["rock"] = [(5, 9, 74)] * 5
    area = plain_area(area)
    la = {"table": 1, "slots": [[1, 0, 0, 1, 1, 0, 5, 0, [1.0] * 4, [1.0] * 9]]}
    return {
        "spec": {"tables": [[area]], "las": [la], "searches": [[1, 0, 27, 4, 1, 2]], "rngs": [1], "dicts": 1},
        "warm": [["search", 0, 0, 0, 5, 1, 2, 3], ["hslot", 0, 0, 0, 0], ["hlead", 0, 0, 0, 0, 27, 4],
                 ["level", 0, 0, 0, "land", 0, 1], ["safari", 0, 0, 4], ["reported", 0, 0, 0], ["read", 0, 0], ["next", 0],
                 ["state", 0, 1, 2, 3, 0, [1, 2, 3, 4, 5, 6], 0, 5, 0, 4], ["alter", 0, "ivs", 1, 2],
                 ["alter", 0, "pid", 0, 2], ["alter", 0, "species", 0, 2], ["alter", 0, "level", 0, 2],
                 ["update", 0, 4, 4], ["show", 0],
                 ["choose", 0, 5, 1, 1], ["laread", 0], ["put", 0, 5, 0], ["get", 0, 5, 5, 1, 1],
                 ["keys", 0], ["drop", 0, 5], ["lacopy", 0, 0]],
    }


def plain_area(area):
    return {name: area[name] if name in RATES else [list(slot) for slot in area[name]]
            for name in RATES + tuple(group for group, _ in encounters.GROUPS)}


# ------------------------------------------------------------------ plan
def la_slot(rng, exact):
    if exact:  # weights that single precision adds and multiplies without rounding
        values = [0.5, 1.0, 2.0, 4.0]
        base = rng.choice([0, 1, 2, 3, 4, 8, rng.randrange(64)])
    else:
        values = [0.0, 0.5, 1.0, 1.5, 2.0, 0.1, 3.25]
        base = rng.choice([0, 1, 50, rng.randrange(1, 1000), rng.getrandbits(32)])
    return [rng.randrange(65536), rng.randrange(256), rng.randrange(256), rng.randrange(256),
            rng.randrange(256), rng.randrange(4), base, rng.randrange(2),
            [f32(rng.choice(values)) for _ in range(4)], [f32(rng.choice(values)) for _ in range(9)]]


def la_slots(rng, exact):
    return [la_slot(rng, exact) for _ in range(rng.choice([1, 2, 5, 9, 20, 20] + [40, 40, 300] * exact))]


FAMILIES = [(), (), ("choose", "laslot", "lafield", "laall", "lacopy", "laread", "put", "get"),
            ("choose", "lafield"), ("state", "alter", "update", "show"),
            ("slot", "rate", "copy", "search", "hslot", "hlead", "level", "safari", "reported", "read"),
            ("rate", "slot", "search")]


class Client:
    """Generates the operations of one client"""

    def __init__(self, rng, spec):
        self.rng, self.spec = rng, spec
        self.mix = {}
        self.last = {}
        self.exact = spec["exact"]

    def pick(self, what, many):
        """Mostly the same object again"""
        if what not in self.last or self.rng.random() < 0.4:
            self.last[what] = self.rng.randrange(many)
        return self.last[what]

    def conditions(self):
        return [self.pick("time", 4), self.pick("weather", 9)]

    def area(self):
        spec = self.spec
        t = self.pick("table", len(spec["tables"]))
        return [t, self.pick("area %d" % t, len(spec["tables"][t]))]

    def op(self):
        rng, spec = self.rng, self.spec
        weights = {
            "slot": 5, "rate": 2, "copy": 1, "search": 5, "hslot": 3, "hlead": 3, "level": 3,
            "safari": 1, "reported": 1, "read": 1, "next": 1, "reseed": 0.5, "choose": 6, "laslot": 2, "lafield": 3,
            "state": 1.5, "alter": 2, "update": 1.5, "show": 1.5, "laall": 1, "lacopy": 0.5, "laread": 1, "put": 1, "get": 2, "drop": 0.3, "keys": 0.3,
        }
        names = sorted(weights)
        if not self.mix:
            family = rng.choice(FAMILIES)
            for name in names:
                self.mix[name] = weights[name] * rng.choice([0, 0.3, 1, 1, 3]) * (name in family or not family or 0.05)
        name = rng.choices(names, [self.mix[n] + 1e-6 for n in names])[0]
        r = self.pick("rng", len(spec["rngs"]))
        la = self.pick("la", len(spec["las"]))
        if name == "rate":
            field = rng.choice(RATES)
            if field == "location":
                return [name, *self.area(), field, rng.choice([0, rng.randrange(1, 130), 20, 72, 89, 90, 97, 98])]
            return [name, *self.area(), field, rng.choice([0, 1, 20, 180, 255, rng.randrange(256)])]
        if name == "slot":
            source = gen3.made_up(rng, 4)
            group = rng.choice([group for group, _ in encounters.GROUPS] + ["land", "rock"])
            slot = list(rng.choice(source[group]))
            return [name, *self.area(), group, rng.randrange(dict(encounters.GROUPS)[group]), slot,
                    rng.choice(["fields", "columns", "whole"])]
        if name == "copy":
            t = rng.randrange(len(spec["tables"]))
            return [name, *self.area(), t, rng.randrange(len(spec["tables"][t]))]
        if name == "search":
            return [name, self.pick("search", len(spec["searches"])), *self.area(), opgen.word(rng, 32),
                    rng.choice([0, 0, rng.randrange(5000)]), rng.choice([0, rng.randrange(100000)]),
                    rng.choice([0, 1, 1, 2, 5])]
        if name == "hslot":
            return [name, r, *self.area(), rng.choice(KINDS)]
        if name == "hlead":
            return [name, r, *self.area(), rng.choice(KINDS),
                    rng.choice([gm.MAGNET, gm.MAGNET, gm.STATIC, gm.STATIC, gm.NONE, gm.PRESSURE, 3]),
                    rng.choice([4, 4, 4, 1, 2, 8, 16])]
        if name == "level":
            group, size = rng.choice(encounters.GROUPS)
            return [name, r, *self.area(), group, rng.randrange(size), rng.randrange(2)]
        if name == "safari":
            return [name, *self.area(), rng.choice([1, 2, 4, 8, 16])]
        if name == "reported":
            return [name, *self.area(), rng.choice(KINDS)]
        if name == "read":
            return [name, *self.area()]
        if name == "next":
            return [name, r]
        if name == "reseed":
            return [name, r, opgen.word(rng, 32)]
        if name in ("state", "alter", "update", "show"):
            return self.state_op(name)
        if name == "choose":
            return [name, la, self.rand(), *self.conditions()]
        if name == "laslot":
            return [name, la, rng.randrange(20), la_slot(rng, self.exact)]
        if name == "lafield":
            slot = la_slot(rng, self.exact)
            field = rng.choice([6, 6, 8, 8, 9, 9, rng.randrange(8)])
            index = rng.randrange(len(slot[field])) if field > 7 else None
            if index is not None and rng.random() < 0.6:
                index = self.conditions()[field - 8]
            return [name, la, rng.randrange(20), field, index, slot[field] if index is None else slot[field][index]]
        if name == "laall":
            return [name, la, la_slots(rng, self.exact)]
        if name == "lacopy":
            return [name, la, rng.randrange(len(spec["las"]))]
        if name == "laread":
            return [name, la]
        d, key = rng.randrange(spec["dicts"]), rng.choice(spec["keys"])
        if name == "put":
            return [name, d, key, la]
        if name == "get":
            return [name, d, key, self.rand(), *self.conditions()]
        return [name, d, key] if name == "drop" else [name, d]

    def state_op(self, name):
        rng = self.rng
        n = self.pick("state", 3)
        iv = rng.choice([0, 1, 30, 31, rng.randrange(32)])
        species = rng.choice([rng.randrange(1, 252), rng.randrange(277, 387)])
        if species == 292:
            species = 1  # whose hit points no formula gives
        if name == "state":
            ivs = [rng.choice([iv, iv, rng.randrange(32)]) for _ in range(6)]
            return [name, n, opgen.word(rng, 32), opgen.word(rng, 32), species,
                    rng.choice([0, 0, rng.randrange(28)]), ivs, rng.randrange(2),
                    rng.choice([1, 5, 50, 100, rng.randrange(1, 101)]), rng.randrange(3), rng.choice([1, 2, 4, 8, 16])]
        if name == "alter":
            field = rng.choice(["ivs", "ivs", "ivs", "pid", "level", "level", "species", "form", "shiny", "ability"])
            value = {"ivs": iv, "pid": opgen.word(rng, 32), "level": rng.randrange(1, 101), "species": species,
                     "form": rng.randrange(28), "shiny": rng.randrange(3), "ability": rng.randrange(2)}[field]
            return [name, n, field, rng.randrange(6), value]
        if name == "update":
            return [name, n, rng.choice([1, 2, 4, 8, 16]), species]
        return [name, n]

    def rand(self):
        """A random number, or the k-th boundary between the slots, give or take one"""
        rng = self.rng
        if rng.random() < 0.4:
            return ["near", rng.randrange(1 << 16), rng.choice([-1, 0, 0, 1])]
        return rng.choice([0, (1 << 24) - 1, rng.getrandbits(24), rng.getrandbits(24)])


def plan(rng, prop, tier, index):
    deep = tier == "thorough" and rng.random() < 0.2
    mode = "numba" if rng.random() < 0.5 else "numpy"

    def area():
        if rng.random() < 0.5:
            return plain_area(rng.choice(gen3.real_areas()[rng.choice([1, 2, 4, 8, 16])])[1])
        return plain_area(gen3.made_up(rng, rng.choice([1, 4, 8])))

    exact = rng.random() < 0.5
    searches = []
    for _ in range(rng.choice([1, 2, 3])):
        tid = rng.randrange(65536)
        searches.append([rng.choice(gm.METHODS), rng.choice(KINDS), rng.choice(gen3.LEADS + [gm.MAGNET, gm.STATIC, 3]),
                         rng.choice([1, 2, 4, 4, 4, 8, 16]), tid, rng.choice([0, tid, rng.randrange(65536)])])
    spec = {
        "tables": [[area() for _ in range(rng.choice([1, 2, 4]))] for _ in range(rng.choice([1, 1, 2]))],
        "las": [{"table": rng.choice([0, 1, rng.getrandbits(64)]), "slots": la_slots(rng, exact)}
                for _ in range(rng.choice([1, 2, 3]))],
        "searches": searches, "rngs": [opgen.word(rng, 32) for _ in range(rng.choice([1, 2]))],
        "dicts": rng.choice([1, 2]), "exact": exact,
        "keys": [rng.choice([0, (1 << 64) - 1, 1 << 63, rng.getrandbits(64), rng.getrandbits(53)]) for _ in range(3)],
    }
    clients = [Client(rng, spec) for _ in range(rng.choice([1, 2, 3]))]
    length = rng.choice([5, 15, 40, 80]) * (5 if deep else 1)
    crash_rate, save_rate = rng.choice([0, 0, 0.02, 0.08]), rng.choice([0.02, 0.1])
    both = rng.random() < 0.4
    events = []
    while len(events) < length:
        pick = rng.random()
        if pick < crash_rate:
            events.append(["crash", rng.choice(["numba", "numpy"]) if both else mode, rng.randrange(2)])
        elif pick < crash_rate + save_rate:
            events.append(["save"])
        else:
            client = rng.randrange(len(clients))
            for _ in range(rng.choice([1, 1, 2, 5])):
                events.append(["op", client, clients[client].op()])
    return {"mode": mode, "spec": spec, "events": events}


def lists(plan):
    return [["events"]]


def simplify(plan):
    for i, area in enumerate(plan["spec"]["las"]):
        if len(area["slots"]) > 1:
            candidate = json.loads(json.dumps(plan))
            candidate["spec"]["las"][i]["slots"] = area["slots"][:len(area["slots"]) // 2]
            yield candidate
    for key in ("searches", "rngs", "las"):
        if len(plan["spec"][key]) > 1:
            candidate = json.loads(json.dumps(plan))
            candidate["spec"][key].pop()
            yield candidate


# ------------------------------------------------------------------ reference
class Model:
    """The areas as plain lists; an operation on something that is not there does nothing"""

    def __init__(self, spec):
        self.tables = copy.deepcopy(spec["tables"])
        self.las = [[la["table"], copy.deepcopy(la["slots"])] for la in spec["las"]]
        self.searches = spec["searches"]
        self.rngs = [gm.Rng(seed) for seed in spec["rngs"]]
        self.dicts = [{} for _ in range(spec["dicts"])]
        self.states = {}

    def fits(self, op):
        """The operation with its references made valid, or None"""
        op = list(op)
        name = op[0]
        if name in ("alter", "update", "show") and op[1] not in self.states:
            return None
        if name in ("search", "hslot", "hlead", "level", "next", "reseed"):
            if op[1] >= len(self.searches if name == "search" else self.rngs):
                return None
        if name in ("choose", "laslot", "lafield", "laall", "laread", "lacopy") and op[1] >= len(self.las):
            return None
        if name == "lacopy" and op[2] >= len(self.las) or name == "put" and op[3] >= len(self.las):
            return None
        if name in ("laslot", "lafield"):
            op[2] %= len(self.las[op[1]][1])
        if name in ("choose", "get"):
            at = 2 if name == "choose" else 3
            if isinstance(op[at], list):
                slots = self.las[op[1]][1] if name == "choose" else self.found(op[1], op[2])
                op[at] = self.near(slots, op[at][1], op[at][2], op[at + 1], op[at + 2])
        return op

    def found(self, d, key):
        number = self.dicts[d].get(key)
        return None if number is None else self.las[number][1]

    @staticmethod
    def weights(slots, time, weather):
        return [slot[6] * Fraction(slot[8][time]) * Fraction(slot[9][weather]) for slot in slots]

    def near(self, slots, boundary, offset, time, weather):
        if not slots:
            return 0
        weights = self.weights(slots, time, weather)
        total = sum(weights)
        if not total:
            return 0
        at = int(sum(weights[:boundary % len(slots) + 1]) / total * (1 << 24)) + offset
        return min(max(at, 0), (1 << 24) - 1)

    def apply(self, op):
        return getattr(self, "do_" + op[0])(*op[1:])

    def do_rate(self, t, i, name, value):
        self.tables[t][i][name] = value

    def do_slot(self, t, i, group, n, slot, how):
        self.tables[t][i][group][n] = list(slot)

    def do_copy(self, t, i, u, j):
        self.tables[t][i] = copy.deepcopy(self.tables[u][j])

    def do_search(self, s, t, i, seed, delay, start, count):
        search = gm.Search(self.searches[s], self.tables[t][i], gen3.tables())
        return search.run(seed, delay, start, count)

    def do_hslot(self, r, t, i, encounter):
        rng = self.rngs[r]
        return [self.pick(rng, self.tables[t][i], encounter), rng.seed]

    @staticmethod
    def pick(rng, area, encounter):
        group = gm.GROUP[encounter]
        number, total = rng.rand(100), 0
        for slot, chance in zip(area[group], gm.SLOTS[group]):
            total += chance
            if number < total:
                return list(slot)
        raise AssertionError(number)

    def do_hlead(self, r, t, i, encounter, lead, game):
        rng, area = self.rngs[r], self.tables[t][i]
        wanted = {gm.MAGNET: 8, gm.STATIC: 13}.get(lead)
        table = gen3.tables()[game]
        chosen = [list(slot) for slot in area[gm.GROUP[encounter]]
                  if wanted in table[slot[2] & 0x3FF]["types"]] if wanted else []
        if wanted and rng.rand(2) == 0 and chosen:
            slot = chosen[rng.rand(len(chosen))]
        else:
            slot = self.pick(rng, area, encounter)
        return [chosen, list(slot), rng.seed]

    def do_level(self, r, t, i, group, n, pressure):
        rng = self.rngs[r]
        low, high, _ = self.tables[t][i][group][n]
        extra = rng.rand(high - low + 1)
        level = low + extra
        if pressure:
            if rng.rand(2) == 0:
                level = high
            elif extra:
                level -= 1
        return [level, rng.seed]

    def do_safari(self, t, i, game):
        return self.tables[t][i]["location"] in gm.SAFARI.get(game, ())

    def do_reported(self, t, i, encounter):
        group = gm.GROUP[encounter]
        return self.tables[t][i][{"land": "land_rate", "water": "water_rate", "rock": "rock_rate"}.get(
            group, "fish_rate")]

    def do_read(self, t, i):
        area = self.tables[t][i]
        return [area[name] for name in RATES] + [
            [list(slot) for slot in area[group]] for group in GROUPS]

    def do_next(self, r):
        self.rngs[r].u16()
        return self.rngs[r].seed

    def do_reseed(self, r, seed):
        self.rngs[r].seed = seed

    def do_state(self, n, advance, pid, species, form, ivs, ability, level, shiny, game):
        info = gen3.tables()[game][species]
        self.states[n] = {"advance": advance, "pid": pid, "species": species, "form": form, "ivs": list(ivs),
                          "ability": ability, "level": level, "shiny": shiny,
                          "ability_index": info["abilities"][ability]}
        self.do_update(n, game, species)

    def do_alter(self, n, field, index, value):
        if field == "ivs":
            self.states[n]["ivs"][index] = value
        else:
            self.states[n][field] = value

    def do_update(self, n, game, species):
        state = self.states[n]
        derived = gm.described(0, state["pid"], 1, 0, state["level"], state["ivs"], 0, gen3.tables()[game][species])
        for name, at in (("nature", 5), ("gender", 9), ("stats", 11), ("power", 12), ("strength", 13), ("trait", 14)):
            state[name] = derived[at]

    def do_show(self, n):
        order = ("advance", "pid", "species", "form", "level", "nature", "ivs", "ability", "ability_index",
                 "gender", "shiny", "stats", "power", "strength", "trait")
        shown = [self.states[n][name] for name in order]
        return shown + [gm.text(shown)]

    def do_choose(self, number, rand, time, weather):
        return self.choice(self.las[number][1], rand, time, weather)

    def choice(self, slots, rand, time, weather):
        weights = self.weights(slots, time, weather)
        total = sum(weights)
        if not total:
            return ANY  # nothing can appear there
        exact = self.exact(weights, total)
        scaled, limit = Fraction(rand, 1 << 24) * total, 0
        for slot, weight in zip(slots, weights):
            limit += weight
            if not exact and abs(scaled - limit) < total * Fraction(3, 10**6):
                return ANY  # too close to call: compiled code computes in single precision
            if scaled < limit:
                return slot
        return slots[-1]

    @staticmethod
    def exact(weights, total):
        """Nothing is rounded: the total is a power of two and everything a multiple of its part"""
        total *= 64
        return (total.denominator == 1 and total.numerator.bit_count() == 1 and total < 1 << 24
                and all((64 * weight).denominator == 1 for weight in weights))

    def do_laslot(self, number, n, slot):
        self.las[number][1][n] = copy.deepcopy(slot)

    def do_lafield(self, number, n, field, index, value):
        if index is None:
            self.las[number][1][n][field] = value
        else:
            self.las[number][1][n][field][index] = value

    def do_laall(self, number, slots):
        self.las[number][1] = copy.deepcopy(slots)

    def do_lacopy(self, number, other):
        self.las[number][1] = copy.deepcopy(self.las[other][1])

    def do_laread(self, number):
        return [self.las[number][0], self.las[number][1]]

    def do_put(self, d, key, number):
        self.dicts[d][key] = number

    def do_get(self, d, key, rand, time, weather):
        slots = self.found(d, key)
        return None if slots is None else self.choice(slots, rand, time, weather)

    def do_drop(self, d, key):
        self.dicts[d].pop(key, None)

    def do_keys(self, d):
        return sorted(self.dicts[d])


ANY = object()
GROUPS = ("land", "water", "rock", "fish_old", "fish_good", "fish_super")
LA_FIELDS = ("species", "gender", "form", "min_level", "max_level", "guaranteed_ivs",
             "base_probability", "is_alpha", "time_multipliers", "weather_multipliers")


# ------------------------------------------------------------------ execution
def execute(plan, env, history):
    spec = plan["spec"]
    mode = plan["mode"]
    model = Model(spec)
    saved = None  # (what a client wrote down, the model at that time)
    journal = []
    batch, wanted = [], []
    node = env.spawn(mode, {"cpu": 60})

    def flush():
        if not batch:
            return
        results = node.call(list(batch))
        for item, (want, note), got in zip(batch, wanted, results):
            if isinstance(got, tuple) and got and got[0] == "error":
                raise Violation("raised:%s:%s" % (got[1], item[1][0] if item[0] == "op" else item[0]),
                                "%s mode, %r: %s" % (mode, item, got[2]))
            if item[0] != "op":
                continue
            history.event(item[1], got)
            if want is not ANY and want != got:
                raise Violation("mismatch:" + item[1][0], "%s mode: %r gave\n%r, the areas' present contents "
                                "give\n%r" % (mode, item[1], got, want))
            if want is not None and want is not ANY:
                history.probe("results checked: " + item[1][0])
        answer = results[-1]
        batch.clear()
        wanted.clear()
        return answer

    def issue(op):
        op = model.fits(op)
        if op is None:
            return
        want = model.apply(op)
        real = list(op)
        if op[0] == "lafield":
            real[3] = LA_FIELDS[op[3]]
        # a later edit must not change what is expected now
        want = want if want is ANY else copy.deepcopy(want)
        history.marks.add("%s %s" % (op[0], encounters.fingerprint(want) if want is not ANY else "any"))
        batch.append(["op", real])
        wanted.append((want, None))

    def begin():
        batch.append(["build", spec])
        wanted.append((None, None))
        if saved is not None:
            batch.append(["restore", saved[0]])
            wanted.append((None, None))
        for d, content in enumerate(model.dicts):
            for key, number in content.items():
                batch.append(["op", ["put", d, key, number]])
                wanted.append((None, None))
        model.states.clear()  # nobody wrote them down

    begin()
    for event in plan["events"]:
        if event[0] == "op":
            issue(event[2])
            journal.append(event[2])
        elif event[0] == "save":
            batch.append(["save"])
            wanted.append((None, None))
            saved = (flush(), copy.deepcopy(model))
            journal = []
        else:
            flush()
            node.crash()
            history.fault("crash" if event[1] == mode else "crash+mode change")
            mode = event[1]
            node = env.spawn(mode, {"cpu": 60})
            model = copy.deepcopy(saved[1]) if saved is not None else Model(spec)
            begin()
            if event[2]:
                history.probe("operations redone after a crash", len(journal))
                for op in journal:
                    issue(op)
            else:
                journal = []
    # at last, everything as it was left
    for t, table in enumerate(model.tables):
        for i in range(len(table)):
            issue(["read", t, i])
    for number in range(len(model.las)):
        issue(["laread", number])
    for r in range(len(model.rngs)):
        issue(["next", r])
    flush()
    node.end(kill=True)
