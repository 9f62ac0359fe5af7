"""Node process whose threads run under a scheduler (baton.py)"""

import hashlib
import os
import sys
import traceback
import warnings

import baton
import ops
import proto
from nodes import gen, gen3

WARM_ERRORS = []
NUMBA = os.environ.get("SIM_MODE") == "numba"


class Wild:
    """An encounter search object and its area"""

    def __init__(self, spec, style):
        self.style = style
        self.generator = gen3.make_generator(spec["config"])
        self.area = gen3.make_area(spec["area"])

    def apply(self, op):
        return gen3.search(self.generator, self.area, *op[1:], self.style, False)

    def dump(self):
        generator = self.generator
        return [int(generator.method), int(generator.encounter), int(generator.game),
                int(generator.lead), int(generator.tsv), self.area.tobytes().hex()]


class Info:
    """A game's stat table"""

    def __init__(self, spec, style):
        from numba_pokemon_prngs import enums
        from numba_pokemon_prngs.data import personal

        self.game = enums.Game(spec["game"])
        self.module = personal

    def apply(self, op):
        which, species = op[0], op[1]
        get = self.module.get_info_table_3 if which == "info3" else self.module.get_info_table
        record = get(self.game)[species]
        return [int(record[name]) for name in FIELDS]

    def dump(self):
        return hashlib.sha256(self.module.get_info_table(self.game).tobytes()).hexdigest()


FIELDS = ("hp", "attack", "defense", "special_attack", "special_defense", "speed", "type_1",
          "type_2", "gender_ratio", "ability_1", "ability_2")


class AreaLA:
    """A Legends Arceus encounter area"""

    def __init__(self, spec, style):
        import numpy as np
        from numba_pokemon_prngs.data.encounter.encounter_area_la import EncounterAreaLA

        slots = spec["slots"]
        self.area = EncounterAreaLA(np.uint64(spec["table"]), np.uint64(len(slots)))
        for i, (base, times, weathers) in enumerate(slots):
            self.area.slots[i]["species"] = i + 1
            self.area.slots[i]["base_probability"] = base
            self.area.slots[i]["time_multipliers"][:] = np.array(times, np.float32)
            self.area.slots[i]["weather_multipliers"][:] = np.array(weathers, np.float32)

    def apply(self, op):
        import numpy as np
        from numba_pokemon_prngs.enums import LATime, LAWeather

        _, rand, time, weather = op
        if NUMBA:
            time, weather = np.uint8(time), np.uint8(weather)
        else:
            time, weather = LATime(time), LAWeather(weather)
        return int(self.area.calc_slot(np.float32(rand / (1 << 24)), time, weather)["species"])

    def dump(self):
        return [int(self.area.table_id), self.area.slots.tobytes().hex()]


def make(spec, style):
    kind = {"wild": Wild, "info": Info, "la": AreaLA}.get(spec["k"], ops.Thing)
    return kind(spec, style)


def warm(params):
    warnings.simplefilter("ignore")
    gen3.overlay()
    if not NUMBA:
        baton.simulate_locks(os.path.join(sys.path[0], "numba_pokemon_prngs") + os.sep)
    if NUMBA:  # compile; without numba every life starts as new as after an import
        gen.warm(params)
        WARM_ERRORS.extend(gen.WARM_ERRORS)
    try:
        for spec, op in params["warm2"] if NUMBA else ():
            make(spec, "np").apply(op)
        import numba_pokemon_prngs
        import numba_pokemon_prngs.data.encounter
        import numba_pokemon_prngs.data.personal
        import numba_pokemon_prngs.gen3.wild_generator_3
        import numba_pokemon_prngs.lcrng
        import numba_pokemon_prngs.mersenne_twister
        import numba_pokemon_prngs.rng_list
        import numba_pokemon_prngs.sha1
        import numba_pokemon_prngs.xorshift

        if not NUMBA:
            baton.find_codes(numba_pokemon_prngs)
    except Exception:
        WARM_ERRORS.append(traceback.format_exc())


def life(sock, params):
    plan = proto.recv(sock)
    style = plan["style"]
    things, dirty, saved = {}, {}, {}

    def prepare():
        if plan.get("inside"):  # threads make their classes and constants themselves
            for number in plan["shared"]:
                things[number] = make(plan["objects"][number], style)
            return
        for program in plan["threads"]:
            for item in program:
                for op in item[2] if item[0] == "recover" else [item[2]] if item[0] == "op" else []:
                    if op[0] in ("cjump", "crand"):
                        cls = plan["objects"][item[1]]["cls"]
                        ops.const(cls, "const_jump" if op[0] == "cjump" else "const_rand", op[1])
        for spec in plan["objects"]:
            if spec["k"] == "list":
                ops.list_class(spec)
        for number in plan["shared"]:
            things[number] = make(plan["objects"][number], style)

    def perform(thread, item):
        what, number = item[0], item[1]
        if what == "make":
            things.pop(number, None)
            dirty.pop(number, None)
            things[number] = make(plan["objects"][number], style)
            return None
        if number not in things:
            return "skipped"
        thing = things[number]
        if what == "recover":
            dirty[number] = "recover"
            for op in item[2]:
                thing.apply(op)
            dirty.pop(number)
            return None
        if what == "restore":
            if number not in saved:
                return "skipped"
            dirty[number] = "restore"
            thing.restore(saved[number])
            dirty.pop(number)
            return None
        if number in dirty and not (what == "retry" and dirty[number] == item[2]):
            return "skipped"
        if what == "retry" and number not in dirty:
            return "skipped"
        if what == "save":
            saved[number] = thing.save()
            return saved[number]
        if not isinstance(thing, ops.Thing):
            return thing.apply(item[2])  # read only: a retry needs no recovery
        dirty[number] = item[2]
        result = thing.apply(item[2])
        dirty.pop(number)
        return result

    try:
        prepare()
        before = [things[number].dump() for number in plan["shared"]]
    except Exception as exc:
        proto.send(sock, {"failed": [type(exc).__name__, traceback.format_exc()[-1500:]]})
        return
    visitors = plan.get("visitors", [])
    visited = [[] for _ in visitors]
    busy = set()

    def visit(number, ask=False):
        """A signal handler or finalizer that uses the package, in the middle of an operation"""
        program, results = visitors[number]["items"], visited[number]
        if number in busy or len(results) == len(program) or ask:
            return number not in busy and len(results) < len(program)
        busy.add(number)
        for item in program[len(results):len(results) + visitors[number]["chunk"]]:
            try:
                results.append(["ok", perform(None, item)])
            except baton.Death:
                raise
            except (KeyboardInterrupt, MemoryError, baton.Timeout) as exc:
                results.append(["cut", type(exc).__name__])
                raise
            except Exception as exc:
                text = "".join(traceback.format_tb(exc.__traceback__)) + "%s: %s" % (type(exc).__name__, exc)
                results.append(["error", type(exc).__name__, text[-1500:]])
        busy.discard(number)
        return True

    scheduler = baton.Scheduler(len(plan["threads"]), plan["segments"], plan["faults"],
                                plan["granularity"], not NUMBA, plan.get("visits", ()), visit)
    outcome = scheduler.run(plan["threads"], perform)
    outcome["visited"] = visited
    outcome["before"] = before
    outcome["after"] = [things[number].dump() for number in plan["shared"]]
    proto.send(sock, outcome)
    sys.stdout.flush()
