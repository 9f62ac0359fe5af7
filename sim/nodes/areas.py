"""Node process for histories of edits, choices and searches on encounter areas"""

import os
import sys
import traceback
import warnings

import proto
from nodes import gen3

WARM_ERRORS = []
NUMBA = os.environ.get("SIM_MODE") == "numba"
RATES = ("location", "land_rate", "water_rate", "rock_rate", "fish_rate")
LA_FIELDS = ("species", "gender", "form", "min_level", "max_level", "guaranteed_ivs",
             "base_probability", "is_alpha", "time_multipliers", "weather_multipliers")


class World:
    """The real objects of one process and the operations on them"""

    def __init__(self):
        import numpy as np
        from numba_pokemon_prngs import enums, lcrng
        from numba_pokemon_prngs.compilation import TypedDict
        from numba_pokemon_prngs.data import personal
        from numba_pokemon_prngs.data.encounter import encounter_area_3, encounter_area_la
        from numba_pokemon_prngs.gen3 import encounter_area_3 as choice
        from numba_pokemon_prngs.gen3 import state

        self.np, self.enums, self.choice, self.personal = np, enums, choice, personal
        self.dtype = encounter_area_3.EncounterArea3.dtype
        self.la_class = encounter_area_la.EncounterAreaLA
        self.la_dtype = encounter_area_la.SlotLA.dtype
        self.rng_class = lcrng.PokeRNGMod
        self.new_dict = lambda: TypedDict(key_type=np.uint64, value_type=self.la_class)
        self.tables, self.las, self.searches, self.rngs, self.dicts = [], [], [], [], []
        self.state_class = state.GeneratorState
        self.states = {}

    def build(self, spec):
        np = self.np
        for areas in spec["tables"]:
            table = np.zeros(len(areas), dtype=self.dtype).view(np.recarray)
            for i, area in enumerate(areas):
                for name in RATES:
                    setattr(table[i], name, area[name])
                for group in gen3.GROUPS:
                    for n, slot in enumerate(area[group]):
                        self.write(getattr(table[i], group)[n], slot)
            self.tables.append(table)
        for la in spec["las"]:
            area = self.la_class(np.uint64(la["table"]), np.uint64(len(la["slots"])))
            for n, slot in enumerate(la["slots"]):
                self.write_la(area.slots[n], slot)
            self.las.append(area)
        self.searches = [gen3.make_generator(config) for config in spec["searches"]]
        self.rngs = [self.rng_class(np.uint32(seed)) for seed in spec["rngs"]]
        self.dicts = [self.new_dict() for _ in range(spec["dicts"])]

    @staticmethod
    def write(record, slot):
        record.min_level, record.max_level, record.species = slot

    @staticmethod
    def write_la(record, slot):
        for name, value in zip(LA_FIELDS, slot):
            record[name] = value

    # ------------------------------------------------------------ operations
    def apply(self, op):
        return getattr(self, "do_" + op[0])(*op[1:])

    def small(self, value):
        return self.np.uint8(value)

    def do_rate(self, t, i, name, value):
        self.tables[t][i][name] = value

    def do_slot(self, t, i, group, n, slot, how):
        if how == "fields":
            self.write(getattr(self.tables[t][i], group)[n], slot)
        elif how == "columns":
            column = self.tables[t][group]
            for name, value in zip(("min_level", "max_level", "species"), slot):
                column[name][i, n] = value
        else:
            self.tables[t][group][i, n] = tuple(slot)

    def do_copy(self, t, i, u, j):
        self.tables[t][i] = self.tables[u][j]

    def do_search(self, s, t, i, seed, delay, start, count):
        return gen3.search(self.searches[s], self.tables[t][i], seed, delay, start, count, "np")

    @staticmethod
    def slot(record):
        return [int(record["min_level"]), int(record["max_level"]), int(record["species"])]

    def do_hslot(self, r, t, i, encounter):
        rng = self.rngs[r]
        record = self.choice.calculate_hslot(self.tables[t][i], rng, self.small(encounter))
        return [self.slot(record), int(rng.seed)]

    def do_hlead(self, r, t, i, encounter, lead, game):
        rng, area = self.rngs[r], self.tables[t][i]
        table = self.personal.get_info_table_3(self.enums.Game(game))
        chosen = self.choice.get_modified_slots(
            area, self.small(encounter), self.small(lead), self.small(game), table)
        record = self.choice.calculate_hslot_lead(
            area, rng, self.small(encounter), self.small(lead), chosen)
        return [[self.slot(one) for one in chosen], self.slot(record), int(rng.seed)]

    def do_level(self, r, t, i, group, n, pressure):
        rng = self.rngs[r]
        record = getattr(self.tables[t][i], group)[n]
        return [int(self.choice.calculate_level(record, rng, bool(pressure))), int(rng.seed)]

    def do_safari(self, t, i, game):
        return bool(self.choice.is_rse_safari_zone(self.tables[t][i], self.small(game)))

    def do_reported(self, t, i, encounter):
        return int(self.choice.get_encounter_rate(self.tables[t][i], self.small(encounter)))

    def do_read(self, t, i):
        area = self.tables[t][i]
        return [int(area[name]) for name in RATES] + [
            [self.slot(one) for one in area[group]] for group in gen3.GROUPS]

    def do_next(self, r):
        return int(self.rngs[r].next())

    def do_reseed(self, r, seed):
        self.rngs[r].re_init(self.np.uint32(seed))

    # states of encounters
    def info(self, game, species):
        return self.personal.get_info_table_3(self.enums.Game(game))[species]

    def do_state(self, n, advance, pid, species, form, ivs, ability, level, shiny, game):
        np = self.np
        self.states[n] = self.state_class(
            np.uint32(advance), np.uint32(pid), np.uint16(species), np.uint8(form),
            np.array(ivs, np.uint8), np.uint8(ability), np.uint8(level), np.uint8(shiny),
            self.info(game, species))

    def do_alter(self, n, field, index, value):
        state = self.states[n]
        if field == "ivs":
            state.ivs[index] = value
        elif field == "pid":
            state.pid = self.np.uint32(value)
        elif field == "species":
            state.species = self.np.uint16(value)
        else:
            setattr(state, field, self.np.uint8(value))

    def do_update(self, n, game, species):
        self.states[n].update_stats(self.info(game, species))

    def do_show(self, n):
        return gen3.describe(self.states[n]) + [str(self.states[n])]

    # Legends Arceus
    def do_choose(self, number, rand, time, weather):
        return self.choose(self.las[number], rand, time, weather)

    def choose(self, area, rand, time, weather):
        if NUMBA:
            time, weather = self.small(time), self.small(weather)
        else:
            time, weather = self.enums.LATime(time), self.enums.LAWeather(weather)
        return self.la_slot(area.calc_slot(self.np.float32(rand / (1 << 24)), time, weather))

    @staticmethod
    def la_slot(record):
        return [[float(v) for v in record[name]] if name.endswith("multipliers") else int(record[name])
                for name in LA_FIELDS]

    def do_laslot(self, number, n, slot):
        self.write_la(self.las[number].slots[n], slot)

    def do_lafield(self, number, n, name, index, value):
        column = self.las[number].slots[name]
        if index is None:
            column[n] = value
        else:
            column[n, index] = value

    def do_laall(self, number, slots):
        fresh = self.np.zeros(len(slots), dtype=self.la_dtype)
        for n, slot in enumerate(slots):
            self.write_la(fresh[n], slot)
        self.las[number].slots = fresh

    def do_lacopy(self, number, other):
        if number != other:
            self.las[number].slots = self.las[other].slots.copy()

    def do_laread(self, number):
        area = self.las[number]
        return [int(area.table_id), [self.la_slot(record) for record in area.slots]]

    def do_put(self, d, key, number):
        self.dicts[d][self.np.uint64(key)] = self.las[number]

    def do_get(self, d, key, rand, time, weather):
        key = self.np.uint64(key)
        if key not in self.dicts[d]:
            return None
        return self.choose(self.dicts[d][key], rand, time, weather)

    def do_drop(self, d, key):
        key = self.np.uint64(key)
        if key in self.dicts[d]:
            del self.dicts[d][key]

    def do_keys(self, d):
        return sorted(int(key) for key in self.dicts[d])

    # ------------------------------------------------------------ durable state
    def save(self):
        return {
            "tables": [table.tobytes() for table in self.tables],
            "las": [[int(area.table_id), area.slots.tobytes()] for area in self.las],
            "rngs": [int(rng.seed) for rng in self.rngs],
        }

    def restore(self, saved):
        np = self.np
        self.tables = [np.frombuffer(data, dtype=self.dtype).copy().view(np.recarray)
                       for data in saved["tables"]]
        self.las = []
        for number, data in saved["las"]:
            slots = np.frombuffer(data, dtype=self.la_dtype).copy()
            area = self.la_class(np.uint64(number), np.uint64(len(slots)))
            area.slots = slots
            self.las.append(area)
        for rng, seed in zip(self.rngs, saved["rngs"]):
            rng.re_init(np.uint32(seed))


def warm(params):
    warnings.simplefilter("ignore")
    gen3.overlay()
    try:
        if NUMBA:  # compile; without numba every life starts as new as after an import
            world = World()
            world.build(params["spec"])
            for op in params["warm"]:
                world.apply(op)
            world.restore(world.save())
        else:
            import numba_pokemon_prngs.data.encounter.encounter_area_la
            import numba_pokemon_prngs.gen3.wild_generator_3
    except Exception:
        WARM_ERRORS.append(traceback.format_exc())


def life(sock, params):
    world = None
    while True:
        message = proto.recv(sock)
        results = []
        for item in message:
            try:
                if world is None:
                    world = World()
                if item[0] == "build":
                    results.append(world.build(item[1]))
                elif item[0] == "save":
                    results.append(world.save())
                elif item[0] == "restore":
                    results.append(world.restore(item[1]))
                else:
                    results.append(world.apply(item[1]))
            except Exception as exc:
                results.append(("error", type(exc).__name__, traceback.format_exc()[-1500:]))
                break
        proto.send(sock, results)
