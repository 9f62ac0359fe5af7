"""Node process that runs parts of wild encounter searches"""

import os
import traceback
import warnings

import proto

WARM_ERRORS = []
NUMBA = os.environ.get("SIM_MODE") == "numba"
GROUPS = ("land", "water", "rock", "fish_old", "fish_good", "fish_super")


def overlay():
    """The package reads one file that is not shipped: serve it, everything else is real"""
    import builtins
    import io

    import _io

    real = io.open

    def opened(file, *args, **kwargs):
        try:
            missing = os.fspath(file).endswith("encount/la/spawner_names.json")
        except TypeError:
            missing = False
        if missing and not os.path.exists(file):
            mode = args[0] if args else kwargs.get("mode", "r")
            return io.BytesIO(b"{}") if "b" in mode else io.StringIO("{}")
        return real(file, *args, **kwargs)

    builtins.open = io.open = _io.open = opened


def make_area(description):
    import numpy as np
    from numba_pokemon_prngs.data.encounter.encounter_area_3 import EncounterArea3

    table = np.zeros(1, dtype=EncounterArea3.dtype).view(np.recarray)
    area = table[0]
    for name in ("location", "land_rate", "water_rate", "rock_rate", "fish_rate"):
        setattr(area, name, description[name])
    for group in GROUPS:
        slots = getattr(area, group)
        for i, (low, high, species) in enumerate(description[group]):
            slots[i].min_level, slots[i].max_level, slots[i].species = low, high, species
    return table[0]


def make_generator(config):
    from numba_pokemon_prngs import enums
    from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3
    import numpy as np

    method, encounter, lead, game, tid, sid = config
    return WildGenerator3(enums.Method(method), enums.Encounter(encounter), enums.Lead(lead),
                          enums.Game(game), np.uint16(tid), np.uint16(sid))


def search(generator, area, seed, delay, start, count, style, text=True):
    import numpy as np

    kind = int if style == "int" and not NUMBA else np.uint32
    states = generator.generate(kind(seed), kind(delay), kind(start), kind(count), area)
    return [describe(state) + ([str(state)] if text else []) for state in states]


def describe(state):
    return [int(state.advance), int(state.pid), int(state.species), int(state.form),
            int(state.level), int(state.nature), [int(iv) for iv in state.ivs],
            int(state.ability), int(state.ability_index), int(state.gender), int(state.shiny),
            [int(stat) for stat in state.stats], int(state.hidden_power),
            int(state.hidden_power_strength), int(state.characteristic)]


def warm(params):
    warnings.simplefilter("ignore")
    overlay()
    try:
        import numba_pokemon_prngs.gen3.wild_generator_3

        # compile; without numba every life starts as new as after an import
        for config, area, *rest in params["warm"] if NUMBA else ():
            search(make_generator(config), make_area(area), *rest, "np")
    except Exception:
        WARM_ERRORS.append(traceback.format_exc())


def life(sock, params):
    areas, generators = {}, {}
    while True:
        message = proto.recv(sock)
        try:
            what = message[0]
            if what == "area":
                areas[message[1]] = make_area(message[2])
                answer = ("ok", None)
            elif what == "generator":
                generators[message[1]] = make_generator(message[2])
                answer = ("ok", None)
            else:
                _, generator, area, seed, delay, start, count, style = message
                answer = ("ok", search(generators[generator], areas[area], seed, delay, start,
                                       count, style))
        except Exception as exc:
            answer = ("error", type(exc).__name__, traceback.format_exc()[-1500:])
        proto.send(sock, answer)
