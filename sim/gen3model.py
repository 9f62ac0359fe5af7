"""Reference model of the generation 3 wild encounter search, in plain integers."""

import functools
import os
import struct

from control import REPO

GRASS, ROCK_SMASH, SURFING, OLD_ROD, GOOD_ROD, SUPER_ROD = 0, 3, 4, 6, 7, 8
NONE, CUTE_F, CUTE_M, MAGNET, STATIC, PRESSURE = 255, 25, 26, 27, 28, 32
METHODS = (1, 3, 4)  # methods 1, 2 and 4 as the package numbers them
RUBY, SAPPHIRE, EMERALD, FIRE_RED, LEAF_GREEN = 1, 2, 4, 8, 16
GROUP = {GRASS: "land", ROCK_SMASH: "rock", SURFING: "water", OLD_ROD: "fish_old",
         GOOD_ROD: "fish_good", SUPER_ROD: "fish_super"}
SLOTS = {
    "land": (20, 20, 10, 10, 10, 10, 5, 5, 4, 4, 1, 1), "water": (60, 30, 5, 4, 1),
    "rock": (60, 30, 5, 4, 1), "fish_old": (70, 30), "fish_good": (60, 20, 20),
    "fish_super": (40, 40, 15, 4, 1),
}
SAFARI = {RUBY: (89, 90, 91, 92), SAPPHIRE: (89, 90, 91, 92), EMERALD: (20, 72, 73, 74, 97, 98)}
MASK = 0xFFFFFFFF
MULT, ADD = 0x41C64E6D, 0x6073


class Rng:
    def __init__(self, seed):
        self.seed = seed

    def u16(self):
        self.seed = (self.seed * MULT + ADD) & MASK
        return self.seed >> 16

    def rand(self, bound):
        return self.u16() % bound

    def jump(self, count):
        mult, add = MULT, ADD
        count &= MASK
        while count:
            if count & 1:
                self.seed = (self.seed * mult + add) & MASK
            add = (add * mult + add) & MASK
            mult = mult * mult & MASK
            count >>= 1


def personal(repo):
    """game -> list of (hp, atk, def, spa, spd, spe, types, gender ratio, abilities)"""
    tables = {}
    for game, name in ((RUBY, "rs"), (SAPPHIRE, "rs"), (EMERALD, "e"), (FIRE_RED, "fr"),
                       (LEAF_GREEN, "lg")):
        path = os.path.join(repo, "numba_pokemon_prngs/resources/bin/personal/personal_" + name)
        with open(path, "rb") as handle:
            data = handle.read()
        table = []
        for at in range(0, len(data), 28):
            raw = struct.unpack_from("<6B2B", data, at)
            hp, attack, defense, speed, special_attack, special_defense, type_1, type_2 = raw
            table.append({
                "base": (hp, attack, defense, special_attack, special_defense, speed),
                "types": (type_1, type_2), "ratio": data[at + 16],
                "abilities": (data[at + 22], data[at + 23])})
        tables[game] = table
    return tables


@functools.lru_cache(None)
def names(repo, kind):
    with open(os.path.join(repo, "numba_pokemon_prngs/resources/txt/%s_en.txt" % kind),
              encoding="utf-8-sig", newline="") as handle:
        return [line.rstrip("\r") for line in handle.read().split("\n")]


def text(state):
    """What is shown for an encounter"""
    (advance, pid, species, form, level, nature, ivs, ability, ability_index, sex, _, stats,
     power, strength, _) = state
    fields = {
        "Advance": advance, "Species": names(REPO, "species")[species] + ("-%d" % form if form else ""),
        "Level": level, "PID": "%08X" % pid, "Nature": names(REPO, "natures")[nature],
        "Ability": "%s (%d)" % (names(REPO, "abilities")[ability_index], ability),
        "IVs": "/".join(map(str, ivs)), "Stats": "/".join(map(str, stats)),
        "HP": "%s (%d)" % (names(REPO, "types")[power + 1], strength), "Gender": "♂♀-"[sex],
    }
    return ", ".join("%s: %s" % pair for pair in fields.items())


def gender(pid, ratio):
    if ratio == 255:
        return 2
    if ratio == 254:
        return 1
    if ratio == 0:
        return 0
    return int(pid & 255 < ratio)


def shiny(pid, tsv):
    value = (pid >> 16) ^ (pid & 0xFFFF) ^ tsv
    return 2 if value == 0 else 1 if value < 8 else 0


def letter(pid):
    bits = "".join(format(pid >> shift & 3, "02b") for shift in (24, 16, 8, 0))
    return int(bits, 2) % 28


RAISED = (1, 2, 5, 3, 4)  # attack, defense, speed, special attack, special defense


def described(advance, pid, species, form, level, ivs, tsv, info):
    nature = pid % 25
    stats = []
    for i in range(6):
        stat = (2 * info["base"][i] + ivs[i]) * level // 100
        if i == 0:
            stat += level + 10
        else:
            stat += 5
            up, down = RAISED[nature // 5], RAISED[nature % 5]
            if up != down:
                if i == up:
                    stat = stat * 110 // 100
                if i == down:
                    stat = stat * 90 // 100
        stats.append(stat)
    ordered = [ivs[i] for i in (0, 1, 2, 5, 3, 4)]
    power = sum((iv & 1) << i for i, iv in enumerate(ordered)) * 15 // 63
    strength = 30 + sum((iv >> 1 & 1) << i for i, iv in enumerate(ordered)) * 40 // 63
    first = pid % 6
    best, value = first, 0
    for i in range(first, first + 6):
        if ordered[i % 6] > value:
            best, value = i % 6, ordered[i % 6]
    ability = pid & 1
    state = [advance, pid, species, form, level, nature, list(ivs), ability,
             info["abilities"][ability], gender(pid, info["ratio"]), shiny(pid, tsv), stats,
             power, strength, best * 5 + value % 5]
    return state + [text(state)]


class Search:
    """config: method encounter lead game tid sid; area as encounters.decode_gen3 gives it"""

    def __init__(self, config, area, tables):
        self.method, self.encounter, self.lead, self.game = config[:4]
        self.tsv = config[4] ^ config[5]
        if self.game != EMERALD:
            self.lead = NONE
        self.area, self.table = area, tables[self.game]
        self.group = GROUP[self.encounter]
        self.slots = area[self.group]
        wanted = {MAGNET: 8, STATIC: 13}.get(self.lead)
        self.modified = [slot for slot in self.slots
                         if wanted in self.table[slot[2] & 0x3FF]["types"]] if wanted else []
        self.safari = area["location"] in SAFARI.get(self.game, ())
        self.rate = area["rock_rate"] * 16

    def one(self, seed, advance):
        rng = Rng(seed)
        if self.encounter == ROCK_SMASH and self.game in (RUBY, SAPPHIRE, EMERALD):
            if rng.rand(2880) >= self.rate:
                return None
        slot = None
        if self.lead in (MAGNET, STATIC) and rng.rand(2) == 0 and self.modified:
            slot = self.modified[rng.rand(len(self.modified))]
        if slot is None:
            pick, total = rng.rand(100), 0
            for slot, chance in zip(self.slots, SLOTS[self.group]):
                total += chance
                if pick < total:
                    break
        low, high, species = slot
        form, species = species >> 11, species & 0x7FF
        extra = rng.rand(high - low + 1)
        level = low + extra
        if self.lead == PRESSURE:
            if rng.rand(2) == 0:
                level = high
            elif extra:
                level -= 1
        info = self.table[species]
        charm = False
        if self.lead in (CUTE_F, CUTE_M) and 0 < info["ratio"] < 254:
            charm = rng.rand(3) != 0
        if self.safari:
            rng.u16()
        if self.lead <= 24:
            nature = self.lead if rng.rand(2) == 0 else rng.rand(25)
        else:
            nature = rng.rand(25)
        while True:
            pid = rng.u16()
            pid |= rng.u16() << 16
            if pid % 25 != nature:
                continue
            if charm and (pid & 255 >= info["ratio"]) != (self.lead == CUTE_F):
                continue
            if species == 201 and letter(pid) != form:
                continue
            break
        if self.method == 3:
            rng.u16()
        first = rng.u16()
        if self.method == 4:
            rng.u16()
        second = rng.u16()
        ivs = (first & 31, first >> 5 & 31, first >> 10 & 31, second >> 5 & 31,
               second >> 10 & 31, second & 31)
        return described(advance, pid, species, form, level, ivs, self.tsv, info)

    def run(self, seed, delay, start, count):
        rng = Rng(seed)
        rng.jump(start + delay)
        found = []
        for advance in range(start, start + count):
            state = self.one(rng.seed, advance)
            rng.u16()
            if state is not None:
                found.append(state)
        return found
