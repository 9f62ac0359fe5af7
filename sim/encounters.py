"""The encounter resource files: an independent decoder, and a writer of synthetic ones.

Nothing here uses the code under test.  decode() gives plain Python values by section.
"""

import hashlib
import json
import os
import random
import re
import struct

GAMES = {"RUBY": ("rs", "Ruby"), "SAPPHIRE": ("rs", "Sapphire"), "EMERALD": ("e", None),
         "FIRE_RED": ("frlg", "FireRed"), "LEAF_GREEN": ("frlg", "LeafGreen")}
GROUPS = (("land", 12), ("water", 5), ("rock", 5), ("fish_old", 2), ("fish_good", 3),
          ("fish_super", 5))
UNOWN = {
    "MONEAN": [0] * 11 + [27],
    "LIPTOO": [2, 2, 2, 3, 3, 3, 7, 7, 7, 20, 20, 14],
    "WEEPTH": [13] * 4 + [18] * 4 + [8, 8, 4, 4],
    "DILFORD": [15, 15, 11, 11, 9, 9, 17, 17, 17, 16, 16, 16],
    "SCUFIB": [24, 24, 19, 19, 6, 6, 6, 5, 5, 5, 10, 10],
    "RIXY": [21] * 3 + [22] * 3 + [23, 23, 12, 12, 1, 1],
    "VIAPOIS": [25] * 11 + [26],
}
BOOSTS = (15, 15, 15, 20, 20)
LA = "encount/la/"


def f32(value):
    return struct.unpack("<f", struct.pack("<f", value))[0]


# ------------------------------------------------------------------ real files
def real_resources(repo):
    root = os.path.join(repo, "numba_pokemon_prngs", "resources")
    found = {}
    for top in ("encount", "txt"):
        for directory, _, names in os.walk(os.path.join(root, top)):
            for name in names:
                if name.endswith((".json", ".bin", ".txt")):
                    path = os.path.join(directory, name)
                    with open(path, "rb") as handle:
                        found[os.path.relpath(path, root)] = handle.read()
    found.setdefault(LA + "spawner_names.json", b'{"2": {"1234605616436508552": "0001"}}')
    return found


# ------------------------------------------------------------------ generation 3
def species_list(resources):
    lines = resources["txt/species_en.txt"].decode("utf-8-sig").splitlines()
    special = {"Nidoran♂": "NIDORAN_M", "Nidoran♀": "NIDORAN_F"}
    return ["SPECIES_" + special.get(line, line.upper()) for line in lines]


def map_name(text):
    words = []
    for word in text.replace("MAP_", "").replace("_", " ").split():
        for kind in ("Route", "Room"):
            found = re.match(kind + r"(\d+)", word, re.I)
            if found:
                words.append(kind + " " + found.group(1))
                break
        else:
            if not re.match(r"B\d+F|\d+F|\d+R", word):
                word = word[:1].upper() + word[1:].lower()
            words.append(word)
    return " ".join(words)


def decode_gen3(resources, game):
    prefix, wanted = GAMES[game]
    document = json.loads(resources["encount/%s_wild_encounters.json" % prefix].decode("utf-8"))
    index = {}
    for number, name in enumerate(species_list(resources)):
        index.setdefault(name, number)
    names, areas = [], []
    for entry in document["wild_encounter_groups"][0]["encounters"]:
        label = entry["base_label"]
        if wanted and wanted not in label:
            continue
        area = {"location": 0, "land_rate": 0, "water_rate": 0, "rock_rate": 0, "fish_rate": 0}
        for group, size in GROUPS:
            area[group] = [(0, 0, 0)] * size
        areas.append(area)
        if (re.match("gAlteringCave[2-9]", label) or re.search("AlteringCave_[2-9]", label)
                or "Unused" in label):
            names.append("")
            continue
        names.append(map_name(entry["map"]))
        area["location"] = len(names) - 1
        forms = None
        for chamber, letters in UNOWN.items():
            if entry["map"] == "MAP_SEVEN_ISLAND_TANOBY_RUINS_%s_CHAMBER" % chamber:
                forms = letters
        for key, rate, groups in (
            ("land_mons", "land_rate", [("land", 0, 12)]),
            ("water_mons", "water_rate", [("water", 0, 5)]),
            ("rock_smash_mons", "rock_rate", [("rock", 0, 5)]),
            ("fishing_mons", "fish_rate",
             [("fish_old", 0, 2), ("fish_good", 2, 5), ("fish_super", 5, 10)]),
        ):
            if key not in entry:
                continue
            area[rate] = entry[key]["encounter_rate"]
            slots = []
            for i, slot in enumerate(entry[key]["mons"]):
                species = index[slot["species"]]
                if forms and key == "land_mons":
                    species |= forms[i] << 11
                slots.append((slot["min_level"], slot["max_level"], species))
            for group, start, stop in groups:
                part = slots[start:stop]
                area[group] = part + [(0, 0, 0)] * (stop - start - len(part))
    return names, areas


# ------------------------------------------------------------------ flatbuffers
class Table:
    def __init__(self, data, at):
        self.data, self.at = data, at
        self.vtable = at - struct.unpack_from("<i", data, at)[0]
        self.size = struct.unpack_from("<H", data, self.vtable)[0]

    def where(self, field):
        offset = 4 + 2 * field
        if offset >= self.size:
            return None
        inner = struct.unpack_from("<H", self.data, self.vtable + offset)[0]
        return self.at + inner if inner else None

    def get(self, field, code, default=None):
        at = self.where(field)
        return default if at is None else struct.unpack_from("<" + code, self.data, at)[0]

    def table(self, field):
        at = self.where(field)
        return None if at is None else Table(self.data, at + struct.unpack_from("<I", self.data, at)[0])

    def tables(self, field):
        at = self.where(field)
        if at is None:
            return []
        at += struct.unpack_from("<I", self.data, at)[0]
        count = struct.unpack_from("<I", self.data, at)[0]
        out = []
        for i in range(count):
            here = at + 4 + 4 * i
            out.append(Table(self.data, here + struct.unpack_from("<I", self.data, here)[0]))
        return out


def root(data):
    return Table(data, struct.unpack_from("<I", data, 0)[0])


SIZES = {"b": 1, "B": 1, "i": 4, "f": 4, "Q": 8}


def build(fields):
    """A whole file from nested {field: (code, value)}; codes T and V are tables and vectors"""
    out = bytearray(4)

    def table(content):
        count = max(content) + 1 if content else 0
        vtable = len(out)
        out.extend(struct.pack("<HH", 4 + 2 * count, 0) + b"\0\0" * count)
        at = len(out)
        out.extend(struct.pack("<i", at - vtable))
        pending = []
        for field in sorted(content):
            code, value = content[field]
            struct.pack_into("<H", out, vtable + 4 + 2 * field, len(out) - at)
            if code in SIZES:
                out.extend(struct.pack("<" + code, value))
            else:
                pending.append((len(out), code, value))
                out.extend(b"\0\0\0\0")
        struct.pack_into("<H", out, vtable + 2, len(out) - at)
        for here, code, value in pending:
            if code == "T":
                struct.pack_into("<I", out, here, table(value) - here)
            else:
                start = len(out)
                struct.pack_into("<I", out, here, start - here)
                out.extend(struct.pack("<I", len(value)) + b"\0\0\0\0" * len(value))
                for i, child in enumerate(value):
                    slot = start + 4 + 4 * i
                    struct.pack_into("<I", out, slot, table(child) - slot)
        return at

    struct.pack_into("<I", out, 0, table(fields))
    return bytes(out)


# ------------------------------------------------------------------ Legends Arceus
def multipliers(table, time_at, weather_at):
    return ([table.get(time_at + i, "f", 0.0) for i in range(4)],
            [1.0] + [table.get(weather_at + i, "f", 0.0) for i in range(8)])


def decode_la(resources):
    species = {}
    for entry in root(resources[LA + "poke_encount.bin"]).tables(0):
        species[entry.get(0, "i"), entry.get(1, "i", 0)] = multipliers(entry, 2, 6)
    misc = {}
    for entry in root(resources[LA + "poke_misc.bin"]).tables(0):
        misc[entry.get(0, "i"), entry.get(1, "i", 0)] = entry.get(6, "i", 0)
    sections = {
        "multipliers": sorted([k[0], k[1], v[0], v[1]] for k, v in species.items()),
        "misc": sorted([k[0], k[1], v] for k, v in misc.items()),
    }
    for area in range(1, 6):
        tables = {}
        for entry in root(resources[LA + "ha_area%02d_encounter.bin" % area]).tables(0):
            slots = []
            for slot in entry.tables(3):
                key = slot.get(0, "i"), slot.get(3, "i") or 0
                levels = []
                alpha_table = slot.table(46)
                alpha = any(alpha_table.get(i, "b", 0) for i in range(2))
                for own, general in ((30, 1), (31, 2)):
                    level = slot.get(own, "i", 0)
                    if not 1 <= level <= 100:
                        level = entry.get(general, "i")
                    levels.append(level + (BOOSTS[misc[key] - 1] if alpha else 0))
                own = multipliers(slot.table(45), 7, 11)
                baked = []
                for mine, default in zip(own, species[key]):
                    both = [b if a < 0 else a for a, b in zip(mine, default)]
                    baked.append([1.0 if value < 0 else value for value in both])
                slots.append([key[0], slot.get(2, "i", 0) & 255, key[1], levels[0], levels[1],
                              slot.get(25, "i") or 0, slot.get(29, "i"), int(alpha)] + baked)
            tables[entry.get(0, "Q")] = slots
        sections["la:%d" % area] = sorted([k, v] for k, v in tables.items())
        spawners = {}
        groups = {}
        for entry in root(resources[LA + "ha_area%02d_spawner.bin" % area]).tables(0):
            where = entry.tables(2)[0].table(7)
            flags = [entry.get(i, "b") for i in (10, 11, 12)]
            described = [
                entry.get(0, "Q"), entry.get(1, "Q"), [where.get(i, "f") for i in range(3)],
                entry.get(7, "i"), entry.get(8, "i"),
                [None if flag is None else bool(flag) for flag in flags],
                entry.tables(20)[0].get(0, "Q"),
            ]
            spawners[described[0]] = described
            groups[described[1]] = described[0]
        sections["spawners:%d" % area] = [
            sorted(spawners.values(), key=repr), sorted(groups.items(), key=repr)]
    sections["lottery"] = sorted(
        [entry.get(0, "Q"), [[d.get(0, "Q") for d in entry.tables(i)] for i in (1, 2, 3)]]
        for entry in root(resources[LA + "new_huge_outbreak_group_lottery.bin"]).tables(0))
    sections["groups"] = sorted(
        [entry.get(0, "Q"), [w.get(7, "Q") for w in entry.tables(1)], entry.get(2, "Q")]
        for entry in root(resources[LA + "new_huge_outbreak_group.bin"]).tables(0))
    for name in ("spawner_names", "encounter_table_names"):
        def numbers(document):
            return {int(k): numbers(v) if isinstance(v, dict) else v for k, v in document.items()}

        sections[name] = plain(numbers(json.loads(resources[LA + name + ".json"].decode("utf-8"))))
    return sections


def plain(value):
    """Comparable form of nested dicts"""
    if isinstance(value, dict):
        return sorted([k, plain(v)] for k, v in value.items())
    return value


def decode(resources):
    """section -> plain value"""
    sections = {}
    for game in GAMES:
        names, areas = decode_gen3(resources, game)
        sections["names:" + game] = names
        sections["areas:" + game] = [
            [area[key] for key in ("location", "land_rate", "water_rate", "rock_rate", "fish_rate")]
            + [[list(slot) for slot in area[group]] for group, _ in GROUPS] for area in areas]
    sections.update(decode_la(resources))
    return sections


def fingerprint(value):
    return hashlib.sha256(repr(value).encode()).hexdigest()[:24]


# ------------------------------------------------------------------ synthetic files
WORDS = ["LITTLEROOT", "TOWN", "MT_MOON", "CAVE", "SEAFOAM_ISLANDS", "B1F", "2F", "3R", "ROUTE103",
         "ROOM2", "SAFARI_ZONE", "RIVER", "4F", "B12F", "ROUTE7A", "ROOM_9", "POKEMON_TOWER"]


def synthetic(seed, species_text, big=False):
    rng = random.Random(seed)
    many = rng.sample(["rs", "e", "frlg", 1, 2, 3, 4, 5], 3) if big else ()
    resources = {"txt/species_en.txt": species_text}
    names = species_list(resources)[1:387]
    for i in ("abilities", "natures", "types"):
        resources["txt/%s_en.txt" % i] = b"One\nTwo\n"

    def mons(count):
        out = []
        for _ in range(count if rng.random() < 0.9 else rng.randrange(count + 1)):
            low = rng.randrange(1, 90)
            out.append({"min_level": low, "max_level": low + rng.randrange(10),
                        "species": rng.choice(names)})
        return {"encounter_rate": rng.randrange(1, 180), "mons": out}

    for prefix, labels in (("rs", ["%s_Ruby", "%s_Sapphire"]), ("e", ["g%s"]),
                           ("frlg", ["s%s_FireRed", "s%s_LeafGreen"])):
        entries = []
        for number in range(700 if prefix in many else rng.randrange(2, 6)):
            words = rng.sample(WORDS, rng.randrange(1, 4))
            map_ = "MAP_" + "_".join(words)
            base = "".join(words).title().replace("_", "")
            if rng.random() < 0.15:
                base = ("AlteringCave%d" if prefix == "e" else "AlteringCave_%d") % rng.randrange(1, 10)
            elif rng.random() < 0.1:
                base += "Unused"
            elif prefix == "frlg" and rng.random() < 0.4:
                map_ = "MAP_SEVEN_ISLAND_TANOBY_RUINS_%s_CHAMBER" % rng.choice(sorted(UNOWN))
            for label in labels:
                entry = {"map": map_, "base_label": label % base}
                for key, size in (("land_mons", 12), ("water_mons", 5), ("rock_smash_mons", 5),
                                  ("fishing_mons", 10)):
                    if rng.random() < 0.6:
                        entry[key] = mons(size)
                entries.append(entry)
        resources["encount/%s_wild_encounters.json" % prefix] = json.dumps(
            {"wild_encounter_groups": [{"label": "a", "encounters": entries}]}).encode()

    keys = [(rng.randrange(1, 900), rng.choice([0, 0, 1, 2])) for _ in range(8)]

    def rate():
        return f32(rng.choice([-1.0, -1.0, 0.0, 1.0, rng.random() * 3]))

    def identity(key, form_needed=False):
        content = {0: ("i", key[0])}
        if key[1] or form_needed:
            content[1] = ("i", key[1])
        return content

    def rates(content, time_at, weather_at):
        for start, count in ((time_at, 4), (weather_at, 8)):
            for i in range(count):
                if rng.random() < 0.9:
                    content[start + i] = ("f", rate())
        return content

    resources[LA + "poke_encount.bin"] = build(
        {0: ("V", [rates(identity(key), 2, 6) for key in dict.fromkeys(keys)])})
    misc = []
    for key in dict.fromkeys(keys):
        content = identity(key)
        content[6] = ("i", rng.randrange(1, 6))
        misc.append(content)
    resources[LA + "poke_misc.bin"] = build({0: ("V", misc)})
    identifiers = [rng.choice([rng.getrandbits(64), rng.getrandbits(63) | 1 << 63, rng.getrandbits(20)])
                   for _ in range(40)]
    for area in range(1, 6):
        tables, spawners = [], []
        for _ in range(150 if area in many else rng.randrange(1, 4)):
            slots = []
            for _ in range(rng.randrange(1, 4)):
                key = rng.choice(keys)
                slot = {0: ("i", key[0]), 29: ("i", rng.randrange(1, 500)),
                        45: ("T", rates({}, 7, 11)),
                        46: ("T", {i: ("b", 1) for i in range(2) if rng.random() < 0.25})}
                if key[1] or rng.random() < 0.2:
                    slot[3] = ("i", key[1])
                if rng.random() < 0.5:
                    slot[2] = ("i", rng.randrange(-1, 3))
                if rng.random() < 0.5:
                    slot[25] = ("i", rng.randrange(4))
                for field in (30, 31):
                    if rng.random() < 0.5:
                        slot[field] = ("i", rng.choice([-1, 0, 1, 100, 101, rng.randrange(1, 90)]))
                slots.append(slot)
            low = rng.randrange(1, 70)
            tables.append({0: ("Q", rng.choice(identifiers)), 1: ("i", low), 2: ("i", low + 9),
                           3: ("V", slots)})
        resources[LA + "ha_area%02d_encounter.bin" % area] = build({0: ("V", tables)})
        for _ in range(rng.randrange(1, 4)):
            content = {
                0: ("Q", rng.choice(identifiers)), 1: ("Q", rng.choice(identifiers)),
                2: ("V", [{7: ("T", {i: ("f", f32(rng.uniform(-900, 900))) for i in range(3)})}]),
                7: ("i", rng.randrange(3)), 8: ("i", rng.randrange(3, 6)),
                20: ("V", [{0: ("Q", rng.choice(identifiers))}])}
            for field in (10, 11, 12):
                if rng.random() < 0.6:
                    content[field] = ("b", rng.randrange(2))
            spawners.append(content)
        resources[LA + "ha_area%02d_spawner.bin" % area] = build({0: ("V", spawners)})

    def some(maker):
        return ("V", [maker() for _ in range(rng.randrange(4))])

    def hashed():
        return {0: ("Q", rng.choice(identifiers))}

    resources[LA + "new_huge_outbreak_group_lottery.bin"] = build({0: ("V", [
        hashed() | {1: some(hashed), 2: some(hashed), 3: some(hashed)}
        for _ in range(2)])})
    resources[LA + "new_huge_outbreak_group.bin"] = build({0: ("V", [
        hashed() | {1: some(lambda: {7: ("Q", rng.choice(identifiers))}),
                    2: ("Q", rng.choice(identifiers))} for _ in range(2)])})
    resources[LA + "spawner_names.json"] = json.dumps(
        {str(i): "s%d" % i for i in identifiers[:3]}).encode()
    resources[LA + "encounter_table_names.json"] = json.dumps(
        {str(i): "t%d" % i for i in identifiers[:5]}).encode()
    # identifiers may repeat within a file: let duplicates be rare but present
    return resources


def vary(resources, seed, count):
    """Another version: change the content of a few files only"""
    rng = random.Random(seed)
    resources = dict(resources)
    for _ in range(count):
        name = rng.choice(["txt/species_en.txt", LA + "poke_encount.bin", LA + "poke_misc.bin",
                           "encount/rs_wild_encounters.json", "encount/e_wild_encounters.json",
                           "encount/frlg_wild_encounters.json"]
                          + [LA + "ha_area%02d_encounter.bin" % i for i in range(1, 6)])
        data = resources[name]
        if name.endswith(".txt"):
            lines = data.decode("utf-8").splitlines()
            used = json.loads(resources["encount/e_wild_encounters.json"])
            i, j = rng.sample(range(1, 387), 2)
            for entry in used["wild_encounter_groups"][0]["encounters"]:
                for value in entry.values():
                    if isinstance(value, dict) and value["mons"] and rng.random() < 0.5:
                        wanted = value["mons"][0]["species"][8:].lower()
                        for k, line in enumerate(lines):
                            if line.lower() == wanted and k != j:
                                i = k
            lines[i], lines[j] = lines[j], lines[i]
            resources[name] = ("\n".join(lines)).encode("utf-8")
        elif name.endswith(".json"):
            # same length: one digit of a level or rate differs
            places = [m.start(1) for m in re.finditer(rb'(?:_level|_rate)": \d*(\d)', data)]
            if not places:
                continue
            at = rng.choice(places)
            digit = rng.choice([d for d in b"123456789" if d != data[at]])
            resources[name] = data[:at] + bytes([digit]) + data[at + 1:]
        else:
            changed = bytearray(data)
            places = float_places(name, data)
            if not places:
                continue
            for code, at in rng.sample(places, min(len(places), rng.randrange(1, 9))):
                if code == "f":
                    old = struct.unpack_from("<f", data, at)[0]
                    struct.pack_into("<f", changed, at, f32(rng.choice(
                        [v for v in (-1.0, 0.5, 2.0, 7.25) if v != old])))
                else:
                    old = struct.unpack_from("<i", data, at)[0]
                    struct.pack_into("<i", changed, at, old % 5 + 1)
            resources[name] = bytes(changed)
    return resources


def float_places(name, data):
    """Where values that may change freely are"""
    places = []

    def add(table, fields, code):
        for field in fields:
            at = table.where(field)
            if at is not None:
                places.append((code, at))

    for entry in root(data).tables(0):
        if name.endswith("poke_encount.bin"):
            add(entry, range(2, 14), "f")
        elif name.endswith("poke_misc.bin"):
            add(entry, [6], "i")
        else:
            for slot in entry.tables(3):
                add(slot, [29], "i")
                add(slot.table(45), range(7, 19), "f")
    return places


if __name__ == "__main__":
    import sys
    import time

    started = time.time()
    sections = decode(real_resources(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
    print({k: len(v) for k, v in sections.items()}, time.time() - started)
    species = real_resources("/repo")["txt/species_en.txt"]
    started = time.time()
    for seed in range(200):
        base = synthetic(seed, species)
        first = decode(base)
        second = decode(vary(base, seed, 2))
        changed = [k for k in first if first[k] != second[k]]
        if seed < 8:
            print(sum(map(len, base.values())), changed)
    print(time.time() - started)
