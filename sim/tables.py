"""Independent decoding of the stat table and name files (layout.json: field offsets)"""

import functools
import json
import os
import random
import struct

import encounters

TABLES_OF_GAMES = {
    "RUBY": "RS", "SAPPHIRE": "RS", "EMERALD": "E", "FIRE_RED": "FR", "LEAF_GREEN": "LG",
    "DIAMOND": "DP", "PEARL": "DP", "PLATINUM": "PT", "BLACK": "BW", "WHITE": "BW",
    "BLACK2": "B2W2", "WHITE2": "B2W2", "X": "XY", "Y": "XY", "OMEGA_RUBY": "ORAS",
    "ALPHA_SAPPHIRE": "ORAS", "SUN": "SM", "MOON": "SM", "ULTRA_SUN": "USUM",
    "ULTRA_MOON": "USUM", "SWORD": "SWSH", "SHIELD": "SWSH", "BRILLIANT_DIAMOND": "BDSP",
    "SHINING_PEARL": "BDSP", "LEGENDS_ARCEUS": "LA",
}
LISTS = {"SPECIES_EN": "species", "ABILITIES_EN": "abilities", "NATURES_EN": "natures",
         "TYPES_EN": "types"}


@functools.lru_cache(None)
def layout():
    with open(os.path.join(os.path.dirname(__file__), "layout.json")) as handle:
        return json.load(handle)


def real(repo):
    root = os.path.join(repo, "numba_pokemon_prngs", "resources")
    names = ["bin/personal/personal_" + table["file"] for table in layout().values()]
    names += ["txt/%s_en.txt" % kind for kind in LISTS.values()]
    found = {}
    for name in names:
        with open(os.path.join(root, name), "rb") as handle:
            found[name] = handle.read()
    return found


def synthetic(seed, originals):
    """Files of the same formats with other content"""
    rng = random.Random(seed)
    found = dict(originals)
    for table in layout().values():
        count = rng.choice([1, 2, 5, 5, 30, 80])
        found["bin/personal/personal_" + table["file"]] = rng.randbytes(count * table["record"])
    for kind in LISTS.values():
        name = "txt/%s_en.txt" % kind
        if rng.random() < 0.5:
            lines = ["".join(rng.choice("abcXYZ éü♂♀'-.") for _ in range(rng.randrange(1, 12))).strip() or "x"
                     for _ in range(rng.randrange(1, 400))]
            end = rng.choice(["\n", ""])
            mark = b"\xef\xbb\xbf" if kind == "species" else b""
            found[name] = mark + ("\n".join(lines) + end).encode()
    return found


def column(data, record, offset, form):
    count, _, code = form.rpartition({"<": "<", "|": "|"}["<" if "<" in form else "|"])
    kind = {"u1": "B", "u2": "H", "u4": "I", "u8": "Q", "f4": "f"}[code]
    size = struct.calcsize("<" + kind)
    assert record >= offset + size * int(count or 1)
    values = []
    for at in range(offset, len(data), record):
        got = struct.unpack_from("<%d%s" % (int(count or 1), kind), data, at)
        values.append(list(got) if count else got[0])
    return values


def decode(files):
    sections = {}
    for name, table in layout().items():
        data, record = files["bin/personal/personal_" + table["file"]], table["record"]
        sections["table:" + name] = [
            len(data) // record,
            [[field, column(data, record, offset, form)] for field, offset, form in table["fields"]]]
    for game, name in TABLES_OF_GAMES.items():
        sections["game:" + game] = sections["table:" + name]
    for name, kind in LISTS.items():
        text = files["txt/%s_en.txt" % kind].decode("utf-8-sig").replace("\r\n", "\n")
        lines = text.split("\n")
        sections["list:" + name] = lines[:-1] if lines and not lines[-1] else lines
    special = {"Nidoran♂": "NIDORAN_M", "Nidoran♀": "NIDORAN_F"}
    sections["list:CONSTANT_CASE_SPECIES_EN"] = [
        "SPECIES_" + special.get(line, line.upper()) for line in sections["list:SPECIES_EN"]]
    return sections


def with_encounters(repo):
    """The real tables and lists, and made-up encounters"""
    found = real(repo)
    return {**encounters.synthetic(1, found["txt/species_en.txt"]), **found}


def modules(repo):
    """Every module of the package"""
    found = []
    for path, _, names in os.walk(os.path.join(repo, "numba_pokemon_prngs")):
        for name in names:
            if name.endswith(".py"):
                parts = os.path.relpath(os.path.join(path, name), repo)[:-3].split(os.sep)
                if parts[-1] == "__init__":
                    parts.pop()
                found.append(".".join(parts))
    return sorted(found)
