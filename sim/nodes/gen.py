"""Node process for histories of operations on generator objects"""

import traceback
import warnings

import ops
import proto

WARM_ERRORS = []

WARM_OPS = {
    "lcrng": [["next"], ["jump", 3], ["advance", 2], ["u16"], ["u32"], ["rand", 5],
              ["re_init", 1], ["state"]],
    "mt": [["next"], ["rand", 5], ["rand_mod", 5], ["advance", 700], ["re_init", 3]],
    "sfmt": [["next"], ["rand", 5], ["advance", 700], ["re_init", 3]],
    "tiny": [["next"], ["rand", 5], ["rand_mod", 5], ["advance", 3], ["temper"], ["re_init", 3]],
    "xs": [["next"], ["previous"], ["rand", 5], ["randrange", 1, 5], ["alt", 5],
           ["float", 1, 2], ["advance", 3], ["re_init", 1, 2, 3, 4]],
    "xo": [["next"], ["previous"], ["rand", 5], ["advance", 3], ["re_init", 1]],
    "list": [["get"], ["move", 3], ["slide"], ["slides", 3], ["re_init"], ["rng", ["next"]]],
    "sha1": [["button", 1], ["date", 2010, 1, 1, 1], ["timer", 1, 1], ["time", 1, 1, 1],
             ["pre"], ["hash"]],
}


def warm(params):
    warnings.simplefilter("ignore")
    if ops.MODE != "numba":  # every life starts as new as after an import
        try:
            ops.classes()
            import numba_pokemon_prngs.rng_list
            import numba_pokemon_prngs.sha1
        except Exception:
            WARM_ERRORS.append(traceback.format_exc())
        return
    for spec in params["warm"]:
        try:
            thing = ops.Thing(spec)
        except Exception:
            WARM_ERRORS.append(traceback.format_exc())
            continue
        for op in WARM_OPS[spec["k"]]:
            if spec["k"] == "lcrng":
                wide = spec["cls"].startswith("BW")
                if op[0] == ("u16" if wide else "u32"):
                    continue
                if op[0] == "rand" and spec["cls"].startswith("ARNG"):
                    continue
            try:
                thing.apply(op)
                if spec.get("cls") == "Xoroshiro128PlusRejection" and op[0] == "re_init":
                    thing.apply(["re_init", 1, 2])
            except Exception:
                WARM_ERRORS.append(traceback.format_exc())
        if spec["k"] not in ("list", "sha1"):
            try:
                thing.restore(thing.save())
            except Exception:
                WARM_ERRORS.append(traceback.format_exc())


def life(sock, params):
    things = {}
    while True:
        message = proto.recv(sock)
        results = []
        for item in message:
            try:
                what, name = item[0], item[1]
                if what == "make":
                    things[name] = ops.Thing(item[2], item[3], things)
                    results.append(None)
                elif what == "op":
                    results.append(things[name].apply(item[2]))
                elif what == "save":
                    results.append(things[name].save())
                elif what == "restore":
                    things[name].restore(item[2])
                    results.append(None)
                else:
                    raise AssertionError(what)
            except Exception as exc:
                results.append(("error", type(exc).__name__, traceback.format_exc()[-1500:]))
                break
        proto.send(sock, results)
