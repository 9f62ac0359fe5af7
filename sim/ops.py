"""Applies model operations to the real objects (imports the code under test lazily).

A spec and an op mean the same as in models.py.  `style` chooses how a client writes its
arguments: "np" numpy scalars of the documented types, "int" plain Python integers.
"""

import functools
import os
import sys

import numpy as np

MODE = os.environ.get("SIM_MODE", "numpy")

U8, U16, U32, U64 = np.uint8, np.uint16, np.uint32, np.uint64
I32, F32 = np.int32, np.float32

_cache = {}


def classes():
    if "classes" not in _cache:
        from numba_pokemon_prngs import lcrng, mersenne_twister, xorshift

        found = {name: getattr(lcrng, name) for name in (
            "PokeRNGMod", "PokeRNGDiv", "PokeRNGRMod", "PokeRNGRDiv", "ARNG", "ARNGR",
            "XDRNG", "XDRNGR", "BWRNG", "BWRNGR",
        )}
        found["mt"] = mersenne_twister.MersenneTwister
        found["sfmt"] = mersenne_twister.SIMDFastMersenneTwister
        found["tiny"] = mersenne_twister.TinyMersenneTwister
        found["xs"] = xorshift.Xorshift128
        found["Xoroshiro128PlusRejection"] = xorshift.Xoroshiro128PlusRejection
        found["SplitMixXoroshiro128Plus"] = xorshift.SplitMixXoroshiro128Plus
        _cache["classes"] = found
    return _cache["classes"]


def class_name(spec):
    return spec.get("cls", spec["k"])


DTYPES = {
    ("lcrng32", "next"): U32, ("lcrng32", "next_u16"): U16,
    ("lcrng64", "next"): U64, ("lcrng64", "next_u32"): U32,
    ("mt", "next"): U32, ("sfmt", "next"): U64, ("tiny", "next"): U32,
    ("xs", "next"): U32, ("xs", "previous"): U32,
    ("Xoroshiro128PlusRejection", "next"): U64,
    ("Xoroshiro128PlusRejection", "previous"): U64,
    ("SplitMixXoroshiro128Plus", "next"): U32,
    ("SplitMixXoroshiro128Plus", "previous"): U32,
}


def list_class(spec):
    rng, fn, size = spec["rng"], spec["fn"], spec["size"]
    key = ("list", class_name(rng), fn, size)
    if key not in _cache:
        from numba_pokemon_prngs.rng_list import build_rnglist

        kind = class_name(rng)
        if rng["k"] == "lcrng":
            kind = "lcrng64" if rng["cls"].startswith("BW") else "lcrng32"
        _cache[key] = build_rnglist(
            rng_class=classes()[class_name(rng)],
            next_function_name=fn,
            state_type=DTYPES[kind, fn],
            size=size,
        )
    return _cache[key]


def const(cls, which, value):
    key = (which, cls, value)
    if key not in _cache:
        wide = cls.startswith("BW")
        make = getattr(classes()[cls], which)
        if value % 5 == 1:  # options are for the compiler, and mean nothing without it
            make = functools.partial(make, **({"nogil": True} if value % 10 == 1 else {"inline": "never"}))
        if which == "const_jump":
            _cache[key] = make((U64 if wide else U32)(value) if value % 2 else value)
        else:
            _cache[key] = make((U32 if wide else U16)(value) if value % 2 else value)
    return _cache[key]


def plain(value):
    if value is None:
        return None
    if isinstance(value, (bool, np.bool_)):
        return bool(value)
    if isinstance(value, (int, np.integer)):
        return int(value)
    if isinstance(value, (float, np.floating)):
        return float(value)
    if isinstance(value, np.ndarray):
        return [plain(v) for v in value]
    if isinstance(value, (tuple, list)):
        return [plain(v) for v in value]
    return repr(value)


class Spent(BaseException):
    pass


class Budget:
    """Ends an operation of pure Python code after a fixed number of lines"""

    def __init__(self, lines):
        self.left = lines

    def __enter__(self):
        mon = sys.monitoring
        self.events = mon.events.LINE | mon.events.PY_START
        mon.use_tool_id(4, "budget")
        for event in (mon.events.LINE, mon.events.PY_START):
            mon.register_callback(4, event, self.tick)
        mon.set_events(4, self.events)

    def tick(self, *_):
        self.left -= 1
        if self.left < 0 and self.events:
            sys.monitoring.set_events(4, 0)
            self.events = 0
            raise Spent()

    def __exit__(self, *_):
        mon = sys.monitoring
        mon.set_events(4, 0)
        for event in (mon.events.LINE, mon.events.PY_START):
            mon.register_callback(4, event, None)
        mon.free_tool_id(4)


class Thing:
    """A real object and the operations on it"""

    def __init__(self, spec, style="np", others=None):
        self.spec, self.kind = spec, spec["k"]
        self.others = others
        self.int_style = style == "int"
        self.obj = self.build(spec)

    def t(self, kind, value):
        if self.int_style and 0 <= value < 1 << 63:
            return value
        return kind(value)

    def build(self, spec):
        kind, args = spec["k"], spec.get("args", [])
        t = self.t
        if kind == "lcrng":
            self.wide = spec["cls"].startswith("BW")
            self.cls = spec["cls"]
            return classes()[spec["cls"]](t(U64 if self.wide else U32, args[0]))
        if kind in ("mt", "sfmt", "tiny"):
            return classes()[kind](t(U32, args[0]))
        if kind == "xs":
            return classes()[kind](*[t(U32, a) for a in args])
        if kind == "xo":
            self.split = spec["cls"] == "SplitMixXoroshiro128Plus"
            return classes()[spec["cls"]](*[t(U64, a) for a in args])
        if kind == "list":
            if "share" in spec:  # a second list on the same generator
                self.rng = self.others[spec["share"]].rng
            else:
                self.rng = Thing(spec["rng"], "int" if self.int_style else "np")
            return list_class(spec)(self.rng.obj)
        if kind == "sha1":
            from numba_pokemon_prngs.enums import DSType, Game, Language
            from numba_pokemon_prngs.sha1 import SHA1

            self.alphas = []
            version, language, ds_type, mac, soft, v_frame, gx_state = args
            return SHA1(
                Game(version), Language(language), DSType(ds_type), t(U64, mac), bool(soft),
                t(U8, v_frame), t(U8, gx_state),
            )
        raise AssertionError(kind)

    def apply(self, op):
        if op[0] == "huge":
            return self.huge(*op[1:])
        if op[0] == "drain":
            folded = 0
            for _ in range(op[1]):
                folded = (folded * 31 + int(self.obj.next())) & 0xFFFFFFFFFFFFFFFF
            return folded
        return plain(getattr(self, "do_" + self.kind)(op[0], op[1:]))

    def huge(self, count, seeds):
        """An advance cut off after a number of executed lines: -1, or the next value"""
        try:
            with Budget(20000):
                self.apply(["advance", count])
            value = self.apply(["next"])
        except Spent:
            value = -1
        self.apply(["re_init"] + seeds)
        return value

    # ---------------------------------------------------------------- per kind
    def do_lcrng(self, name, args):
        obj, t = self.obj, self.t
        word = U64 if self.wide else U32
        half = U32 if self.wide else U16
        if name == "next":
            return obj.next()
        if name == "jump":
            return obj.jump(t(word, args[0]))
        if name == "cjump":
            return const(self.cls, "const_jump", args[0])(obj)
        if name == "advance":
            return obj.advance(t(word, args[0]))
        if name == "u16":
            return obj.next_u16()
        if name == "u32":
            return obj.next_u32()
        if name == "rand":
            return obj.next_rand(t(half, args[0]))
        if name == "crand":
            return const(self.cls, "const_rand", args[0])(obj)
        if name == "re_init":
            return obj.re_init(t(word, args[0]))
        if name == "state":
            return [int(obj.seed)]
        raise AssertionError(name)

    def do_mt(self, name, args):
        obj, t = self.obj, self.t
        if name == "next":
            return obj.next()
        if name == "rand":
            return obj.next_rand(t(U64 if self.kind == "sfmt" else U32, args[0]))
        if name == "rand_mod":
            return obj.next_rand_mod(t(U32, args[0]))
        if name == "advance":
            return obj.advance(t(U32, args[0]))
        if name == "temper":
            return obj.temper()
        if name == "re_init":
            return obj.re_init(t(U32, args[0]))
        raise AssertionError(name)

    do_sfmt = do_tiny = do_mt

    def do_xs(self, name, args):
        obj, t = self.obj, self.t
        if name == "next":
            return obj.next()
        if name == "previous":
            return obj.previous()
        if name == "rand":
            return obj.next_rand(t(U32, args[0]))
        if name == "randrange":
            return obj.next_randrange(I32(args[0]), I32(args[1]))
        if name == "alt":
            return obj.next_alternate_rand(t(U32, args[0]))
        if name == "float":
            return obj.next_float_randrange(F32(args[0] / 64), F32(args[1] / 64))
        if name == "advance":
            return obj.advance(t(U32, args[0]))
        if name == "re_init":
            return obj.re_init(*[t(U32, a) for a in args])
        raise AssertionError(name)

    def do_xo(self, name, args):
        obj, t = self.obj, self.t
        if name == "next":
            return obj.next()
        if name == "previous":
            return obj.previous()
        if name == "rand":
            return obj.next_rand(t(U32, args[0]))
        if name == "advance":
            return obj.advance(t(U64, args[0]))
        if name == "re_init":
            return obj.re_init(*[t(U64, a) for a in args])
        raise AssertionError(name)

    def do_list(self, name, args):
        obj, t = self.obj, self.t
        if name == "get":
            return obj.get_value()
        if name == "move":
            return obj.advance(t(U32, args[0]))
        if name == "slide":
            return obj.advance_state()
        if name == "slides":
            return obj.advance_states(t(U32, args[0]))
        if name == "re_init":
            return obj.re_init()
        if name == "rng":
            return self.rng.apply(args[0])
        if name == "odd":  # a list of a size that need not be possible, on a generator of its own
            try:
                other = Thing(args[0], "int" if self.int_style else "np")
            except Exception:
                return "refused"
            return [other.apply(op) for op in args[1]]
        raise AssertionError(name)

    def do_sha1(self, name, args):
        obj, t = self.obj, self.t
        if name == "button":
            return obj.set_button(t(U32, args[0]))
        if name == "date":
            year, month, day, dow = args
            return obj.set_date(t(U16, year), t(U8, month), t(U8, day), t(U8, dow))
        if name == "timer":
            return obj.set_timer0(t(U32, args[0]), t(U8, args[1]))
        if name == "time":
            return obj.set_time(*[t(U8, a) for a in args])
        if name == "pre":
            self.alpha = obj.precompute()
            self.alphas.append(self.alpha)
            return None
        if name == "hashk":  # with what an earlier precomputation returned
            kept = (self.others[args[1]] if len(args) > 1 else self).alphas
            if args[0] > len(kept):
                return None
            return obj.hash_seed(kept[-args[0]])
        if name == "hash":
            return obj.hash_seed(self.alpha)
        raise AssertionError(name)

    # ---------------------------------------------------------------- public state
    def save(self):
        """What a client would write down to continue later"""
        obj = self.obj
        if self.kind == "lcrng":
            return {"seed": int(obj.seed)}
        if self.kind in ("mt", "sfmt"):
            return {"state": [int(v) for v in obj.state], "index": int(obj.index)}
        if self.kind in ("tiny", "xs", "xo"):
            return {"state": [int(v) for v in obj.state]}
        raise AssertionError(self.kind)

    def restore(self, saved):
        obj = self.obj
        if self.kind == "lcrng":
            obj.seed = (U64 if self.wide else U32)(saved["seed"])
            return
        word = U64 if self.kind == "xo" else U32
        obj.state[:] = np.array(saved["state"], dtype=word)
        if "index" in saved:
            obj.index = U16(saved["index"])


def quiet(spec):
    """A spec of the same kind with an unrelated seed: what a restored object starts from"""
    other = dict(spec)
    if spec["k"] != "sha1":
        other["args"] = [0x5A5A5A5A ^ i for i, _ in enumerate(spec["args"])]
    return other
