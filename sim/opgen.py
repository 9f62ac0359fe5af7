"""Seeded generation of operations for each kind of object"""

import models

LC32 = ["PokeRNGMod", "PokeRNGDiv", "PokeRNGRMod", "PokeRNGRDiv", "ARNG", "ARNGR", "XDRNG", "XDRNGR"]
LC64 = ["BWRNG", "BWRNGR"]
XO = ["Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus"]

# list classes compiled ahead in numba mode (each costs a second or two to compile)
LIST_POOL = [
    ({"k": "lcrng", "cls": "PokeRNGMod"}, "next_u16", 256),
    ({"k": "lcrng", "cls": "PokeRNGRDiv"}, "next", 4),
    ({"k": "lcrng", "cls": "BWRNG"}, "next_u32", 1),
    ({"k": "mt"}, "next", 512),
    ({"k": "sfmt"}, "next", 64),
    ({"k": "xo", "cls": "Xoroshiro128PlusRejection"}, "next", 128),
    ({"k": "xs"}, "next", 2),
]


def word(rng, bits):
    """Edge values as often as ordinary ones"""
    top = (1 << bits) - 1
    pick = rng.random()
    if pick < 0.45:
        return rng.getrandbits(bits)
    if pick < 0.6:
        return rng.choice([0, 1, 2, 3, top, top - 1])
    if pick < 0.8:
        return (1 << rng.randrange(bits)) + rng.choice([-1, 0, 0, 1]) & top
    return rng.getrandbits(rng.randrange(1, bits + 1))


def bound(rng, bits):
    return max(1, word(rng, bits))


def seed_args(rng, spec):
    kind = spec["k"]
    if kind == "lcrng":
        return [word(rng, 64 if spec["cls"] in LC64 else 32)]
    if kind in ("mt", "sfmt", "tiny"):
        return [word(rng, 32)]
    if kind == "xs":
        if rng.random() < 0.06:  # few different words, among them only zeros
            pool = [word(rng, 32), rng.choice([0, word(rng, 32)])]
            return [0] * 4 if rng.random() < 0.2 else [rng.choice(pool) for _ in range(4)]
        return [word(rng, 32) for _ in range(4)]
    if kind == "xo":
        if spec["cls"] == "SplitMixXoroshiro128Plus":
            return [word(rng, 64)]
        if rng.random() < 0.4:
            return [word(rng, 64)]
        if rng.random() < 0.06:
            same = word(rng, 64)
            return rng.choice([[0, 0], [same, same], [same, 0], [0, same], [same, -same & models.M64],
                               [same, same ^ models.M64]])
        return [word(rng, 64), word(rng, 64)]
    raise AssertionError(kind)


def aimed_args(rng, spec):
    """Seeds for which a result is an edge value, that value, and after how many steps it comes"""
    kind = spec["k"]
    steps = rng.choice([1, 1, 1, 2, 3, rng.randrange(1, 30)])
    if kind == "lcrng":
        bits = 64 if spec["cls"] in LC64 else 32
        target = word(rng, bits)
        state = target
        if rng.random() < 0.6:  # of the upper half, which next_u16 and next_u32 give
            target = rng.choice([word(rng, bits // 2), word(rng, bits // 2), (1 << bits // 2) - 1])
            state = target << bits // 2 | rng.getrandbits(bits // 2)
        return [models.LcrngModel(spec["cls"], state).step(-steps)], target, steps
    if kind == "xs":
        target = rng.choice([word(rng, 32), word(rng, 32), word(rng, 9) << 23 | rng.choice([0, 0x7FFFFF])])
        model = models.Xorshift128Model(*[word(rng, 32) for _ in range(3)], target)
        for _ in range(steps):
            model.previous()
        return model.s, target, steps
    if kind == "xo" and spec["cls"] != "SplitMixXoroshiro128Plus":
        target = word(rng, 64)
        first = word(rng, 64)
        model = models.XoroshiroModel(spec["cls"], first, target - first & models.M64)
        for _ in range(steps - 1):
            model.raw_previous()
        return model.s, target, steps
    return seed_args(rng, spec), None, 1


def generator_spec(rng, kinds):
    kind = rng.choice(kinds)
    spec = {"k": kind}
    if kind == "lcrng":
        spec["cls"] = rng.choice(LC32 + LC64 + LC64)
    elif kind == "xo":
        spec["cls"] = rng.choice(XO)
    spec["args"] = aimed_args(rng, spec)[0] if rng.random() < 0.3 else seed_args(rng, spec)
    return spec


FNS = {
    "mt": ["next"], "sfmt": ["next"], "tiny": ["next"], "xs": ["next", "previous"],
    "xo": ["next", "previous"],
}


def function(rng, base):
    if base["k"] == "lcrng":
        return rng.choice(["next", "next_u32" if base["cls"] in LC64 else "next_u16"])
    return rng.choice(FNS[base["k"]])


def list_spec(rng, mode):
    if mode == "numba":
        base, fn, size = rng.choice(LIST_POOL)
        base = dict(base)
        base["args"] = seed_args(rng, base)
        return {"k": "list", "rng": base, "fn": fn, "size": size}
    base = generator_spec(rng, ["lcrng", "mt", "sfmt", "tiny", "xs", "xo"])
    fn = function(rng, base)
    size = 1 << min(rng.randrange(0, 11), rng.randrange(0, 11))
    return {"k": "list", "rng": base, "fn": fn, "size": size}


def sha1_spec(rng):
    return {
        "k": "sha1",
        "args": [
            1 << rng.randrange(12, 16), rng.randrange(7), rng.randrange(3),
            rng.choice([rng.getrandbits(48), rng.getrandbits(48), 0, (1 << 48) - 1, 1 << 16]),
            rng.randrange(2), rng.randrange(256), rng.randrange(256),
        ],
    }


def constants(rng, bits):
    """Two constants of a client, often alike"""
    first = word(rng, bits)
    second = rng.choice([
        word(rng, bits), first ^ 1 << rng.randrange(bits), first ^ 1 << bits - 1 - rng.randrange(bits // 2),
        first & (1 << bits // 2) - 1, first & 0xFF, -first & (1 << bits) - 1, first + 1 & (1 << bits) - 1,
    ])
    return [first, second]


DRAWS = ("next", "u16", "u32", "rand", "rand_mod", "crand", "randrange", "alt", "float")


class Source:
    """Generates operations for one object, following where in its sequence it is"""

    def __init__(self, rng, spec, mode, heavy):
        self.rng, self.spec, self.mode = rng, spec, mode
        self.pos = 0
        self.heavy = heavy  # how many slow steps an operation may take
        self.consts = constants(rng, 64 if spec.get("cls") in LC64 else 32)
        if spec["k"] == "list":
            self.inner = Source(rng, spec["rng"], mode, min(heavy, 100))
        # a client mix per run, so that runs differ in kind and not only in order
        self.mix = {}
        self.target = None  # an edge value among the results to come
        self.seeds = spec.get("args")
        self.queue = []

    def reseed(self):
        rng = self.rng
        pick = rng.random()
        if pick < 0.2 and self.seeds:  # where it started last
            return ["re_init"] + self.seeds
        if pick < 0.6:
            self.seeds, self.target, steps = aimed_args(rng, self.spec)
            if self.target is not None and rng.random() < 0.7:
                if steps > 1:
                    self.queue.append(["advance", steps - 1])
                self.queue.append(None)  # a draw of that value
        else:
            self.seeds = seed_args(rng, self.spec)
        return ["re_init"] + self.seeds

    def bound(self, bits):
        """Often next to the value a result will have"""
        rng = self.rng
        if self.target and rng.random() < 0.5:
            return max(1, (self.target & (1 << bits) - 1) + rng.choice([-1, 0, 0, 1]) & (1 << bits) - 1)
        return bound(rng, bits)

    def weight(self, name, base):
        if name not in self.mix:
            self.mix[name] = base * self.rng.choice([0, 0.3, 1, 1, 1, 3])
        return self.mix[name] + 1e-6

    def choose(self, weights):
        names = sorted(weights)
        return self.rng.choices(names, [self.weight(n, weights[n]) for n in names])[0]

    def far(self, name="advance"):
        """Sometimes a distance far beyond what a test would walk"""
        rng = self.rng
        wide = self.spec["k"] == "xo" or self.spec.get("cls") in LC64
        if self.heavy < 1000:
            return None
        if self.mode != "numba":
            if name != "advance" or rng.random() > 0.02:
                return None
            top = 64 if wide else 32
            count = rng.choice([
                (1 << top) - 1 - rng.randrange(1000), (1 << top - 1) + rng.randrange(1000),
                (1 << 32) + rng.choice([-1, 0, 1, rng.randrange(2000)]), word(rng, top),
            ]) & (1 << top) - 1
            return ["huge", count, seed_args(rng, self.spec)]
        pick = rng.random()
        if pick < 0.0003:
            if wide:
                return [name, (1 << 32) + rng.randrange(-3, 5000)]
            return [name, rng.choice([(1 << 32) - 1 - rng.randrange(1000), (1 << 31) + rng.randrange(2000)])]
        if pick < 0.04:
            return [name, int(2 ** rng.uniform(14, 26))]
        return None

    def steps(self, typical):
        rng = self.rng
        if self.heavy >= 1000 and rng.random() < (0.08 if self.mode == "numba" else 0.004):
            return (1 << 16) + rng.choice([-1, 0, 1, rng.randrange(2000)])  # beyond 16 bits
        return rng.choice([0, 1, 2, rng.randrange(typical), rng.randrange(typical),
                           rng.randrange(self.heavy)])

    def op(self):
        make = getattr(self, "op_" + self.spec["k"])
        if self.queue:
            op = self.queue.pop(0)
            for _ in range(20):
                if op is not None:
                    break
                op = make()
                if op[0] not in DRAWS:
                    op = None
                    self.queue.clear()
            if op is not None:
                return op
        return make()

    def op_lcrng(self):
        rng, spec = self.rng, self.spec
        wide = spec["cls"] in LC64
        bits = 64 if wide else 32
        weights = {"next": 4, "jump": 4, "advance": 2, "half": 3, "re_init": 0.7, "state": 1, "cjump": 1}
        if not spec["cls"].startswith("ARNG"):
            weights["rand"] = 4
            weights["crand"] = 1
        name = self.choose(weights)
        if name == "jump":
            return ["jump", word(rng, bits)]
        if name == "cjump":
            return ["cjump", rng.choice(self.consts)]
        if name == "advance":
            return self.far() or ["advance", self.steps(20)]
        if name == "half":
            return ["u32" if wide else "u16"]
        if name == "rand":
            return ["rand", self.bound(bits // 2)]
        if name == "crand":
            return ["crand", max(1, rng.choice(self.consts) % (1 << (bits // 2)))]
        if name == "re_init":
            return self.reseed()
        return [name]

    def twister(self, block):
        rng = self.rng
        weights = {"next": 6, "rand": 2, "advance": 5, "re_init": 0.5, "drain": 0.3}
        if self.spec["k"] != "sfmt":
            weights["rand_mod"] = 2
        name = self.choose(weights)
        if name == "drain":
            count = rng.choice([block, 2 * block + 1, rng.randrange(1, block)])
            self.pos = (self.pos + count) % block
            return ["drain", count]
        if name == "advance":
            far = self.far()
            if far:
                self.pos = 0 if far[0] == "huge" else (self.pos + far[1]) % block
                return far
            if rng.random() < 0.6:  # land around a refill
                target = rng.choice([0, 0, -1, -1, 1, -2]) - self.pos
                count = target % block + block * rng.choice([0, 0, 0, 1, 2, rng.randrange(6)])
            elif rng.random() < (0.12 if self.mode == "numba" else 0.03) and self.heavy >= 1000:
                # beyond 16 bits
                count = (1 << 16) + rng.choice([-1, 0, 1, rng.randrange(-700, 700), rng.randrange(20000)])
                if self.spec["k"] == "tiny" and self.mode != "numba":
                    count = self.steps(block * 2)
            else:
                count = self.steps(block * 2)
            self.pos = (self.pos + count) % block
            return ["advance", count]
        if name == "re_init":
            self.pos = 0
            return self.reseed()
        self.pos = (self.pos + 1) % block
        if name == "rand":
            return ["rand", self.bound(64 if self.spec["k"] == "sfmt" else 32)]
        if name == "rand_mod":
            return ["rand_mod", self.bound(32)]
        return [name]

    def op_mt(self):
        return self.twister(624)

    def op_sfmt(self):
        return self.twister(312)

    def op_tiny(self):
        if self.rng.random() < 0.1:
            return ["temper"]
        return self.twister(8)

    def op_xs(self):
        rng = self.rng
        name = self.choose({"next": 4, "previous": 4, "rand": 2, "randrange": 2, "alt": 2,
                            "float": 2, "advance": 2, "re_init": 0.4})
        if name == "rand":
            return ["rand", self.bound(32)]
        if name == "alt":
            return ["alt", self.bound(32)]
        if name == "randrange":
            low, high = sorted(word(rng, 32) - (1 << 31) for _ in range(2))
            if low == high:
                low, high = (low - 1, high) if high > -(1 << 31) else (low, high + 1)
            return ["randrange", low, high]
        if name == "float":
            return ["float", rng.randrange(-6400, 6400), rng.randrange(-6400, 6400)]
        if name == "advance":
            return self.far() or ["advance", self.steps(20)]
        if name == "re_init":
            return self.reseed()
        return [name]

    def op_xo(self):
        rng = self.rng
        name = self.choose({"next": 4, "previous": 4, "rand": 4, "advance": 2, "re_init": 0.4})
        if name == "rand":
            return ["rand", self.bound(32)]
        if name == "advance":
            return self.far() or ["advance", self.steps(20)]
        if name == "re_init":
            return self.reseed()
        return [name]

    def op_list(self):
        rng, size = self.rng, self.spec["size"]
        name = self.choose({"get": 8, "move": 3, "slide": 3, "slides": 2, "re_init": 0.7, "rng": 1})
        if name == "move":
            return ["move", rng.choice([0, 1, size - 1, size, size + 1, rng.randrange(2 * size), word(rng, 32)])]
        if name == "slides":
            if self.mode == "numba" and rng.random() < 0.05:
                return ["slides", rng.choice([1 << 16, int(2 ** rng.uniform(14, 22))]) + rng.randrange(2000)]
            return ["slides", rng.choice([0, 1, 2, size - 1, size, size + 1, rng.randrange(3 * size)]) % 3000]
        if name == "rng":
            return ["rng", self.inner.op()]
        return [name]

    def op_sha1(self):
        rng = self.rng
        name = self.choose({"button": 2, "date": 1, "timer": 1, "time": 2, "pre": 2, "hash": 5, "hashk": 1.5})
        if name == "button":
            return ["button", word(rng, 32)]
        if name == "date":
            return self.again(
                ["date", 2000 + rng.randrange(100), rng.randrange(1, 13), rng.randrange(1, 32), rng.randrange(7)])
        if name == "timer":
            return self.again(["timer", word(rng, 16), rng.randrange(256)])
        if name == "time":
            return ["time", rng.choice([0, 11, 12, 13, 23, rng.randrange(24)]), rng.randrange(60), rng.randrange(60)]
        if name == "hashk":
            return ["hashk", rng.choice([1, 2, 2, 3, rng.randrange(1, 8)])]
        return [name]

    def again(self, op):
        """Often a value used before"""
        pool = self.mix.setdefault("pools", {}).setdefault(op[0], [])
        if pool and self.rng.random() < 0.6:
            return self.rng.choice(pool)
        pool.append(op)
        return op
