"""Distances in closed form: x -> A**n x over GF(2), for the reference models.

States of at most 128 bits use matrix squares; the two big twisters use their minimal
polynomial (found by Berlekamp-Massey from the model's own output, once per process).
"""

_cache = {}


# ------------------------------------------------------------------ small states
def matrix_power_apply(key, bits, step, state, count):
    """step applied count times to state (an integer of `bits` bits); step is linear"""
    squares = _cache.setdefault(("matrix", key), [])
    if not squares:
        squares.append([step(1 << i) for i in range(bits)])
    i = 0
    while count:
        if i == len(squares):
            last = squares[-1]
            squares.append([apply(last, column) for column in last])
        if count & 1:
            state = apply(squares[i], state)
        count >>= 1
        i += 1
    return state


def apply(matrix, vector):
    result = 0
    while vector:
        low = vector & -vector
        result ^= matrix[low.bit_length() - 1]
        vector ^= low
    return result


# ------------------------------------------------------------------ polynomials over GF(2)
def berlekamp_massey(bits):
    """Minimal polynomial (an integer, bit i the coefficient of x**i) of a bit sequence"""
    connection, previous, length, gap = 1, 1, 0, 1
    count = len(bits)
    whole = int("".join(map(str, bits)), 2)  # bit count-1-n is bits[n]
    for n in range(count):
        window = whole >> (count - 1 - n) & ((1 << (length + 1)) - 1)
        if (connection & window).bit_count() & 1:
            if 2 * length <= n:
                connection, previous = connection ^ previous << gap, connection
                length, gap = n + 1 - length, 1
                continue
            connection ^= previous << gap
        gap += 1
    # reverse: the characteristic form
    return int(bin(connection)[2:].zfill(length + 1)[::-1], 2)


SPREAD = [
    sum((byte >> i & 1) << (2 * i) for i in range(8)).to_bytes(2, "little") for byte in range(256)
]


class Modulus:
    def __init__(self, poly):
        self.poly = poly
        self.degree = poly.bit_length() - 1
        # table[b] cancels a top byte b standing at x**degree
        singles = []
        value = poly
        for _ in range(8):
            singles.append(value)
            value <<= 1
        self.table = []
        for byte in range(256):
            rest, quotient = byte << self.degree, 0
            for i in range(7, -1, -1):
                if rest >> (self.degree + i) & 1:
                    rest ^= singles[i]
                    quotient ^= singles[i]
            self.table.append(quotient)

    def reduce(self, value):
        while True:
            excess = value.bit_length() - self.degree
            if excess <= 0:
                return value
            shift = max(0, excess - 8)
            value ^= self.table[value >> (self.degree + shift)] << shift

    def power(self, count):
        """x**count modulo the polynomial"""
        result = 1
        for bit in bin(count)[2:]:
            size = (result.bit_length() + 7) // 8
            raw = b"".join([SPREAD[b] for b in result.to_bytes(size, "little")])
            result = int.from_bytes(raw, "little")
            if bit == "1":
                result <<= 1
            result = self.reduce(result)
        return result


def coefficients(poly):
    return [i for i, c in enumerate(bin(poly)[:1:-1]) if c == "1"]


def combine(indices, data, stride, length):
    result = 0
    for i in indices:
        at = i * stride
        result ^= int.from_bytes(data[at : at + length], "little")
    return result


# ------------------------------------------------------------------ MT19937
def mt_words(words, count):
    """The sequence of state words from a block of 624 of them"""
    x = list(words)
    for k in range(len(x), count):
        y = (x[k - 624] & 0x80000000) | (x[k - 623] & 0x7FFFFFFF)
        x.append(x[k - 227] ^ (y >> 1) ^ (0x9908B0DF if y & 1 else 0))
    return x


def mt_modulus():
    if "mt" not in _cache:
        x = mt_words([(i * 0x9E3779B9 + 12345) & 0xFFFFFFFF for i in range(624)], 40200)
        _cache["mt"] = Modulus(berlekamp_massey([word & 1 for word in x[1:]]))
    return _cache["mt"]


def mt_jump(words, blocks):
    """The block of 624 words `blocks` refills later"""
    if blocks < 40:
        return mt_words(words, 624 * (blocks + 1))[-624:]
    modulus = mt_modulus()
    # bit 0..30 of the first word are not part of the recursion: start one word later
    x = mt_words(words, 1 + modulus.degree + 624)[1:]
    data = b"".join([word.to_bytes(4, "little") for word in x])
    total = combine(coefficients(modulus.power(624 * blocks - 1)), data, 4, 2496)
    raw = total.to_bytes(2496, "little")
    return [int.from_bytes(raw[i : i + 4], "little") for i in range(0, 2496, 4)]


# ------------------------------------------------------------------ SFMT19937
def sfmt_modulus(words_of):
    if "sfmt" not in _cache:
        first = [pow(3, 200 + i, (1 << 128) - 159) for i in range(156)]
        x = words_of(first, 40400)
        _cache["sfmt"] = Modulus(berlekamp_massey([word & 1 for word in x]))
    return _cache["sfmt"]


def sfmt_jump(words, blocks, words_of):
    """The block of 156 128-bit words `blocks` refills later"""
    if blocks < 40:
        return words_of(words, 156 * (blocks + 1))[-156:]
    modulus = sfmt_modulus(words_of)
    x = words_of(words, modulus.degree + 156)
    data = b"".join([word.to_bytes(16, "little") for word in x])
    total = combine(coefficients(modulus.power(156 * blocks)), data, 16, 2496)
    raw = total.to_bytes(2496, "little")
    return [int.from_bytes(raw[i : i + 16], "little") for i in range(0, 2496, 16)]
