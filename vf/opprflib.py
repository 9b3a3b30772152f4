"""Inputs of the range-threshold protocol."""
from .gens import *
from .dmelib import crs, crs_cmds, valid_crs
from . import refs

S = refs.S
BITS = 16
TOP = (1 << BITS) - 1
CRS_KINDS = ["rnd", "rnd", "messy", "dec", "pts"]
OPEN = "transfers in the clear (failures count only if the real ones show them): "
EDGES = [0, 1, 2, 3, 127, 128, 255, 256, 257, 0x5555, 0xAAAA, 0x7FFF, 0x8000, 0x8001, 0xFF00, 0x00FF, TOP - 1, TOP]


def word(r):
    return r.weighted((3, lambda: r.int(0, TOP)), (1, lambda: r.pick(EDGES)), (1, lambda: 1 << r.int(0, 15)), (1, lambda: TOP ^ (1 << r.int(0, 15))))


def diverging(r, bit, over):
    """a threshold and an input that agree above the given bit and differ there; over: the input is the larger one"""
    prefix = word(r) >> (bit + 1) << (bit + 1) if bit < BITS - 1 else 0
    low = (1 << bit) - 1
    a = r.weighted((2, lambda: r.int(0, low)), (1, lambda: 0), (1, lambda: low))
    b = r.weighted((2, lambda: r.int(0, low)), (1, lambda: 0), (1, lambda: low))
    big, small = prefix | 1 << bit | a, prefix | b
    return (small, big) if over else (big, small)


def below(r):
    """threshold, input not above it"""
    k = r.int(0, 5)
    if k == 0:
        t = word(r)
        return t, t
    if k == 1:
        t = max(1, word(r))
        return t, t - 1
    if k == 2:
        t = word(r)
        return t, r.pick((0, t >> 1, t & 0xFF, t & 0xFF00))
    return diverging(r, r.int(0, 15), False)


def above(r):
    k = r.int(0, 5)
    if k == 0:
        t = min(TOP - 1, word(r))
        return t, t + 1
    if k == 1:
        t = min(TOP - 1, word(r))
        return t, r.pick((TOP, t | 1 << r.pick([i for i in range(16) if not t >> i & 1])))
    return diverging(r, r.int(0, 15), True)


def secret(r):
    return r.weighted((5, lambda: ["k", r.int(1, S.n - 1)]), (1, lambda: ["inf"]), (1, lambda: ["k", r.int(1, 30)]), (2, lambda: point(r, "s", 0)))


def surroundings(r):
    """everything but threshold and input"""
    return dict(crs=crs(r, CRS_KINDS), burn=[burn(r), r.int(0, 2000), r.int(0, 1 << 30)], ga=secret(r))


def valid_surroundings(d):
    return valid_crs(d["crs"]) and len(d["burn"]) == 3 and min(d["burn"]) >= 0 and (d["ga"][0] != "k" or 0 < d["ga"][1] < S.n)


def start(d, seed=None):
    return ["burn %d %d %d" % tuple(d["burn"])] + (["crspts c " + " ".join(P(S.mulG(e)) for e in d["crs"]["e"])] if d["crs"]["kind"] == "pts" else ["crs c " + d["crs"]["kind"]])


def table(ga, cache={}):
    """baby steps j*ga, j < 256, and giant steps 256*i*ga"""
    if ga not in cache:
        if len(cache) > 8:
            cache.clear()
        small, p = {}, None
        for j in range(256):
            small.setdefault(p, j)
            p = S.add(p, ga)
        big, q = [], None
        for i in range(256):
            big.append(S.neg(q))
            q = S.add(q, p)
        cache[ga] = (small, big)
    return cache[ga]


def multiple(d, ga):
    """the j in 0..65535 with d == j*ga, or None"""
    small, big = table(ga)
    for i, g in enumerate(big):
        j = small.get(S.add(d, g))
        if j is not None:
            return 256 * i + j
    return None
