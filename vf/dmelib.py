"""Generators shared by the dual-mode encryption and transfer properties."""
import json, os
from functools import lru_cache
from .gens import *
from . import refs, build

S = refs.S
ZMAX = (S.p >> 10) - 1  # largest integer message
FRESH_KINDS = ["messy", "dec", "rnd", "pts"]


@lru_cache(None)
def hard(shift=10):
    """messages whose first candidate coordinates are all off the curve, found by an offline search (corpus/hard.json)"""
    t = json.load(open(os.path.join(build.HERE, "corpus", "hard.json")))
    return [int(v, 16) for v in t[str(shift)]]


def message_int(r, shift=10):
    top = (S.p >> shift) - 1
    k = r.int(0, 9)
    if k == 0:
        return top - r.int(0, 5)
    if k == 1:
        return r.int(0, 5)
    if k == 2:
        return r.pick(hard(shift))
    if k < 5:
        return nat(r, 0, 256 - shift) % (top + 1)
    if k == 5:
        return shaped(r) % (top + 1)
    if k < 8:
        return r.getrandbits(128)
    return integer(r, S.p, signed=False) % (top + 1)


def crs(r, kinds=FRESH_KINDS):
    k = r.pick(kinds)
    d = dict(kind=k)
    if k == "pts":
        d["e"] = exponents(r)
    if r.chance(0.3):
        d["copies"] = r.int(1, 2)
    return d


def crs_cmds(d, name="c"):
    """builds the reference string register"""
    if d["kind"] == "pts":
        cmds = ["crspts %s %s" % (name, " ".join(P(S.mulG(e)) for e in d["e"]))]
    elif d["kind"] == "rnd":
        cmds = ["crsrnd " + name]
    else:
        cmds = ["crsmode %s %s" % (name, d["kind"])]
    for i in range(d.get("copies", 0)):
        cmds.append(["crscopy %s %s", "crsasg %s %s"][i % 2] % (name, name))
    return cmds


def valid_crs(d):
    return d["kind"] != "pts" or valid_exponents(d["e"])


def message(r, ints=0.4, inf=0.12):
    """["z", integer] or a point description"""
    return ["z", message_int(r)] if r.chance(ints) else point(r, "s", inf)


def related(r, m):
    """a message that has to do with m: the same, the opposite, the double, a neighbour, a near miss"""
    if m[0] == "z":
        v = m[1]
        return ["z", abs(r.pick((v, v, v + 1, v - 1, 2 * v, v >> 1, v ^ 1, ZMAX - v, nudge(r, v, 246), nudge(r, v, 246), nudge(r, v, 246)))) % (ZMAX + 1)]
    if m[0] == "k":
        a = m[1]
        return ["k", r.pick((a, a, a, -a, -a, 2 * a, a + 1, a - 1, -2 * a, a * (S.n + 1) // 2)) % S.n or 1]
    if m[0] == "x":
        return ["x", m[1], r.int(0, 1)] if r.chance(0.8) else ["x", (m[1] + r.pick((1, -1))) % S.p, m[2]]
    return list(m)


def message_like(r, pool, ints=None, inf=0.12):
    """a message, often related to one of the pool; kept in the pool. ints: None for either kind, or whether to make integers"""
    c = [m for m in pool if ints is None or (m[0] == "z") == ints]
    m = related(r, r.pick(c)) if c and r.chance(0.45) else message(r, 0.4 if ints is None else float(ints), inf)
    pool.append(m)
    return m


def publics(c, keys=()):
    """the values everybody sees, as messages: the points of a reference string with known exponents (the description of the string
    or its exponents) and of public keys (branch, secret key) made on it"""
    e = c if isinstance(c, list) else c["e"] if c["kind"] == "pts" else []
    l = list(e)
    for b, sk in keys if e else ():
        l += 2 * [e[b] * sk, e[2 + b] * sk]
    return [["k", v % S.n] for v in l if v % S.n]


def walk(r, n, ints):
    """n messages, each having to do with the one before"""
    l = [message(r, float(ints), 0)]
    while len(l) < n:
        l.append(related(r, l[-1]) if r.chance(0.9) else message(r, float(ints), 0))
    return [list(m) for m in l]


def made_key(r):
    """a secret key chosen by the harness; public keys of other parties can come from any"""
    return r.weighted((2, lambda: r.int(1, 8)), (1, lambda: S.n - r.int(1, 8)), (1, lambda: r.pick(((S.n + 1) // 2, (S.n - 1) // 2))), (1, lambda: residue(r, S.n) or 1), (2, lambda: r.int(1, S.n - 1)))


def exponents(r):
    """of a reference string, distinct; sometimes small or close to the order"""
    while True:
        e = [r.int(1, S.n - 1) if r.chance(0.7) else (made_key(r) // 4 * 4 + i) % S.n or 4 for i in range(4)]
        if valid_exponents(e):
            return e


def valid_exponents(e):
    """distinct, and the string is messy: no key opens both branches"""
    return len(e) == 4 and len(set(e)) == 4 and all(0 < x < S.n for x in e) and (e[0] * e[3] - e[1] * e[2]) % S.n != 0


def valid_message(m):
    return 0 <= m[1] <= ZMAX if m[0] == "z" else m[0] != "k" or 0 < m[1] < S.n


def encoded(m, shift=10):
    """the point of an integer message: first candidate on the curve (the reference encoding)"""
    x = m << shift
    while S.lift(x) is None:
        x += 1
    return x
