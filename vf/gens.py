"""Generators. Integers travel as Python ints; points as (x, y) pairs or None, computed by the reference curves."""
import glob, json, os, re
from functools import lru_cache
from . import build, refs


def z(n):
    """an integer in the drivers' syntax"""
    return ("-0x%x" % -n) if n < 0 else "0x%x" % n


def literals():
    """numeric literals of the library's sources (checksum tables and comments left out)"""
    vals = set()
    for p in build.sources() + build.headers():
        t = open(p, errors="replace").read()
        t = re.sub(r"static const uint32_t \w+\[256\]\s*=\s*\{.*?\};", "", t, flags=re.S)
        t = re.sub(r"const uint32_t crc32_tab\[\]\s*=\s*\{.*?\};", "", t, flags=re.S)
        t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
        t = re.sub(r"//[^\n]*", "", t)
        for m in re.findall(r"(?<![\w.])0[xX]([0-9a-fA-F']+)", t):
            vals.add(int(m.replace("'", ""), 16))
        for m in re.findall(r"(?<![\w.])0[bB]([01']+)", t):
            vals.add(int(m.replace("'", ""), 2))
        for m in re.findall(r"(?<![\w.])\d[\d']*(?=[uUlL]*(?![\w.]))", t):
            if len(m) < 80:
                vals.add(int(m.replace("'", "")))
        for m in re.findall(r'"([0-9a-fA-F]{4,})"', t):
            vals.add(int(m, 16))
    return vals


def spread_out(vals):
    out = set()
    for v in vals:
        out |= {v, v - 1, v + 1, 1 << v if v < 600 else v, (1 << v) - 1 if 0 < v < 600 else v}
    return out


@lru_cache(None)
def dictionary():
    """the literals and their neighbours, as in a fuzzing dictionary"""
    return sorted(spread_out(literals()))


@lru_cache(None)
def novel():
    """literals that the sources did not have when corpus/literals.json was written: generation leans towards them (as a
    directed fuzzer leans towards changed code); there are none on the tree the corpus was made from"""
    old = {int(v, 16) for v in json.load(open(os.path.join(build.HERE, "corpus", "literals.json")))}
    new = literals() - old
    return sorted(spread_out(new) - {v for v in spread_out(old) if v not in new})


def lean(r, lo, hi):
    """a novel literal in lo..hi, or None; None always if there are none"""
    if hi - lo < 8 or not novel() or not r.chance(0.12):
        return None
    c = [v for v in novel() if lo <= v <= hi] + [-v for v in novel() if v and lo <= -v <= hi]
    if not c:
        return None
    v = r.pick(c)
    if v > 0 and r.chance(0.3):  # as the low or the high part of something longer
        room = hi.bit_length() - v.bit_length() - 1
        if room > 0:
            w = v << r.int(0, room) if r.chance(0.5) else r.getrandbits(room) << v.bit_length() | v
            if lo <= w <= hi:
                return w
    return v


BITS = sorted({8, 10, 15, 16, 20, 24, 31, 32, 33, 48, 63, 64, 65, 96, 112, 120, 127, 128, 129, 136, 160, 191, 192, 193, 200, 224, 246, 248, 252, 253, 254, 255, 256,
               257, 264, 320, 384, 512, 520})


@lru_cache(None)
def special(*mods):
    v = set(range(0, 18)) | {100, 255, 256, 257, 1000, 65535, 65536}
    for b in BITS:
        v |= {1 << b, (1 << b) - 1, (1 << b) + 1, (1 << b) - 2}
    for m in mods:
        for k in range(0, 4):
            v |= {m - k, m + k, 2 * m - k, 2 * m + k}
        v |= {(m - 1) // 2, (m + 1) // 2, m // 2 - 1, m // 3, m * m, m * m - 1, m * m + 1, m >> 1, m >> 10, (m >> 10) - 1, m >> 20, (m >> 20) - 1, 3 * m, 5 * m + 1,
              m << 64, (m - 1) * (m - 1), pow(2, -1, m), pow(3, -1, m), m ^ 1, m & -m}
        for b in (32, 64, 128, 192):
            v |= {m >> b, m & ((1 << b) - 1), m - (1 << b), m + (1 << b), (m >> b) << b}
    return sorted(v)


def nat(r, lo, hi):
    """a natural with a bit length spread evenly over lo..hi"""
    v = lean(r, 0, (1 << hi) - 1)
    if v is not None:
        return v
    b = r.int(lo, hi)
    return r.getrandbits(b) | 1 << (b - 1) if b else 0


def shaped(r, maxbits=256):
    """bit patterns: a few powers of two, runs of ones, repeated bytes, empty low limbs, missing high limbs"""
    k = r.int(0, 3)
    if k == 0:
        return abs(sum(r.pick((1, 1, -1)) << r.randrange(maxbits) for _ in range(r.int(1, 4))))
    if k == 1:
        return (((1 << r.int(1, maxbits)) - 1) << r.int(0, maxbits)) & ((1 << maxbits) - 1)
    if k == 2:
        return int.from_bytes(bytes([r.int(1, 255)]) * r.int(1, maxbits // 8), "big")
    return sum(r.pick((0, 1, (1 << 64) - 1, 1 << 63, r.getrandbits(64))) << (64 * i) for i in range(r.int(1, max(1, maxbits // 64))))


def integer(r, *mods, signed=True, maxbits=600):
    v = lean(r, 0, (1 << maxbits) - 1)
    if v is not None:
        return -v if signed and r.chance(0.25) else v
    k = r.int(0, 9)
    if k < 3:
        v = r.pick(special(*mods))
        if k == 2:
            v = abs(v + r.int(-3, 3))
    elif k < 5:
        v = r.randrange(max(mods)) if mods else nat(r, 0, 256)
    elif k == 5:
        v = shaped(r)
    elif k == 6:
        v = nat(r, 0, maxbits)
    elif k == 7:
        v = r.int(0, 300)
    elif k == 8:
        v = r.pick(dictionary())
    else:
        v = r.pick(mods) - shaped(r) if mods else shaped(r, max(64, maxbits))
        if v < 0 and not signed:
            v = -v
    if not signed:
        v = abs(v)
    if v.bit_length() > maxbits:
        v &= (1 << maxbits) - 1
    return -v if signed and r.chance(0.25) else v


def residue(r, m):
    """an element of [0, m), edges often"""
    return integer(r, m) % m


def nudge(r, v, bits=256):
    """a near miss: another value that shares limbs, low, high or middle bits, the length or the parity with v"""
    k = r.int(0, 9)
    if k == 0:
        return v ^ 1 << r.randrange(bits)
    if k == 1:
        return v + r.pick((1, -1)) * (r.int(1, 40) << r.pick((8, 16, 32, 63, 64, 65, 96, 128, 160, 192, 224, r.randrange(bits))))
    if k == 2:
        return v + r.pick((1, -1)) * r.int(1, 1000)
    if k == 3:  # the low part kept
        b = r.pick((8, 16, 32, 64, 128, 192, r.int(1, bits - 1)))
        return v & ((1 << b) - 1) | r.getrandbits(bits - b) << b
    if k == 4:  # the high part kept
        b = r.pick((8, 32, 64, 128, 192, r.int(1, bits - 1)))
        return v >> b << b | r.getrandbits(b)
    if k == 5:  # one limb replaced
        i = 64 * r.randrange(max(1, bits // 64))
        return v ^ r.getrandbits(64) << i
    if k == 6:  # two limbs exchanged
        l = [v >> 64 * i & (1 << 64) - 1 for i in range(max(2, bits // 64))]
        i, j = r.randrange(len(l)), r.randrange(len(l))
        l[i], l[j] = l[j], l[i]
        return sum(x << 64 * i for i, x in enumerate(l))
    if k == 7:
        return v << r.pick((1, 8, 64)) if r.chance(0.5) else v >> r.pick((1, 8, 64))
    if k == 8:  # two bits, so that sums of parts may stay equal
        return v ^ 1 << r.randrange(bits) ^ 1 << r.randrange(bits)
    return int.from_bytes(v.to_bytes((max(v, 1).bit_length() + 7) // 8, "big")[::-1], "big") if v >= 0 else -v


def pair(r, m):
    """two integers, often related: equal, opposite, inverse, summing to 0, 1, m or m-1, near misses, products about m"""
    x = integer(r, m)
    k = r.int(0, 25)
    if k > 13:
        return x, integer(r, m)
    if k > 11:
        return x, nudge(r, x % m)
    if k > 9:  # the product of the representatives is just below or above a power of two or a multiple of m
        v = x % m or 1
        return v, r.pick((m, 2 * m, 1 << m.bit_length(), 1 << 256, m * m >> 256, 1 << 64 * r.int(1, 7))) // v + r.pick((0, 0, 1, -1))
    v = x % m
    y = [v, -v, m - v, pow(v, -1, m) if v else 0, 2 * v, (m - 1) // 2 - v, v + m, m - 1 - v, v * v % m, -x][k]
    return x, y + r.pick((0, 0, 0, 1, -1, 2))


# --- points are described by ["inf"], ["k", multiple of G] or ["x", x, which root]; x moves up to the next one on the curve
def point(r, cn, inf=0.1):
    c = refs.CURVES[cn]
    if r.chance(inf):
        return ["inf"]
    k = r.int(0, 6)
    if k == 0:
        return ["k", r.int(1, 40)]
    if k == 1:
        return ["k", r.pick([c.n - i for i in range(1, 8)] + [(c.n + 1) // 2, (c.n - 1) // 2, 1 << (c.n.bit_length() - 1), c.n // 3])]
    if k < 4:
        return ["k", r.int(1, c.n - 1)]
    if k == 4:
        return ["x", r.int(0, 300), r.int(0, 1)]
    if k == 5:
        return ["x", c.p - r.int(1, 60), r.int(0, 1)]
    return ["x", residue(r, c.p), r.int(0, 1)]


@lru_cache(50000)
def _pt(cn, kind, a, b):
    c = refs.CURVES[cn]
    if kind == "k":
        return c.mulG(a)
    x = a % c.p
    while True:
        y = c.lift(x)
        if y is not None:
            return (x, (c.p - y) % c.p if b else y)
        x = (x + 1) % c.p


def pt(cn, d):
    """the coordinates of a described point"""
    if d[0] == "inf":
        return None
    return _pt(cn, d[0], d[1], d[2] if len(d) > 2 else 0)


def P(p):
    """a point in the drivers' syntax"""
    return "inf" if p is None else "%s %s" % (z(p[0]), z(p[1]))


def T(p):
    return None if p is None else tuple(p)


class Words:
    """reader of an answer"""

    def __init__(self, w):
        self.w, self.i = w, 0

    def s(self):
        self.i += 1
        return self.w[self.i - 1]

    def x(self):
        return int(self.s(), 16)

    def d(self):
        return int(self.s())

    def pt(self):
        if self.w[self.i] == "inf":
            self.i += 1
            return None
        return (self.x(), self.x())

    def rest(self):
        return self.w[self.i:]


def rd(ans):
    return Words(ans)


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


def hexb(b):
    return bytes(b).hex() or "-"


def burn(r):
    """how many values to draw from the library's generator first, so that cases see different random states"""
    return 0 if r.chance(0.3) else r.int(1, 3000)


def expect(got, want, what):
    from .driver import Fail
    if got != want:
        def sh(v):
            if isinstance(v, bool) or v is None:
                return repr(v)
            if isinstance(v, int):
                return "0x%x" % v if abs(v) > 99999 else str(v)
            if isinstance(v, (tuple, list)):
                return "(" + ", ".join(sh(i) for i in v) + ")"
            return repr(v)
        raise Fail("%s: got %s, expected %s" % (what, sh(got), sh(want)))


def require(c, what):
    from .driver import Fail
    if not c:
        raise Fail(what)


from .engine import R
R.lean = lean
