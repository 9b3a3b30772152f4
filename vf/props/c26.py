"""C26: the checksum against the bitwise definition."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk

_T = [refs.crc32c(bytes([i])) for i in range(256)]


def table_crc(data, c=0):
    for b in data:
        c = c >> 8 ^ _T[(c ^ b) & 255]
    return c


def buf(r, most=300):
    k = r.int(0, 6)
    n = r.weighted((2, lambda: r.int(0, 12)), (2, lambda: r.int(0, 70)), (1, lambda: r.int(0, most)), (1, lambda: 8 * r.int(0, 12) + r.int(-2, 2) if True else 0))
    n = max(0, n)
    if k == 0:
        return bytes(n)
    if k == 1:
        b = bytearray(n)
        if n:
            b[r.int(0, n - 1)] = r.int(1, 255)
        return bytes(b)
    if k == 2:
        return bytes([r.int(0, 255)]) * n
    return r.getrandbits(8 * n).to_bytes(n, "big") if n else b""


def start(r):
    return r.weighted((2, lambda: 0), (1, lambda: (1 << 32) - 1), (2, lambda: r.getrandbits(32)), (1, lambda: 1 << r.int(0, 31)))


def gen(r):
    return dict(bufs=[[start(r), r.int(0, 17), "hex:" + buf(r).hex(), r.int(0, 100)] for _ in range(r.int(1, 6))])


def valid(d):
    return d["bufs"] and all(len(b) == 4 and 0 <= b[0] < 1 << 32 and 0 <= b[1] <= 64 and 0 <= b[3] <= 100 for b in d["bufs"])


def check(case, ctx):
    def crc(s, al, b):
        w = ctx.one("crc %s %d %s" % (z(s), al, b.hex() or "-"))
        expect(w[1], "1", "buffer left as it was")
        return int(w[0], 16)
    for s, al, h, cut in case["bufs"]:
        b = bytes.fromhex(h[4:])
        want = (refs.crc32c if len(b) < 400 else table_crc)(b, s)
        expect(crc(s, al, b), want, "checksum of %d bytes at alignment %d from start value %08x" % (len(b), al, s))
        i = len(b) * cut // 100
        expect(crc(crc(s, al, b[:i]), (al + 5 * cut) % 16, b[i:]), want, "checksum of %d bytes continued over the next %d" % (i, len(b) - i))
        ctx.label("%s bytes" % ("0-3" if len(b) < 4 else "4-7" if len(b) < 8 else "8-15" if len(b) < 16 else "16 or more"))
        ctx.label("alignment %d" % (al % 4))


def plan(r, n):
    """every length up to 80 at every alignment up to 8, a few contents each"""
    cases = []
    per = max(1, n // (81 * 9))
    for _ in range(per):
        for l in range(81):
            for al in range(9):
                cases.append(dict(bufs=[[start(r), al, "hex:" + (r.getrandbits(8 * l).to_bytes(l, "big") if l else b"").hex(), r.int(0, 100)]]))
    return cases


FACETS = [
    Facet("grid", "d_crc", check, 729, 7290, plan=plan, valid=valid, nontrivial=lambda d: len(d["bufs"][0][2]) > 4, rule="every length 0-80 at every alignment 0-8, random contents and start values, one split each; non-trivial unless empty"),
    Facet("random", "d_crc", check, 7000, 110000, gen=gen, valid=valid, nontrivial=lambda d: any(len(b[2]) > 12 for b in d["bufs"]), rule="1-6 buffers of 0-300 bytes, sparse, constant and random; non-trivial if one is longer than 4 bytes"),
    Facet("long", "d_crc", check, 200, 2000, gen=lambda r: dict(bufs=[[start(r), r.int(0, 17), "hex:" + r.getrandbits(8 * (n := r.int(300, 9000))).to_bytes(n, "big").hex(), r.int(0, 100)]]), valid=valid, rule="300-9000 bytes; every case counts as non-trivial"),
    bulk.facet("bulk", "d_crc", lambda c: "crc", 48, 2400, 50000, "buffers of 0-3000 bytes at any alignment, whole and split, against a table checksum"),
]
