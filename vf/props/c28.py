"""C28: conversions and random integers."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk
from .c24 import text
from .c26 import buf
from .c07 import bit_spread


def gen(r):
    ops = []
    for _ in range(r.int(1, 7)):
        k = r.int(0, 2)
        if k == 0:
            ops.append(["z", r.pick((text(r, 300), integer(r, refs.S.p, signed=False), nat(r, 0, 70)))])
        else:
            ops.append(["b", "hex:" + ("00" * r.int(0, 20) if r.chance(0.4) else "") + buf(r).hex()])
    return dict(ops=ops)


def check(case, ctx):
    for o in case["ops"]:
        if o[0] == "z":
            n = o[1]
            w, t = ctx("toraw " + z(n), "rawtrip " + z(n))
            b = refs.tobytes(n)
            expect(int(w[0]), len(b), "number of bytes of " + z(n))
            expect(unhex(w[1]), b, "bytes of " + z(n))
            expect(int(t[0], 16), n, "export and import of " + z(n))
            ctx.label("export of %s" % ("zero" if n == 0 else "top bit set" if n.bit_length() % 8 == 0 else "others"))
        else:
            b = bytes.fromhex(o[1][4:])
            w = ctx.one("fromraw " + hexb(b))
            expect(int(w[0], 16), int.from_bytes(b, "big"), "import of %d bytes %s" % (len(b), b.hex()[:80]))
            expect(w[1], "1", "bytes left as they were")
            ctx.label("import of %s" % ("no bytes" if not b else "leading zeros" if b[0] == 0 else "others"))


def gen_random(r):
    return dict(burn=r.int(0, 2000), bits=r.weighted((2, lambda: r.pick(BITS)), (2, lambda: r.int(1, 70)), (1, lambda: r.int(1, 700)), (1, lambda: r.pick((0, 1, 2, 128)))), n=r.int(60, 200))


def check_random(case, ctx):
    b, n = case["bits"], case["n"]
    v = [int(x, 16) for x in ctx("burn %d" % case["burn"], "getrandom %d %d" % (b, n))[1]]
    expect(len(v), n, "number of draws")
    require(all(0 <= x < 1 << b for x in v), "a random integer of %d bits is out of range" % b)
    if n >= 100 and b:
        bit_spread(v, range(b), "random integers of %d bits" % b)
    if b >= 64:
        require(len(set(v)) == n, "a random integer of %d bits repeats" % b)
    ctx.label("up to 64 bits" if b <= 64 else "65-128 bits" if b <= 128 else "more than 128 bits")


FACETS = [
    Facet("conversions", "d_crc", check, 8000, 120000, gen=gen, valid=lambda d: d["ops"] and all(o[0] == "b" or o[1] >= 0 for o in d["ops"]), nontrivial=lambda d: any(o[1] not in (0, "hex:") for o in d["ops"]),
          rule="1-7 integers of 0-300 bytes and byte strings with and without leading zeros; non-trivial if one is not empty"),
    Facet("random", "d_crc", check_random, 1500, 20000, gen=gen_random, valid=lambda d: d["bits"] >= 0 and d["n"] > 0 and d["burn"] >= 0, nontrivial=lambda d: d["bits"] > 0,
          rule="60-200 draws of 0-700 bits: range, repetition, every bit set about half the time (8 standard deviations); non-trivial unless 0 bits"),
    bulk.facet("bulk", "d_crc", lambda c: "raw", 48, 2400, 30000, "exports and imports with and without leading zero bytes"),
]
