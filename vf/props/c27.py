"""C27: check values on integers."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk
from .c24 import text


def number(r):
    k = r.int(0, 7)
    if k == 0:
        return integer(r, refs.S.p, signed=False)
    if k == 1:
        return nat(r, 0, 48)
    if k == 2:
        return r.pick((0, 1, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 32) - 1, 1 << 32, 1 << 40))
    return text(r, 250)


def gen(r):
    ops = []
    for _ in range(r.int(1, 6)):
        k = r.int(0, 5)
        if k < 3:
            width = r.int(1, 4)
            bits = r.weighted((2, lambda: r.int(1, (1 << (8 * width)) - 1)), (1, lambda: 1 << r.int(0, 8 * width - 1)))
            ops.append(["append", number(r), r.weighted((2, lambda: r.int(0, 5)), (1, lambda: r.int(0, 250))), r.chance(0.4), bits])
        else:
            ops.append(["raw", number(r)])
    return dict(ops=ops)


def valid(d):
    return d["ops"] and all(o[1] >= 0 and (o[0] == "raw" and len(o) == 2 or o[0] == "append" and len(o) == 5 and o[2] >= 0 and 0 < o[4] < 1 << 32) for o in d["ops"])


def check(case, ctx):
    for o in case["ops"]:
        n = o[1]
        if o[0] == "append":
            a = int(ctx.one("append " + z(n))[0], 16)
            expect(a, refs.append_crc(n), "append(%s)" % z(n))
            v, s = ctx("validate " + z(a), "remove " + z(a))
            expect(v[0], "1", "validation of append(%s)" % z(n))
            expect(int(s[0], 16), n, "stripping append(%s)" % z(n))
            size, width = (a.bit_length() + 7) // 8, (o[4].bit_length() + 7) // 8
            room = max(0, size - width)
            at = min(o[2], room)
            bad = a ^ o[4] << 8 * (room - at if o[3] else at)
            # zero carries the check value zero and nothing else does among short ones; otherwise a burst of 32 bits is always seen
            expect(ctx.one("validate " + z(bad))[0], str(int(bad == 0)), "validation of append(%s) with bits %x changed: %s" % (z(n), o[4], z(bad)))
            expect(refs.valid_crc(bad), bad == 0, "the reference on " + z(bad))
            expect(int(ctx.one("remove " + z(bad))[0], 16), bad >> 32, "stripping " + z(bad))
            ctx.label("appended to %s bytes" % ("0" if n == 0 else "1-3" if n < 1 << 24 else "4 or more"))
            if (a & 255) == 0:
                ctx.label("check value ends in a zero byte")
        else:
            v, s, c = ctx("validate " + z(n), "remove " + z(n), "append " + z(n))
            expect(v[0], str(int(refs.valid_crc(n))), "validation of " + z(n))
            expect(int(s[0], 16), n >> 32, "stripping " + z(n))
            expect(int(c[0], 16), refs.append_crc(n), "append(%s)" % z(n))
            ctx.label("any integer of %s bytes" % ("0" if n == 0 else "1-3" if n < 1 << 24 else "4" if n < 1 << 32 else "5 or more"))


FACETS = [
    Facet("values", "d_crc", check, 11000, 170000, gen=gen, valid=valid, nontrivial=lambda d: any(o[1] for o in d["ops"]),
          rule="1-6 integers of 0-250 bytes (also shorter than a check value): append, validate, strip, then a change within four bytes anywhere; non-trivial if one is not 0"),
    bulk.facet("bulk", "d_crc", lambda c: "append", 48, 2400, 20000, "append, validate, strip and changed values"),
]
