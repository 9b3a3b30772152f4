"""C06: compression and evaluation at a coordinate."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk


def gen_comp(r):
    cn = r.pick("sb")
    return dict(c=cn, pts=[point(r, cn, 0) for _ in range(r.int(1, 4))], held=point(r, cn, 0), calc=r.int(0, 3))


def check_comp(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    ps = [pt(cn, d) for d in case["pts"]]
    held = pt(cn, case["held"])
    # the encoding of points built from coordinates and of points that are results
    cmds = []
    for i, p in enumerate(ps):
        if case["calc"] == 1:
            cmds += ["%s ptz r%d A %s" % (cn, i, P(p)), "%s gen g A" % cn, "%s sub r%d r%d g" % (cn, i, i), "%s add r%d r%d g" % (cn, i, i)]
        else:
            cmds += ["%s ptz r%d %s %s" % (cn, i, "AB"[case["calc"] % 2], P(p))] + ["%s get r%d" % (cn, i)] * 3
        cmds += ["%s ptz n%d A %s" % (cn, i, P(c.neg(p))), "%s enc r%d" % (cn, i), "%s enc n%d" % (cn, i), "%s get r%d" % (cn, i)]
    out = ctx(*cmds)
    enc = [(int(out[8 * i + 5][0], 16), int(out[8 * i + 6][0], 16)) for i in range(len(ps))]
    for i, p in enumerate(ps):
        expect(rd(out[8 * i + 7]).pt(), p, "point after being encoded")
        if p != c.neg(p):
            require(enc[i][0] != enc[i][1], "a point and its negative have the same encoding %x" % enc[i][0])
        for j in range(i):
            expect(enc[i][0] == enc[j][0], p == ps[j], "equality of the encodings of two points")
        ctx.label("larger root" if p[1] > c.p // 2 else "smaller root")
    cmds = ["%s ptz h A %s" % (cn, P(held)), "%s copy w h" % cn]
    for i, (a, b) in enumerate(enc):
        cmds += ["%s setenc h %s" % (cn, z(a)), "%s setenc w %s" % (cn, z(b)), "%s eq h r%d" % (cn, i), "%s enc h" % cn, "%s setx w h" % cn]
    out = ctx(*cmds)[2:]
    for i, p in enumerate(ps):
        o = out[5 * i:5 * i + 5]
        expect(rd(o[0]).pt(), p, "decoded point")
        expect(rd(o[1]).pt(), c.neg(p), "decoded negative")
        expect(o[2], ["1"], "decoded point equals the original")
        expect(int(o[3][0], 16), enc[i][0], "encoding of the decoded point")
        expect(rd(o[4]).pt(), p, "second generation decoding")


def gen_eval(r):
    cn = r.pick("sb")
    c = refs.CURVES[cn]
    return dict(c=cn, xs=[r.weighted((2, lambda: r.int(0, 500)), (1, lambda: -r.int(0, 300)), (3, lambda: integer(r, c.p)), (2, lambda: pt(cn, point(r, cn, 0))[0]),
                                     (1, lambda: pt("b", point(r, "b", 0))[0])) for _ in range(4)])


def check_eval(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    cmds = []
    for x in case["xs"]:
        cmds += ["%s y2 A %s" % (cn, z(x)), "%s evP p A %s" % (cn, z(x)), "%s evN q B %s" % (cn, z(x)), "%s add s p q" % cn]
    out = ctx(*cmds)
    for i, x in enumerate(case["xs"]):
        o = out[4 * i:4 * i + 4]
        expect(int(o[0][0], 16), c.rhs(x % c.p), "right-hand side at %s" % z(x))
        y = c.lift(x % c.p)
        w, v = rd(o[1]), rd(o[2])
        p, q = w.pt(), v.pt()
        if y is None:
            ctx.label("no point")
            expect((p, q), (None, None), "evaluation at %s, where there is no point" % z(x))
        else:
            ctx.label("point")
            require(p is not None and q is not None, "evaluation at %s found no point although there is one" % z(x))
            expect((p[0], q[0]), (x % c.p, x % c.p), "x of the evaluated points")
            require(c.on(p) and c.on(q), "evaluation at %s is not on the curve: %s %s" % (z(x), p, q))
            expect(q, c.neg(p), "the second variant is the opposite point")
            expect(rd(o[3]).pt(), None, "sum of the variants")
        expect([w.d(), v.d()], [1, 1], "validity of evaluated points")


FACETS = [
    Facet("compression", "d_ecc", check_comp, 10000, 150000, gen=gen_comp, rule="1-4 finite points (both roots, tiny and huge x) encoded, decoded into another point, with their negatives"),
    Facet("evaluation", "d_ecc", check_eval, 8000, 120000, gen=gen_eval, rule="four x values per case, with and without a point, in and out of [0, p)"),
    bulk.facet("bulk", "d_ecc", lambda c: "%s eval %s" % (c["c"], bulk.curve(c["c"])), 48, 2400, 4000, "evaluation at a coordinate, both roots encoded and decoded, against GMP integers", params=lambda r: dict(c=r.pick("sb"))),
    bulk.passing("enc", "evaluations and encodings"),
]
