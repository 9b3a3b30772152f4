"""C05: validity, equality, constructors, parameters and printed forms."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk


def tostr(v, base):
    if v == 0:
        return "0"
    d = ""
    neg, v = v < 0, abs(v)
    while v:
        d = "0123456789abcdefghijklmnopqrstuvwxyz"[v % base] + d
        v //= base
    return ("-" if neg else "") + d


# --- validity
def gen_valid(r):
    cn = r.pick("sb")
    c = refs.CURVES[cn]
    l = []
    for _ in range(4):
        x, y = pt(cn, point(r, cn, 0))
        k = r.int(0, 20)
        d = r.pick((1, -1, 2, 1 << r.randrange(256)))
        if k == 0: q = (x, y)
        elif k == 1: q = (x + d, y)
        elif k == 2: q = (x, y + d)
        elif k == 3: q = (y, x)
        elif k == 4: q = (x, c.p - y)
        elif k == 5: q = (x + c.p * r.int(-3, 3), y + c.p * r.int(-3, 3))
        elif k == 6: q = (0, r.pick((0, 1, y, c.sqrt(c.b) or 5)))
        elif k == 7: q = (-x, y)
        elif k == 8:  # on a curve with another b or another a
            q = (x, c.sqrt(c.rhs(x) + r.pick((1, -1, c.b, x))) or 0)
        elif k == 9: q = pt("b" if cn == "s" else "s", point(r, "b" if cn == "s" else "s", 0))
        elif k == 10: q = (residue(r, c.p), residue(r, c.p))
        elif k == 11:  # y^2 instead of y, y of another x
            q = (x, y * y % c.p)
        elif k == 12: q = (x, pt(cn, point(r, cn, 0))[1])
        elif k == 13: q = (x ^ (1 << r.randrange(256)), y)
        elif k == 14: q = (x * x * x % c.p, y)
        elif k == 15:  # the equation without its constant or linear term
            q = (x, c.sqrt(x * x * x + (c.a * x if r.chance(0.5) else c.b)) or 1)
        elif k < 19:  # the two sides of the equation are a near miss
            for _ in range(12):
                if r.chance(0.2):
                    x = r.int(0, 50)
                y = c.sqrt(nudge(r, c.rhs(x)) % c.p)
                if y is not None:
                    break
            q = (x, y or 1)
        elif k == 19: q = (nudge(r, x), y) if r.chance(0.5) else (x, nudge(r, y))
        else: q = (integer(r, c.p), integer(r, c.p))
        l.append(list(q))
    return dict(c=cn, pts=l)


def check_valid(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    cmds = []
    for x, y in case["pts"]:
        cmds += ["%s ptz p A %s" % (cn, P((x, y))), "%s ptf q B %s" % (cn, P((x, y))), "%s valid p" % cn, "%s valid q" % cn]
    cmds += ["%s inf i" % cn, "%s valid i" % cn]
    out = ctx(*cmds)
    for i, (x, y) in enumerate(case["pts"]):
        want = "1" if c.on((x, y)) else "0"
        ctx.label("on the curve" if want == "1" else "off the curve")
        for o in out[4 * i:4 * i + 2]:
            w = rd(o)
            expect(w.pt(), (x % c.p, y % c.p), "coordinates of a built point")
            expect(w.s(), want, "validity of (%s, %s)" % (z(x), z(y)))
        expect(out[4 * i + 2], [want], "isValid")
        expect(out[4 * i + 3], [want], "isValid on the other curve object")
    expect(out[-1], ["1"], "infinity is valid")


# --- equality of points built in different ways
def gen_eq(r):
    cn = r.pick("sb")
    c = refs.CURVES[cn]
    base = [pt(cn, point(r, cn, 0)) for _ in range(2)]
    if r.chance(0.1):
        base.append((0, 0))
    pts = []
    for _ in range(r.int(2, 6)):
        x, y = r.pick(base)
        k = r.int(0, 14)
        if k == 0: x, y = x, c.p - y
        elif k == 1: x, y = x, (y + 1) % c.p
        elif k == 2: x, y = (x + 1) % c.p, y
        elif k == 3: x, y = y, x
        elif k == 4: x, y = x ^ (1 << r.randrange(200)), y
        elif k == 5: x, y = nudge(r, x) % c.p, y
        elif k == 6: x, y = x, nudge(r, y) % c.p
        elif k == 7: d = r.int(1, 1000); x, y = (x + d) % c.p, (y + r.pick((d, -d))) % c.p
        how = r.pick(["ptz", "ptf", "pts", "ptc", "ptdef", "copy", "asg", "inf", "calc", "infbind", "infcalc", "bind"])
        d = dict(how=how, x=x + (c.p if how == "ptz" and r.chance(0.2) else 0), y=y, base=r.pick([10, 16, 2, 8, 36, r.int(2, 36)]), cv=r.pick("AB"))
        pts.append(d)
    return dict(c=cn, pts=pts)


def check_eq(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    cmds, val = [], []
    for i, d in enumerate(case["pts"]):
        v = (d["x"] % c.p, d["y"] % c.p)
        how = d["how"]
        if how == "calc" and not c.on(v):
            how = "ptz"
        if how in ("ptz", "ptf"):
            cmds.append("%s %s r%d %s %s" % (cn, how, i, d["cv"], P((d["x"], d["y"]))))
        elif how in ("pts", "ptc"):
            cmds.append("%s %s r%d %s %s %s %d" % (cn, how, i, d["cv"], tostr(d["x"], d["base"]), tostr(d["y"], d["base"]), d["base"]))
        elif how == "ptdef":
            cmds.append("%s ptdef r%d %s %s %s" % (cn, i, d["cv"], tostr(d["x"], 10), tostr(d["y"], 10)))
        elif how == "inf":
            cmds.append("%s inf r%d" % (cn, i))
            v = None
        elif how == "infbind":  # infinity told which curve it is on, as CRS_DDH::updateCurve does
            cmds += ["%s inf r%d" % (cn, i), "%s bind r%d %s" % (cn, i, d["cv"])]
            v = None
        elif how == "infcalc":
            cmds += ["%s gen g %s" % (cn, d["cv"]), "%s sub r%d g g" % (cn, i) if d["y"] & 1 else "%s mulz r%d g %s" % (cn, i, z(c.n * (d["x"] & 3)))]
            v = None
        elif how == "bind":
            cmds += ["%s ptz r%d A %s" % (cn, i, P(v)), "%s bind r%d B" % (cn, i)]
        elif how == "calc":  # the same point as the result of arithmetic
            cmds += ["%s ptz t %s %s" % (cn, d["cv"], P(v)), "%s gen g %s" % (cn, d["cv"]), "%s sub t t g" % cn, "%s add r%d t g" % (cn, i)]
        else:
            cmds.append("%s ptz t %s %s" % (cn, d["cv"], P((d["x"], d["y"]))))
            cmds.append("%s copy r%d t" % (cn, i) if how == "copy" else "%s inf r%d" % (cn, i))
            if how == "asg":
                cmds.append("%s asg r%d t" % (cn, i))
        val.append(v)
    n = len(val)
    for i in range(n):
        cmds.append("%s get r%d" % (cn, i))
        cmds += ["%s eq r%d r%d" % (cn, i, j) for j in range(n)]
    out = ctx(*cmds)[-n * (n + 1):]
    for i in range(n):
        expect(rd(out[i * (n + 1)]).pt(), val[i], "point built as %s" % case["pts"][i])
        for j in range(n):
            expect(out[i * (n + 1) + 1 + j], [str(int(val[i] == val[j]))], "equality of %s and %s" % (val[i], val[j]))
            if i != j:
                ctx.label("equal pair" if val[i] == val[j] else "unequal pair")


def valid_eq(case):
    return all(2 <= d["base"] <= 36 for d in case["pts"])


# --- parameters and printed forms
def check_params(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    o = ctx("%s curve A" % cn, "%s curve B" % cn, "%s curveeq A B" % cn, "%s curveeq A A" % cn, "%s gen g A" % cn, "%s valid g" % cn, "%s curveprint A" % cn, "%s inf i" % cn,
            "%s print i" % cn, "%s fields g" % cn)
    for k in (0, 1):
        w = rd(o[k])
        for name, v in (("prime", c.p), ("order", c.n), ("a", c.a), ("b", c.b), ("a as an element", c.a), ("b as an element", c.b)):
            expect(w.x(), v, "curve's " + name)
        expect(w.pt(), c.G, "generator")
    expect([o[2], o[3]], [["1"], ["1"]], "equality of curve objects")
    expect(o[5], ["1"], "validity of the generator")
    expect(unhex(o[6][0]).decode(), "C(p=%d, a=%d, b=%d, n=%d, cof=1)" % (c.p, c.a, c.b, c.n), "printed curve")
    expect(unhex(o[8][0]).decode(), "(inf, inf)", "printed infinity")
    expect([int(x, 16) for x in o[9]], [c.p, c.p], "moduli of the coordinates")
    p = pt(cn, case["p"])
    o = ctx("%s ptz p B %s" % (cn, P(p)), "%s print p" % cn)
    expect(unhex(o[1][0]).decode(), "(%d,%d)" % p, "printed point")


FACETS = [
    Facet("validity", "d_ecc", check_valid, 16000, 250000, gen=gen_valid, rule="four coordinate pairs per case: points, near misses, other curves' points, unreduced coordinates; the reference equation decides"),
    Facet("equality", "d_ecc", check_eq, 10000, 150000, gen=gen_eq, valid=valid_eq, nontrivial=lambda c: len(c["pts"]) > 2,
          rule="2-6 points built in different ways on two curve objects, all ordered pairs compared; non-trivial if more than two points"),
    Facet("parameters", "d_ecc", check_params, 800, 5000, gen=lambda r: (lambda cn: dict(c=cn, p=point(r, cn, 0)))(r.pick("sb")), rule="curve constants, printed forms"),
    bulk.facet("bulk", "d_ecc", lambda c: "%s coords %s" % (c["c"], bulk.curve(c["c"])), 48, 2400, 5000, "coordinates on and next to the curve: validity and equality against GMP integers", params=lambda r: dict(c=r.pick("sb"))),
    bulk.passing("eamr", "results of any operation", n=15),
]
