"""C03: the group law on histories of additions, subtractions and doublings."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk

R = "pqrt"


def gen(r, lo=1, hi=9):
    cn = r.pick("sb")
    init = []
    for i in range(4):
        k = r.int(0, 9)
        if init and k == 0:
            init.append(["same", r.randrange(len(init))])
        elif init and k < 3:
            init.append(["neg", r.randrange(len(init))])
        else:
            init.append(point(r, cn, 0.15))
    reg = lambda: r.pick(R)

    def step():
        return r.weighted(
            (3, lambda: [r.pick(["add", "sub"]), reg(), reg(), reg()]),
            (4, lambda: [r.pick(["addeq", "subeq"]), reg(), reg()]),
            (2, lambda: ["dbl", reg(), reg()]),
            (1, lambda: [r.pick(["copy", "asg"]), reg(), reg()]),
            (1, lambda: ["inf", reg()]))
    return dict(c=cn, init=init, curves=[r.pick("AAB") for _ in R], steps=[step() for _ in range(r.size(lo, hi))])


def resolve(case):
    c = refs.CURVES[case["c"]]
    v = []
    for d in case["init"]:
        v.append(v[d[1]] if d[0] == "same" else c.neg(v[d[1]]) if d[0] == "neg" else pt(case["c"], d))
    return v


def check(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    v = dict(zip(R, resolve(case)))
    cmds = []
    for r, cv in zip(R, case["curves"]):
        cmds.append("%s inf %s" % (cn, r) if v[r] is None else "%s ptz %s %s %s" % (cn, r, cv, P(v[r])))
    exp = [(dict(v), r, None) for r in R]
    for s in case["steps"]:
        o, d = s[0], s[1]
        a = v[s[2]] if len(s) > 2 else None
        if o in ("add", "sub"):
            x, y = v[s[2]], v[s[3]]
        elif o in ("addeq", "subeq"):
            x, y = v[d], v[s[2]]
        else:
            x = y = None
        if o in ("add", "addeq"):
            v[d] = c.add(x, y)
        elif o in ("sub", "subeq"):
            v[d] = c.sub(x, y)
        elif o == "dbl":
            v[d] = c.add(a, a)
        elif o in ("copy", "asg"):
            v[d] = a
        else:
            v[d] = None
        if o.startswith(("add", "sub")):
            if x is None or y is None:
                ctx.label("infinity as an operand")
            elif x[0] == y[0]:
                ctx.label("equal or opposite operands")
            if v[d] is None:
                ctx.label("sum is infinity")
        cmds.append(cn + " " + " ".join(s))
        exp.append((dict(v), d, s))
    cmds += ["%s get %s" % (cn, r) for r in R]
    exp += [(dict(v), r, ["final"]) for r in R]
    for (want, d, s), o in zip(exp, ctx(*cmds)):
        w = rd(o)
        expect(w.pt(), want[d], "point %s after %s" % (d, s))
        expect(w.d(), 1, "validity of %s after %s" % (d, s))
        if s and s[0].endswith("eq"):
            expect(w.d(), 1, "%s returns its target" % s)


def nontrivial(case):
    return sum(p is not None for p in resolve(case)) >= 2 and any(s[0] in ("add", "sub", "addeq", "subeq", "dbl") for s in case["steps"])


FACETS = [Facet("histories", "d_ecc", check, 18000, 400000, gen=gen, mix=True, nontrivial=nontrivial,
                rule="four points of one curve (some equal, opposite or infinite, on two curve objects) and 1-9 additions, subtractions, doublings and copies; every result and the final state "
                     "compared with the reference group; non-trivial if at least two points are finite and one operation is arithmetic"),
          Facet("long-histories", "d_ecc", check, 200, 3000, gen=lambda r: gen(r, 50, 200), nontrivial=nontrivial, variant="fast", cpu=120, rule="the same with 50-200 steps"),
          bulk.facet("bulk", "d_ecc", lambda c: "%s hist %s %d" % (c["c"], bulk.curve(c["c"]), c["len"]), 48, 2400, 300, "histories of up to 40 additions, subtractions, doublings, small multiples and copies on four live points against affine formulas over GMP integers", params=lambda r: dict(c=r.pick("sb"), len=r.pick((3, 10, 40)))),
    bulk.passing("aasd", "sums, differences and doubles"),
]
