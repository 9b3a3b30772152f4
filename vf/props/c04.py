"""C04: scalar multiplication."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk

OPS = ["mulz", "mulz", "mulf", "mulzeq", "mulfeq", "muli"]


def scalar(r, n):
    k = r.int(0, 7)
    if k == 0:
        return n * r.int(-3, 3) + r.int(-12, 12)
    if k == 1:  # long runs, sparse patterns, trailing zeros
        return shaped(r, r.pick((16, 64, 128, 256, 320)))
    if k == 2:
        return (1 << r.int(0, 300)) + r.int(-2, 2)
    if k == 3:
        return r.randrange(n)
    return integer(r, n, maxbits=700)


def gen(r):
    cn = r.pick("ssb")
    n = refs.CURVES[cn].n
    l = []
    for _ in range(r.int(1, 4)):
        op = r.pick(OPS)
        k = scalar(r, n)
        if op == "muli":
            k = (k % (1 << 32)) - (1 << 31) if r.chance(0.6) else r.int(-70000, 70000)
        l.append([op, k, r.pick((0, 0, 0, 1, 1, 2, 3))])
    return dict(c=cn, p=point(r, cn, 0.06), m=l)


def gen_low(r):
    """exhaustive-ish low scalars and their complements to the order"""
    cn = r.pick("sb")
    n = refs.CURVES[cn].n
    return dict(c=cn, p=["k", r.int(1, 50)] if r.chance(0.5) else point(r, cn, 0), m=[["mulz", r.int(0, 1 << r.int(1, 17)) * r.pick((1, 1, -1)) + r.pick((0, 0, n, -n)), 0] for _ in range(6)])


def check(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    p = pt(cn, case["p"])
    cmds = ["%s inf p" % cn if p is None else "%s ptz p A %s" % (cn, P(p))]
    exp = []
    # the point, the opposite one, the same one on another curve object, its double
    var = [p, c.neg(p), p, c.add(p, p)]
    made = ["copy q p"] + ["inf q" if v is None else "ptz q %s %s" % ("ABA"[i], P(v)) for i, v in enumerate(var[1:])]
    for op, k, w in case["m"]:
        if op.endswith("eq"):
            cmds += ["%s %s" % (cn, made[w]), "%s %s q %s" % (cn, op, z(k))]
        else:
            cmds += ["%s %s" % (cn, made[w].replace(" q", " s", 1)), "%s %s q s %s" % (cn, op, k if op == "muli" else z(k))]
        exp.append((op, k, c.mul(k, var[w])))
        if k % c.n == 0:
            ctx.label("multiple of the order")
        if k < 0 or k >= c.n:
            ctx.label("scalar outside [0, order)")
    cmds.append("%s get p" % cn)
    out = ctx(*cmds)
    for i, (op, k, want) in enumerate(exp):
        w = rd(out[2 + 2 * i])
        expect(w.pt(), want, "%s by %s" % (op, z(k)))
        expect(w.d(), 1, "validity of the multiple by %s" % z(k))
        expect(w.d(), 1, "%s returns its target" % op)
    expect(rd(out[-1]).pt(), p, "the point afterwards")


def nontrivial(c):
    return c["p"] != ["inf"] and any(abs(k) > 2 for _, k, _ in c["m"])


def valid(c):
    return all(-(1 << 31) <= k < 1 << 31 for o, k, _ in c["m"] if o == "muli")


RULE = "a point (its opposite, its double, the same point on another curve object) and 1-6 scalars (near 0 and multiples of the order, powers of two, patterned, negative, up to 700 bits), every operator form, against the reference; non-trivial if the point is finite and a scalar exceeds 2 in size"
FACETS = [Facet("multiples", "d_ecc", check, 7000, 120000, gen=gen, valid=valid, nontrivial=nontrivial, variant="fast", rule=RULE),
          Facet("multiples-sanitized", "d_ecc", check, 600, 6000, gen=gen, valid=valid, nontrivial=nontrivial, rule="the same under sanitizers"),
          Facet("low", "d_ecc", check, 3500, 30000, gen=gen_low, mix=True, nontrivial=nontrivial, variant="fast", rule="six scalars below 2^17 each, shifted by -order, 0 or order"),
    bulk.passing("mmg", "multiples", n=30),
]
