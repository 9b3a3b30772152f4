"""C23: what fewer than t shares tell."""
from ..engine import Facet
from ..gens import *
from .. import refs
from .c07 import bit_spread
from .c22 import shares, sel
N = refs.S.n


def gen(r):
    t = r.weighted((3, lambda: r.int(2, 4)), (2, lambda: r.int(2, 9)), (1, lambda: r.int(8, 16)))
    n = t + r.int(0, 4)
    s = residue(r, N)
    secrets = [r.pick((s, s, residue(r, N))) for _ in range(r.pick((2, 2, 3, 4)))]
    return dict(burn=[r.int(0, 40), r.int(0, 1 << 30)], t=t, n=n, s=secrets, sub=[r.sample(range(n), r.int(1, t - 1)) for _ in range(3)], objs=r.int(1, 2))


def valid(d):
    return 2 <= d["t"] <= d["n"] and d["s"] and d["objs"] > 0 and all(0 <= s < N for s in d["s"]) and all(0 < len(set(x)) == len(x) < d["t"] and all(0 <= i < d["n"] for i in x) for x in d["sub"])


def near(a, b):
    d = (a - b) % N
    return min(d, N - d).bit_length()


def check(case, ctx):
    t, n = case["t"], case["n"]
    out = ctx("burn %d %d" % tuple(case["burn"]), *["share o%d %d %d %s" % (i % case["objs"], t, n, z(s)) for i, s in enumerate(case["s"])])[1:]
    vs = [shares(o, n) for o in out]
    seen, vals = {}, {}
    for k, (v, s) in enumerate(zip(vs, case["s"])):
        c = refs.lagrange_coeffs(v[:t], N)
        expect(c[0], s, "constant coefficient of sharing %d" % k)
        for j, x in enumerate(c[1:], 1):
            require(min(x, N - x).bit_length() > 160, "coefficient %d of sharing %d is small: %s" % (j, k, z(x)))
            for e in (s, N - s):
                require(near(x, e) > 160, "coefficient %d of sharing %d is close to the secret" % (j, k))
            for y, where in seen.items():
                require(near(x, y) > 128 and near(x, -y) > 128, "coefficient %d of sharing %d is close to coefficient %d of sharing %d" % (j, k, *where))
            seen[x] = (j, k)
        for i, y in v:
            require(near(y, s) > 128, "share %d of sharing %d is close to the secret" % (i, k))
            require(min(y, N - y).bit_length() > 128, "share %d of sharing %d is small" % (i, k))
            require(y not in vals, "a share value repeats")
            vals[y] = 1
        for x, o in zip(case["sub"], ctx(*[sel(v, x) for x in case["sub"]])):
            require(int(o[0], 16) != s, "%d of %d necessary shares give the secret" % (len(x), t))
    # the same secret shared again: the difference of two sharings is as good as random
    for a in range(len(vs)):
        for b in range(a):
            for (i, x), (_, y) in zip(vs[a], vs[b]):
                require(near((x - y) % N, (case["s"][a] - case["s"][b]) % N) > 128, "share %d of two sharings differs by the secrets' difference only" % i)
    ctx.label("the same secret shared again" if len(set(case["s"])) < len(case["s"]) else "different secrets")


def gen_large(r):
    t = r.weighted((3, lambda: r.int(17, 70)), (1, lambda: r.int(60, 140)), (1, lambda: r.int(250, 262)))
    n = t + r.int(0, 2)
    return dict(burn=[r.int(0, 40), r.int(0, 1 << 30)], t=t, n=n, s=[residue(r, N)] * r.int(1, 2), sub=[r.sample(range(n), r.pick((1, t - 1, r.int(1, t - 1))))], objs=1)


def gen_spread(r):
    return dict(burn=[r.int(0, 40), r.int(0, 1 << 30)], t=r.int(2, 12), s=residue(r, N), k=r.int(220, 400))


def check_spread(case, ctx):
    t = case["t"]
    m = case["k"] // (t - 1) + 1
    vs = [shares(o, t) for o in ctx("burn %d %d" % tuple(case["burn"]), *["share o %d %d %s" % (t, t, z(case["s"])) for _ in range(m)])[1:]]
    cs = [refs.lagrange_coeffs(v, N)[1:] for v in vs]
    flat = [x for c in cs for x in c]
    require(len(set(flat)) == len(flat), "a coefficient repeats")
    bit_spread(flat, range(248), "coefficients")
    bit_spread([x * (1 << 16) // N for x in flat], range(16), "coefficients scaled to 16 bits")
    for j in range(t - 1):
        col = [c[j] for c in cs]
        if len(col) >= 60:
            bit_spread(col, range(248), "coefficient %d" % (j + 1))


def check_many(case, ctx):
    k = case["n"]
    o = ctx("burn %d %d" % tuple(case["burn"]), "many %s %s %d" % (z(N), z(case["s"]), k))[1]
    what = "%d sharings of one secret" % k
    if o[0] != "ok":
        require(False, "%s: coefficient number %s %s" % (what, o[1], unhex(o[2]).decode()))
    n, plain, scaled = 2 * k, [int(x) for x in o[1:257]], [int(x) for x in o[257:]]
    expect(len(scaled), 16, "counts")
    slack = 8 * n ** 0.5 / 2
    for i, c in enumerate(plain[:256 - 24]):
        require(abs(c - n / 2) <= slack, "%s: bit %d of %d coefficients is set in %d" % (what, i, n, c))
    for i, c in enumerate(scaled):
        require(abs(c - n / 2) <= slack, "%s: bit %d of %d coefficients scaled to 16 bits is set in %d" % (what, i, n, c))
    ctx.inner += k


FACETS = [
    Facet("secrecy", "d_sss", check, 6000, 90000, gen=gen, valid=valid, rule="threshold 2-16, the same or other secrets shared 2-4 times: interpolated coefficients are large, fresh and unrelated, shares far from the secret, too few shares do not reconstruct; every case counts as non-trivial"),
    Facet("large-thresholds", "d_sss", check, 60, 1500, gen=gen_large, valid=valid, variant="fast", cpu=120, rule="thresholds 17-262: the same checks of every coefficient; every case counts as non-trivial"),
    Facet("spread", "d_sss", check_spread, 300, 4000, gen=gen_spread, valid=lambda d: d["t"] > 1 and d["k"] >= 200,
          rule="220-400 coefficients interpolated from sharings of one secret: every bit, and every bit of their differences, is set about half the time (8 standard deviations); every case counts as non-trivial"),
    Facet("long-runs", "d_sss", check_many, 16, 240, variant="fast", chain=0, cpu=300, gen=lambda r: dict(burn=[r.int(0, 40), r.int(0, 1 << 30)], s=residue(r, N), n=r.pick((8000, 20000))),
          valid=lambda c: c["n"] > 0 and 0 <= c["s"] < N, shrink=lambda c: [{**c, "n": c["n"] // 2}] if c["n"] > 500 else [],
          rule="8000 or 20000 sharings of one secret (threshold 3) in one process, coefficients interpolated inside the driver: none repeats, no difference repeats, bit frequencies plain and scaled by the order; every case counts as non-trivial"),
]
