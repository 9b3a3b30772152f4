"""C22: reconstruction from any sufficient selection of shares."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk
N = refs.S.n


def gen(r):
    t = r.weighted((3, lambda: r.int(1, 4)), (2, lambda: r.int(1, 9)), (1, lambda: r.int(8, 16)))
    n = t + r.weighted((1, lambda: 0), (3, lambda: r.int(0, 4)), (1, lambda: r.int(3, 20)))
    if r.chance(0.03):
        n = r.int(250, 270)
    d = dict(burn=[r.int(0, 40), r.int(0, 1 << 30)], t=t, n=n, s=[residue(r, N) for _ in range(r.pick((1, 1, 2, 3)))], sel=[])
    for _ in range(r.int(2, 5)):
        k = r.weighted((3, lambda: t), (1, lambda: min(n, t + 1)), (1, lambda: r.int(t, min(n, t + 8))), (1, lambda: min(n, 30)))
        k = max(k, t)
        idx = r.sample(range(n), k)
        if r.chance(0.4):
            idx.sort(reverse=r.chance(0.5))
        d["sel"].append(idx)
    return d


def valid(d):
    return 1 <= d["t"] <= d["n"] and d["s"] and all(0 <= s < N for s in d["s"]) and all(len(set(x)) == len(x) >= d["t"] and all(0 <= i < d["n"] for i in x) for x in d["sel"])


def shares(ans, n):
    w = rd(ans)
    expect(w.d(), n, "number of shares")
    v = [(w.x(), w.x()) for _ in range(n)]
    require(all(0 < i < N and 0 <= y < N for i, y in v), "a share is out of range or its index is 0")
    require(len({i for i, _ in v}) == n, "two shares have the same index")
    return v


def sel(v, idx):
    return "recon o " + " ".join("%s %s" % (z(v[i][0]), z(v[i][1])) for i in idx)


def check(case, ctx):
    t, n = case["t"], case["n"]
    out = ctx("burn %d %d" % tuple(case["burn"]), *["share o %d %d %s" % (t, n, z(s)) for s in case["s"]])[1:]
    vs = [shares(o, n) for o in out]
    for v, s in zip(vs, case["s"]):
        # every share lies on the polynomial of degree below t through the first t
        base = v[:t]
        for i in list(range(t, min(n, t + 6))) + [n - 1] * (n > t):
            expect(v[i][1], refs.lagrange_at(base, v[i][0], N), "share %d of %d against the polynomial through the first %d" % (i + 1, n, t))
        for x, o in zip(case["sel"], ctx(*[sel(v, x) for x in case["sel"]])):
            expect(int(o[0], 16), s, "secret from shares %s (threshold %d of %d)" % ([i + 1 for i in x][:20], t, n))
            expect(int(o[1], 16), N, "modulus of the reconstructed secret")
    if len(vs) > 1:
        require(all([i for i, _ in v] == [i for i, _ in vs[0]] for v in vs), "sharings have different indices")
        tot = [(vs[0][i][0], sum(v[i][1] for v in vs) % N) for i in range(n)]
        for x, o in zip(case["sel"], ctx(*[sel(tot, x) for x in case["sel"]])):
            expect(int(o[0], 16), sum(case["s"]) % N, "sum of %d secrets from added shares" % len(vs))
        ctx.label("added sharings")
    ctx.label("t=1" if t == 1 else "t=n" if t == n else "1<t<n")


def gen_poly(r):
    t = r.weighted((3, lambda: r.int(1, 5)), (1, lambda: r.int(5, 14)))
    k = t + r.int(0, 3)
    idx = set()
    while len(idx) < k:
        idx.add(r.weighted((3, lambda: r.int(1, 20)), (1, lambda: N - r.int(1, 20)), (2, lambda: residue(r, N)), (1, lambda: nudge(r, r.pick(sorted(idx))) % N if idx else 1)) or 5)
    idx = r.sample(sorted(idx), k)
    co = [residue(r, N) for _ in range(t)]
    if r.chance(0.3):
        co[0] = r.int(0, 2)
    # some shares are zero, or equal: the polynomial is c + f(x) times roots at the indices
    roots = r.sample(idx, r.int(0, min(t - 1, 3))) if r.chance(0.7) else []
    return dict(idx=idx, co=co, roots=roots, level=r.weighted((3, lambda: 0), (1, lambda: residue(r, N))))


def valid_poly(d):
    return d["co"] and len(d["idx"]) >= len(d["co"]) > len(d["roots"]) and len(set(d["idx"])) == len(d["idx"]) and all(0 < i < N for i in d["idx"]) and all(0 <= c < N for c in d["co"] + [d["level"]])


def check_poly(case, ctx):
    t = len(case["co"]) - len(case["roots"])

    def f(x):
        v = sum(c * pow(x, i, N) for i, c in enumerate(case["co"][:t]))
        for q in case["roots"]:
            v = v * (x - q) % N
        return (v + case["level"]) % N
    sh = [(i, f(i)) for i in case["idx"]]
    cmd = lambda l: "recon o " + " ".join("%s %s" % (z(i), z(y)) for i, y in l)
    half = [(i, y) for i, y in sh[::-1]][:max(len(case["co"]), 1)]
    out = ctx(cmd(sh), cmd(half), cmd(sh[::-1]))
    for o in out:
        expect(int(o[0], 16), f(0), "secret of the shares %s" % sh)
    ctx.label("a share is zero" if any(y == 0 for _, y in sh) else "no share is zero")


def gen_large(r):
    t = r.weighted((3, lambda: r.int(17, 70)), (1, lambda: r.int(60, 140)), (1, lambda: r.int(250, 262)))
    n = t + r.weighted((1, lambda: 0), (3, lambda: r.int(1, 10)), (1, lambda: r.int(10, 60)))
    sel = [r.sample(range(n), r.pick((t, t, min(n, t + 1), r.int(t, n)))) for _ in range(2)]
    return dict(burn=[r.int(0, 40), r.int(0, 1 << 30)], t=t, n=n, s=[residue(r, N) for _ in range(r.int(1, 2))], sel=sel)


def gen_wide(r):
    n = r.weighted((4, lambda: 65536 + r.int(-3, 6)), (1, lambda: r.int(66000, 72000)), (1, lambda: r.int(1000, 40000)), (1, lambda: 32768 + r.int(-2, 3)))
    t = r.int(1, 4)
    at = [0, 1, 2, 3, n - 1, n - 2, n - 3, n - 4] + [r.int(4, n - 5) for _ in range(6)] + [i for i in (255, 256, 32766, 32767, 32768, 65534, 65535, 65536) if 4 <= i < n - 4]
    at = sorted(set(at))
    return dict(burn=[r.int(0, 40), r.int(0, 1 << 30)], t=t, n=n, s=residue(r, N), at=at, sel=[r.sample(range(len(at)), r.int(t, min(len(at), t + 4))) for _ in range(5)] + [r.sample(range(len(at) - 4, len(at)), t)])


def valid_wide(d):
    return 1 <= d["t"] <= d["n"] and d["at"] and 0 <= d["s"] < N and all(0 <= i < d["n"] for i in d["at"]) and all(len(set(x)) == len(x) >= d["t"] and all(0 <= i < len(d["at"]) for i in x) for x in d["sel"])


def check_wide(case, ctx):
    t, n = case["t"], case["n"]
    w = rd(ctx("burn %d %d" % tuple(case["burn"]), "pick o %d %d %s %s" % (t, n, z(case["s"]), " ".join(map(str, case["at"]))))[1])
    expect(w.d(), n, "number of shares")
    expect(w.d(), n, "number of distinct indices of %d shares" % n)
    expect(w.d(), 0, "number of indices equal to 0 of %d shares" % n)
    v = [(w.x(), w.x()) for _ in case["at"]]
    for i, y in zip(case["at"], v):
        expect(refs.lagrange_at(v[:t], y[0], N) if len(v) >= t else y[1], y[1], "share %d of %d against the polynomial through others" % (i + 1, n))
    for x, o in zip(case["sel"], ctx(*[sel(v, x) for x in case["sel"]])):
        expect(int(o[0], 16), case["s"], "secret from shares %s (threshold %d of %d)" % ([case["at"][i] + 1 for i in x], t, n))


FACETS = [
    Facet("selections", "d_sss", check, 6000, 90000, gen=gen, valid=valid, nontrivial=lambda d: d["t"] > 1,
          rule="threshold 1-16, up to 36 shares (sometimes 250-270), edge and random secrets, several selections of t or more shares in any order, sums of 2-3 sharings; non-trivial if the threshold is above 1"),
    Facet("polynomials", "d_sss", check_poly, 6000, 90000, gen=gen_poly, valid=valid_poly, nontrivial=lambda d: len(d["co"]) > 1,
          rule="shares of polynomials of the harness (degree up to 13) at 1-17 indices from anywhere in the field, some values zero or equal, in any order; non-trivial from degree 1"),
    Facet("large-thresholds", "d_sss", check, 60, 1500, gen=gen_large, valid=valid, variant="fast", cpu=120, rule="thresholds 17-262 with up to 322 shares, reconstruction from selections of t or more; every case counts as non-trivial"),
    Facet("many-shares", "d_sss", check_wide, 24, 400, gen=gen_wide, valid=valid_wide, variant="fast", cpu=120, rule="1000-72000 shares (mostly around 65536) with thresholds 1-4, reconstruction from selections that include the first and last ones; every case counts as non-trivial"),
    bulk.facet("bulk", "d_sss", lambda c: z(N), 32, 1600, 2000, "sharings with thresholds up to 12, interpolated with GMP integers and reconstructed from a random selection"),
]
