"""C20: aggregated sums."""
from ..engine import Facet
from ..gens import *

TIMES = [0, 1, -1, 2, 255, 256, 65535, 65536, (1 << 31) - 1, -(1 << 31), -(1 << 31) + 1, 1 << 30, 20240229]


def timestamp(r):
    return r.weighted((1, lambda: 0), (2, lambda: r.pick(TIMES)), (2, lambda: r.int(-(1 << 31), (1 << 31) - 1)), (1, lambda: r.int(-50, 50)), (1, lambda: r.pick((-1, 1)) * (nat(r, 0, 31) % (1 << 31))))


def values(r, n, total):
    """n values adding up to the total, very uneven or even, zeros included"""
    if n == 0:
        return []
    k = r.int(0, 3)
    if k == 0:
        v = [total] + [0] * (n - 1)
    elif k == 1:
        cuts = sorted(r.int(0, total) for _ in range(n - 1))
        v = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    elif k == 2:
        v = [total // n] * n
        v[0] += total - sum(v)
    else:
        v = [0] * n
        left = total
        for i in range(n - 1):
            v[i] = r.int(0, left)
            left -= v[i]
        v[-1] = left
    r.shuffle(v)
    return v


def case_of(r, totals, most=5):
    setups = []
    for t in totals:
        n = r.pick((1, 1, 2, 2, 3, 3, 4, r.int(5, 9), 0 if t == 0 else 2))
        setups.append(dict(n=n, t=timestamp(r), m=values(r, n, t), order=r.sample(range(n), n)))
        if r.chance(0.4):  # another timestamp under the same setup
            u = min(t, r.int(0, 300))
            if u or n:
                setups.append(dict(n=-1, t=timestamp(r), m=values(r, n, u if n else 0), order=r.sample(range(n), n)))
    return dict(burn=burn(r), objs=r.int(1, 2), steps=setups)


def many_users(r):
    n = r.weighted((3, lambda: r.int(20, 100)), (1, lambda: r.pick((127, 128, 129, 255, 256, 257, 300))))
    return dict(burn=burn(r), objs=1, steps=[dict(n=n, t=timestamp(r), m=values(r, n, r.int(0, 400)), order=r.sample(range(n), n))])


def plan(r, n):
    """totals: a few of every magnitude; the cost of a case is proportional to the total"""
    cases = [case_of(r, [t]) for t in (65535, 65534, 32768, 32767, 65535 - 255, 40000)]
    big = n // 40
    cases += [case_of(r, [r.int(20000, 65535)]) for _ in range(big)]
    while len(cases) < n:
        k = len(cases) % 6
        if k == 0:
            cases.append(case_of(r, [nat(r, 9, 13)]))
        elif k == 1:
            cases.append(case_of(r, [r.pick((255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048))]))
        elif k == 2:  # timestamp 0: what a user sends is a function of its value alone
            c = case_of(r, [r.int(2, 60) for _ in range(r.int(1, 3))])
            for s in c["steps"]:
                s["t"] = 0
            cases.append(c)
        else:
            cases.append(case_of(r, [r.weighted((1, lambda: 0), (2, lambda: r.int(0, 20)), (3, lambda: nat(r, 0, 9))) for _ in range(r.int(1, 3))]))
    return cases[:n]


def valid(d):
    n = None
    for s in d["steps"]:
        if s["n"] >= 0:
            n = s["n"]
        if n is None or len(s["m"]) != n or sorted(s["order"]) != list(range(n)) or not all(0 <= x <= 65535 for x in s["m"]) or sum(s["m"]) > 65535 or not -(1 << 31) <= s["t"] < 1 << 31:
            return False
    return d["objs"] > 0 and bool(d["steps"])


def check(case, ctx):
    cmds = ["burn %d" % case["burn"]] + ["new o%d" % i for i in range(case["objs"])]
    exp = []
    cur = 0
    for k, s in enumerate(case["steps"]):
        if s["n"] >= 0:
            cur = k
            cmds.append("setup o%d s%d %d" % (cur % case["objs"], cur, s["n"]))
        o = "o%d" % (cur % case["objs"])
        for i, m in enumerate(s["m"]):
            cmds.append("enc %s c%d_%d s%d %d %d %d" % (o, k, i, cur, i, m, s["t"]))
        cmds.append("agg %s s%d %d tag%d %s" % (o, cur, s["t"], k, " ".join("c%d_%d" % (k, i) for i in s["order"])))
        exp.append((len(cmds) - 1, sum(s["m"]), s))
    out = ctx(*cmds)
    for k, want, s in exp:
        expect(int(out[k][0]), want, "aggregate of %s under timestamp %d" % (s["m"], s["t"]))
        ctx.label("total %s" % ("0" if want == 0 else "1-255" if want < 256 else "256-8191" if want < 8192 else "8192-65534" if want < 65535 else "65535"))
        ctx.label("timestamp %s" % ("0" if s["t"] == 0 else "negative" if s["t"] < 0 else "positive"))


FACETS = [
    Facet("sums", "d_puda", check, 260, 4000, plan=plan, valid=valid, variant="fast", shards=32, cpu=120, nontrivial=lambda d: any(sum(s["m"]) for s in d["steps"]),
          rule="1-5 aggregations over repeated setups and timestamps on one or two instances, 0-9 users, totals of every magnitude up to 65535, ciphertexts in any order; non-trivial if some total is not zero"),
    Facet("long-histories", "d_puda", check, 16, 240, plan=lambda r, n: [case_of(r, [r.int(0, 12) for _ in range(r.int(12, 40))]) for _ in range(n)], valid=valid, variant="fast", shards=16, cpu=120, rule="12-40 setups on one or two instances, small totals"),
    Facet("many-users", "d_puda", check, 16, 160, plan=lambda r, n: [many_users(r) for _ in range(n)], valid=valid, variant="fast", shards=16, cpu=120, rule="up to 300 users"),
    Facet("sums-sanitized", "d_puda", check, 60, 600, plan=lambda r, n: [case_of(r, [r.int(0, 120)]) for _ in range(n)], valid=valid, cpu=120,
          nontrivial=lambda d: any(sum(s["m"]) for s in d["steps"]), rule="small totals under sanitizers"),
]
