"""Facets whose cases are long runs inside a driver (harness/bulk.hpp): thousands of generated cases each, compared there
with references that only use GMP integers. A failing run shrinks to the one case that fails."""
from .engine import Facet
from .gens import *
from . import refs

STEP = 0x9e3779b97f4a7c15
FIELD = {"sp": refs.S.p, "sn": refs.S.n, "bp": refs.B.p, "bn": refs.B.n}


def curve(cn):
    c = refs.CURVES[cn]
    return " ".join(z(v) for v in (c.p, c.a % c.p, c.b, c.n, c.G[0], c.G[1]))


def shrink(case):
    n, s = case["n"], case["seed"]
    if n > 1:
        h = n // 2
        yield {**case, "n": h}
        yield {**case, "seed": (s + STEP * h) % (1 << 64), "n": n - h}
    for k, v in case.items():
        if k.startswith("len") and v > 1:
            yield {**case, k: v // 2}
            yield {**case, k: v - 1}


def facet(name, driver, cmd, quick, thorough, n, rule, params=None, cpu=600, shards=16, variant="fast"):
    """cmd(case): the command up to its seed and count. quick and thorough count runs of n cases"""
    def gen(r):
        return {**(params(r) if params else {}), "seed": r.getrandbits(64), "n": n}

    def check(case, ctx):
        a = ctx.one("bulk %s %s %d" % (cmd(case), z(case["seed"]), case["n"]))
        if a[0] == "ok":
            expect(int(a[1]), case["n"], "cases decided in the run")
            ctx.inner += case["n"]
        else:
            require(False, "%s (case %s of the run)" % (unhex(a[2]).decode(errors="replace"), a[1]))

    return Facet(name, driver, check, quick, thorough, gen=gen, shrink=shrink, variant=variant, cpu=cpu, chain=0, mix=False, shards=shards,
                 valid=lambda d: d["n"] > 0 and 0 <= d["seed"] < 1 << 64 and all(d[k] > 0 for k in d if k.startswith("len")),
                 rule=rule + "; each case is a run of %d such cases inside the driver" % n)


def passing(ops, what, quick=32, thorough=1600, n=60):
    """d_ecc's histories of short-lived curve objects, under the address sanitizer"""
    return facet("passing-curves", "d_ecc", lambda c: "%s passing %s %s" % (c["c"], curve(c["c"]), ops), quick, thorough, n,
                 "2-6 curve objects that come and go with their points, asked for the same few " + what + ", results used on their curve object and compared with the reference", params=lambda r: dict(c=r.pick("sb")), variant="san")
