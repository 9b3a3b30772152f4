"""C31: the order of the ciphertexts shows nothing."""
from ..engine import Facet
from ..opprflib import *

LIMIT = 45  # chi-square with two degrees of freedom: exceeded with probability 2e-10


def plan(r, n, sessions=0):
    pairs = [(1000, 1000), (0, TOP), (TOP, 0)]
    while len(pairs) < n:
        k = len(pairs) % 3
        t = r.int(1, TOP - 1)
        pairs.append((t, t) if k == 0 else above(r) if k == 1 else below(r))
    return [dict(surroundings(r), theta=t, x=x, n=sessions or (36 if n < 50 else 90)) for t, x in pairs[:n]]


def valid(d):
    return valid_surroundings(d) and 0 <= d["theta"] <= TOP and 0 <= d["x"] <= TOP and d["n"] > 0


def spread(what, seen):
    n = len(seen)
    counts = [seen.count(c) for c in "012"]
    chi = sum((c - n / 3) ** 2 for c in counts) * 3 / n
    require(chi < LIMIT and (n < 60 or min(counts) > 0), "%s: of %d ciphertexts opened, %s were at the positions 0, 1, 2" % (what, n, counts))


def check(case, ctx):
    ga = pt("s", case["ga"])
    out = ctx(*(start(case) + ["server s %d c" % case["theta"], "secret s " + P(ga), "positions s c %d %d" % (case["x"], case["n"])]))[-1]
    rel = "threshold %d, input %d" % (case["theta"], case["x"])
    expect(len(out), case["n"], "sessions")
    for line in out:
        expect(len(line), BITS, "rounds with three ciphertexts, and the masks")
        require(set(line) <= set("012"), "%s: %s ciphertexts of a round opened under the client's key (%s)" % (rel, "several" if "m" in line else "none of the", line))
    for i in range(BITS):
        spread("%s, %s" % (rel, "the masks" if i == BITS - 1 else "round %d" % (BITS - 1 - i)), [line[i] for line in out])
    spread("%s, all rounds" % rel, "".join(line[:-1] for line in out))
    ctx.label("above" if case["x"] > case["theta"] else "equal" if case["x"] == case["theta"] else "below")


FACETS = [
    Facet("positions", "d_opprf", check, 8, 160, plan=plan, valid=valid, variant="fast", shards=16, cpu=400, shrink=lambda c: [],
          rule="36 (thorough: 90) sessions of one threshold and input; exactly one of the three ciphertexts of each round and of the masks opens for a client following the protocol, its position takes all three values and a chi-square test of even spread does not exceed 45; every case counts as non-trivial"),
    Facet("positions-open", "d_opprf_open", check, 24, 600, confirm="positions", plan=lambda r, n: plan(r, n, 120), valid=valid, variant="fast", shards=16, cpu=400, shrink=lambda c: [], rule=OPEN + "120 sessions of one threshold and input"),
]
