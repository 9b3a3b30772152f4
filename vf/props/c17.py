"""C17: complete protocol runs with an input not above the threshold."""
from ..engine import Facet
from ..opprflib import *

FIXED = [(0, 0), (TOP, TOP), (TOP, 0), (1, 0), (1, 1), (TOP, TOP - 1), (0x8000, 0x7FFF), (0x8000, 0x8000), (0x8000, 0), (0x7FFF, 0x7FFF), (0x0100, 0x00FF), (0x5555, 0x5555), (0xAAAA, 0x5555)]


def plan(r, n):
    """fixed corners, then divergence at each bit in turn, then anything"""
    pairs = list(FIXED)
    b = 0
    while len(pairs) < n:
        pairs.append(diverging(r, b // 2 % 16, False) if b % 2 else below(r))
        b += 1
    return [dict(surroundings(r), theta=t, x=x) for t, x in pairs[:n]]


def valid(d):
    return valid_surroundings(d) and 0 <= d["x"] <= d["theta"] <= TOP


def check(case, ctx):
    ga = pt("s", case["ga"])
    out = ctx(*(start(case) + ["server s %d c" % case["theta"], "client k c", "secret s " + P(ga), "message k %d" % case["x"], "prepare s", "rounds s k 16 1",
                               "masks m s", "unmask k m", "result k", "kopprf s"]))
    w, v = rd(out[-2]), rd(out[-1])
    res, key = w.pt(), v.pt()
    expect(v.d(), 1, "validity of the session key point")
    require(key is not None, "the session key point is infinity")
    expect(res, S.add(key, S.mul(case["x"], ga)), "result of the client (threshold %d, input %d)" % (case["theta"], case["x"]))
    expect(w.d(), 1, "validity of the result")
    d = case["x"] ^ case["theta"]
    ctx.label("equal" if d == 0 else "first difference at bit %d" % (d.bit_length() - 1))


RULE = "threshold and input agreeing down to each of the 16 bits, equal, adjacent, 0 and 65535; secret point random, infinity or a small multiple; all kinds of reference strings, random states; non-trivial unless input and threshold are 0"
FACETS = [
    Facet("runs", "d_opprf", check, 100, 5000, plan=plan, valid=valid, variant="fast", nontrivial=lambda d: d["theta"] > 0, shards=16, rule=RULE),
    Facet("runs-open", "d_opprf_open", check, 2400, 60000, confirm="runs", plan=lambda r, n: plan(r, n), valid=valid, variant="fast", nontrivial=lambda d: d["theta"] > 0, shards=16, rule=OPEN + "the same cases, many more thresholds and inputs"),
    Facet("runs-sanitized", "d_opprf", check, 8, 300, plan=lambda r, n: plan(r, n + 13)[13:], valid=valid, nontrivial=lambda d: d["theta"] > 0, shards=16, cpu=200, rule="the same under sanitizers"),
]
