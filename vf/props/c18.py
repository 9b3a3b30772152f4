"""C18: complete protocol runs with an input above the threshold."""
from ..engine import Facet
from ..opprflib import *

FIXED = [(0, 1), (0, TOP), (TOP - 1, TOP), (0x7FFF, 0x8000), (0, 0x8000), (0x7FFF, TOP), (1, 2), (1, 3), (0xFF, 0x100), (0x5555, 0xAAAA), (0xFFFE, 0xFFFF), (2, 3)]


def plan(r, n):
    pairs = list(FIXED)
    b = 0
    while len(pairs) < n:
        pairs.append(diverging(r, b // 2 % 16, True) if b % 2 else above(r))
        b += 1
    return [dict(surroundings(r), theta=t, x=x, again=r.pick((0, 0, 0, 1, 2))) for t, x in pairs[:n]]


def valid(d):
    return valid_surroundings(d) and 0 <= d["theta"] < d["x"] <= TOP and 0 <= d["again"] <= 2


SESSION = ["prepare s", "roundsv s k 16 1", "masks m s", "unmask k m", "result k", "kopprf s"]


def partial(case, ga, w):
    """the client's result before the masks, then what each round added to it less the input's own share of the secret"""
    prev, shares = None, []
    for b in range(15, -1, -1):
        p = w.pt()
        shares.append(S.sub(S.sub(p, prev), S.mul(1 << b, ga) if case["x"] >> b & 1 else None))
        prev = p
    return [prev] + shares


def blind(case, ga, key, mask, shares, old):
    """the shares of the rounds and the mask are unrelated: not equal, opposite or infinite, also not up to the secret point, nor to those of earlier sessions"""
    total = None
    new = {}
    for i, p in enumerate(shares[1:] + [mask]):
        what = "the share of round %d" % (16 - i) if i < 16 else "the mask"
        require(p is not None, "threshold %d, input %d: %s is infinity" % (case["theta"], case["x"], what))
        for q, how in ((p, ""), (S.add(p, ga), " plus the secret"), (S.sub(p, ga), " minus the secret")):
            if q is not None:
                for d in (new, old):
                    require(q[0] not in d, "threshold %d, input %d: %s%s is, up to its sign, %s" % (case["theta"], case["x"], what, how, d.get(q[0])))
                require(q[0] != key[0], "threshold %d, input %d: %s%s is, up to its sign, the session key point" % (case["theta"], case["x"], what, how))
        new[p[0]] = what
        if i < 16:
            total = S.add(total, p)
            if 0 < i:
                require(total is not None, "the shares of the first %d rounds sum to infinity" % (i + 1))
                new.setdefault(total[0], "the sum of the shares of the first %d rounds" % (i + 1))
    for x, what in new.items():
        old[x] = what + " in an earlier session"


def check(case, ctx):
    ga = pt("s", case["ga"])
    cmds = start(case) + ["server s %d c" % case["theta"], "client k c", "secret s " + P(ga), "message k %d" % case["x"]] + SESSION
    ends = [len(cmds)]
    for _ in range(case["again"]):
        cmds += ["cleans s", "cleanc k"] + SESSION
        ends.append(len(cmds))
    out = ctx(*cmds)
    seen, old = [], {}
    for e in ends:
        w, v = rd(out[e - 2]), rd(out[e - 1])
        res, key = w.pt(), v.pt()
        j = multiple(S.sub(res, key), ga)
        require(j is None, "threshold %d, input %d: the client's result is the session key point plus %s times the secret" % (case["theta"], case["x"], j))
        expect(w.d(), 1, "validity of the result")
        require(key is not None, "the session key point is infinity")
        shares = partial(case, ga, rd(out[e - 5]))
        mask = S.sub(res, shares[0])
        blind(case, ga, key, mask, shares, old)
        require(res not in seen, "two runs above the threshold give the same result")
        require(res != key, "the result is the session key point")
        # what is left of the result once the input's share is taken away does not repeat either
        rest = S.sub(res, S.mul(case["x"], ga))
        require(rest not in seen, "two runs above the threshold give the same mask")
        seen += [res, rest]
    ctx.label("first difference at bit %d" % ((case["x"] ^ case["theta"]).bit_length() - 1))
    if case["again"]:
        ctx.label("repeated sessions")


FACETS = [
    Facet("runs", "d_opprf", check, 76, 3600, plan=plan, valid=valid, variant="fast", shards=16,
          rule="threshold and input first differing at each of the 16 bits, adjacent, 0 and 65535; the result minus the session key point is not j times the secret for any j in 0..65535, results of repeated sessions differ; every case counts as non-trivial"),
    Facet("runs-open", "d_opprf_open", check, 1600, 40000, confirm="runs", plan=plan, valid=valid, variant="fast", shards=16, rule=OPEN + "the same cases, many more thresholds and inputs"),
    Facet("runs-sanitized", "d_opprf", check, 8, 200, plan=lambda r, n: plan(r, n + 12)[12:], valid=valid, shards=16, cpu=250, rule="the same under sanitizers"),
]
