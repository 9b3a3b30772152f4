"""C12: integer messages as points."""
from ..engine import Facet
from ..dmelib import *
from .. import bulk


def check_dme(case, ctx):
    ms = case["m"]
    cmds = ["crsrnd c", "newcrs i c", "newcrs j c"]
    for m in ms:
        cmds += ["encode i " + z(m), "encode j " + z(m)]
    out = ctx(*cmds)[3:]
    seen = {}
    for k, m in enumerate(ms):
        ps = []
        for o in out[2 * k:2 * k + 2]:
            w = rd(o)
            p = w.pt()
            require(p is not None, "%s encodes to infinity" % z(m))
            require(S.on(p) and p[0] < S.p, "%s encodes to a point off the curve" % z(m))
            expect(w.d(), 1, "validity of the encoding of %s" % z(m))
            expect(w.x(), m, "decoding of the encoding of %s" % z(m))
            ps.append(p)
        expect(ps[0], ps[1], "encoding of %s, made again" % z(m))
        require(ps[0] not in seen or seen[ps[0]] == m, "%s and %s encode to the same point" % (z(m), z(seen.get(ps[0], 0))))
        seen[ps[0]] = m
        run = (ps[0][0] - (m << 10)) if ps[0][0] >= m << 10 else 0
        ctx.label("first candidate" if run == 0 else "1-4 more candidates" if run < 5 else "5-11 more candidates" if run < 12 else "12 or more candidates")


def gen_dme(r):
    ms = [message_int(r) for _ in range(r.int(1, 4))]
    if r.chance(0.5):
        ms += [min(ZMAX, ms[0] + 1), max(0, ms[0] - 1)]
    return dict(m=ms)


def check_negated(case, ctx):
    """decoding depends on the x coordinate only through its high bits: every candidate of a message decodes to it"""
    m = case["m"]
    cmds, n = ["crsrnd c", "newcrs i c"], 0
    for k in case["k"]:
        x = (m << 10) + k
        y = S.lift(x)
        if y is not None:
            cmds.append("decode i %s" % P((x, S.p - y if case["neg"] else y)))
            n += 1
    for o in ctx(*cmds)[2:]:
        expect(int(o[0], 16), m, "decoding of a candidate of %s" % z(m))


def check_hard(case, ctx):
    return check_dme(case, ctx)


def check_elgamal(case, ctx):
    ms = case["m"]
    cmds = ["burn %d" % case["burn"], "new e", "keygen e k"]
    for i, m in enumerate(ms):
        cmds += ["encz e c%d k %s" % (i, z(m)), "dec e k c%d" % i]
    out = ctx(*cmds)
    sk = int(out[2][0], 16)
    for i, m in enumerate(ms):
        w = rd(out[3 + 2 * i])
        u, v = w.pt(), w.pt()
        p = S.sub(v, S.mul(sk, u))
        require(p is not None and S.on(p), "%s encodes to infinity or off the curve" % z(m))
        expect(p[0] >> 20, m, "high bits of the encoding of %s" % z(m))
        expect(int(out[4 + 2 * i][0], 16), m, "decryption of %s" % z(m))


def plan_hard(shift):
    def plan(r, n):
        h = hard(shift)[:n] + hard("%d strides" % shift)
        return [dict(m=h[i:i + 4], burn=i) for i in range(0, len(h), 4)]
    return plan


def gen_elgamal(r):
    return dict(burn=burn(r), m=[message_int(r, 20) for _ in range(r.int(1, 3))])


in_range = lambda shift: (lambda d: all(0 <= m < S.p >> shift for m in d["m"]))
FACETS = [
    Facet("dual-mode", "d_dme", check_dme, 6000, 120000, gen=gen_dme, valid=in_range(10), variant="fast", rule="1-6 integers in range (edges, neighbours, short, patterned, 128-bit, hard ones), encoded on two instances"),
    Facet("dual-mode-sanitized", "d_dme", check_dme, 800, 8000, gen=gen_dme, valid=in_range(10), rule="the same under sanitizers"),
    Facet("hard", "d_dme", check_dme, 400, 100000, plan=plan_hard(10), valid=in_range(10), variant="fast", rule="the messages of corpus/hard.json, needing up to several dozen candidates (hardest first), and messages none of whose candidates at a wider stride (43-1000) would do"),
    Facet("candidates", "d_dme", check_negated, 1500, 20000, gen=lambda r: dict(m=min(message_int(r), ZMAX - 1), k=[r.int(0, 1023) for _ in range(6)], neg=r.chance(0.5)), valid=lambda d: 0 <= d["m"] < ZMAX and all(0 <= k < 1024 for k in d["k"]), variant="fast",
          rule="six candidate points of a message, either root, decoded"),
    Facet("elgamal", "d_elgamal", check_elgamal, 1500, 20000, gen=gen_elgamal, valid=in_range(20), variant="fast", rule="1-3 integers below p/2^20 through ElGamal encryption; the encoded point is recovered with the reference"),
    Facet("elgamal-hard", "d_elgamal", check_elgamal, 300, 100000, plan=plan_hard(20), valid=in_range(20), variant="fast", rule="the corpus' messages for the 20-bit encoding"),
    bulk.facet("dual-mode-bulk", "d_dme", lambda c: "encode " + bulk.curve("s"), 64, 3200, 8000, "encodings of integers in range: on the curve and decoded"),
]
