"""C16: aggregated transfers."""
from ..engine import Facet
from ..dmelib import *


def gen(r, lo=1, hi=3, sizes=None):
    rounds, c = [], crs(r)
    pool = publics(c)
    for _ in range(r.int(lo, hi)):
        n = r.pick(sizes or (1, 1, 2, 2, 3, 4, r.int(5, 7)))
        ms = [[message_like(r, pool, False, 0.15), message_like(r, pool, False, 0.15)] for _ in range(n)]
        if n > 1 and r.chance(0.3):
            j = r.int(1, n - 1)
            ms[j] = [r.pick((["neg", 0], ["same", 0])), r.pick((["neg", 0], ["same", 0]))]
        rounds.append(dict(b=r.int(0, 1), ms=ms, order=r.sample(range(n), n) + ([r.randrange(n) for _ in range(r.int(1, 3))] if r.chance(0.15) else []), rep=r.chance(0.2), snd=[r.int(0, 3) for _ in range(n)]))
    return dict(crs=c, burn=burn(r), rounds=rounds, recvs=r.int(1, 2))


def valid(d):
    return valid_crs(d["crs"]) and d["recvs"] > 0 and d["rounds"] and all(x["ms"] and set(x["order"]) == set(range(len(x["ms"]))) and len(x["snd"]) == len(x["ms"]) and
        all(len(m) == 2 and all(y[0] not in ("neg", "same") or i for y in m) for i, m in enumerate(x["ms"])) for x in d["rounds"])


def check(case, ctx):
    cmds = ["burn %d" % case["burn"]] + crs_cmds(case["crs"]) + ["drecv r%d c" % i for i in range(case["recvs"])] + ["dsender s%d c" % i for i in range(4)] + ["proxy p c"]
    exp = []
    for k, x in enumerate(case["rounds"]):
        rcv = "r%d" % (k % case["recvs"])
        cmds.append("dselect %s q%d %d" % (rcv, k, x["b"]))
        vals, made = [], []
        for i, m in enumerate(x["ms"]):
            v = []
            for c in (0, 1):
                d = m[c]
                v.append(S.neg(vals[0][c]) if d[0] == "neg" else vals[0][c] if d[0] == "same" else pt("s", d))
            vals.append(v)
            cmds.append("dofferp s%d o%d_%d q%d %s %s" % (x["snd"][i], k, i, k, P(v[0]), P(v[1])))
            made.append(len(cmds) - 1)
        total = None
        for i in x["order"]:
            total = S.add(total, vals[i][x["b"]])
        if len(x["order"]) > len(vals):
            ctx.label("a reply given twice")
        regs = " ".join("o%d_%d" % (k, i) for i in x["order"])
        cmds += ["aggregate p a%d %s" % (k, regs), "dopen %s a%d" % (rcv, k)]
        exp.append((len(cmds) - 1, total))
        if x["rep"]:  # the proxy aggregates the same replies again, the receiver opens again
            cmds += ["aggregate p b%d %s" % (k, regs), "dopen %s b%d" % (rcv, k), "dopen %s a%d" % (rcv, k)]
            exp += [(len(cmds) - 2, total), (len(cmds) - 1, total)]
        for i, j in enumerate(made):
            cmds.append("reply o%d_%d" % (k, i))
            exp.append((len(cmds) - 1, ("same", j)))
        ctx.label("%s senders, choice %d" % (len(x["ms"]) if len(x["ms"]) < 4 else "4 or more", x["b"]))
        if total is None:
            ctx.label("sum is infinity")
    out = ctx(*cmds)
    for k, want in exp:
        if isinstance(want, tuple) and want[0] == "same":
            expect(out[k], out[want[1]], "a sender's reply after aggregation")
        else:
            w = rd(out[k])
            expect(w.pt(), want, "message opened by '%s'" % cmds[k])
            expect(w.d(), 1, "validity of the opened message")


def gen_lists(r):
    """few replies, each of them aggregated many times"""
    d = gen(r, 1, 2, (r.int(2, 6),))
    for x in d["rounds"]:
        n = len(x["ms"])
        x["order"] = x["order"][:n] + [r.randrange(n) for _ in range(r.pick((r.int(60, 70), r.int(120, 135), r.int(250, 260), r.int(200, 400), r.int(500, 520))) - n)]
        r.shuffle(x["order"])
    return d


nt = lambda d: any(len(x["ms"]) > 1 for x in d["rounds"])
RULE = "1-3 rounds on one proxy: choice, 1-7 senders (some reused), points (equal, opposite, infinity), any order of replies, repeated aggregation; non-trivial if a round has several senders"
FACETS = [
    Facet("rounds", "d_dme", check, 800, 25000, gen=gen, valid=valid, nontrivial=nt, variant="fast", rule=RULE),
    Facet("long-histories", "d_dme", check, 16, 240, gen=lambda r: gen(r, 12, 30, (1, 1, 2)), valid=valid, nontrivial=nt, variant="fast", cpu=120, shards=16, rule="12-30 rounds of 1-2 senders"),
    Facet("many-senders", "d_dme", check, 16, 240, gen=lambda r: gen(r, 1, 2, (r.pick((r.int(20, 40), r.int(20, 40), r.int(60, 70), r.int(20, 70))),)), valid=valid, nontrivial=nt, variant="fast", cpu=120, shards=16, rule="1-2 rounds of 20-70 senders"),
    Facet("long-lists", "d_dme", check, 40, 600, gen=gen_lists, valid=valid, nontrivial=nt, variant="fast", cpu=120, rule="1-2 rounds of 2-6 senders whose replies are aggregated many times, lists of 60-520 replies"),
    Facet("rounds-sanitized", "d_dme", check, 64, 1500, gen=gen, valid=valid, nontrivial=nt, rule="the same under sanitizers"),
]
