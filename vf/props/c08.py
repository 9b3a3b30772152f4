"""C08: decryption on the key's own branch, over histories of keys, instances and ciphertexts."""
from ..engine import Facet
from ..dmelib import *


def gen(r, minops=1, maxops=5):
    d = dict(crs=crs(r), burn=burn(r), insts=r.int(1, 3), keys=[], cts=[])
    for _ in range(r.int(1, 3)):
        d["keys"].append([r.int(0, 2), r.int(0, 1)])
        if d["crs"]["kind"] == "pts" and r.chance(0.3):
            d["keys"][-1].append(made_key(r))
    pool = publics(d["crs"], [k[1:] for k in d["keys"] if len(k) > 2])
    for _ in range(r.int(minops, maxops)):
        d["cts"].append([r.int(0, 2), r.randrange(len(d["keys"])), message_like(r, pool), r.int(0, 2)])
    d["late"] = r.chance(0.6)
    return d


def gen_walk(r):
    ms = walk(r, r.int(5, 10), r.chance(0.6))
    return dict(crs=crs(r), burn=burn(r), insts=r.int(1, 2), keys=[[0, r.int(0, 1)]], cts=[[0, 0, m, 1] for m in ms], late=r.chance(0.6))


def valid(d):
    return valid_crs(d["crs"]) and d["insts"] >= 1 and d["keys"] and d["cts"] and all(len(k) == 2 or len(k) == 3 and 0 < k[2] < S.n and d["crs"]["kind"] == "pts" for k in d["keys"]) and all(valid_message(c[2]) and 0 <= c[1] < len(d["keys"]) for c in d["cts"])


def check(case, ctx):
    n = case["insts"]
    cmds = ["burn %d" % case["burn"]] + crs_cmds(case["crs"]) + ["newcrs i%d c" % i for i in range(n)]
    checks = {}
    decs = []

    def key(k):
        i, b = case["keys"][k][:2]
        if len(case["keys"][k]) > 2:  # a public key built from a chosen secret key
            e, s = case["crs"]["e"], case["keys"][k][2]
            cmds.extend(["pk k%d %s %s" % (k, P(S.mulG(e[b] * s)), P(S.mulG(e[2 + b] * s))), "sk k%d %s" % (k, z(s))])
            ctx.label("chosen secret key")
            return
        cmds.append("keygen i%d k%d %d" % (i % n, k, b))
        checks[len(cmds) - 1] = ("key", b, k)
    if case["late"]:
        for k in range(len(case["keys"])):
            key(k)
    made = set(range(len(case["keys"]))) if case["late"] else set()
    for j, (ie, k, m, idd) in enumerate(case["cts"]):
        if k not in made:
            key(k)
            made.add(k)
        b = case["keys"][k][1]
        if m[0] == "z":
            cmds.append("encz i%d e%d k%d %d %s" % (ie % n, j, k, b, z(m[1])))
            decs.append(("decz i%d k%d e%d" % (idd % n, k, j), m))
        else:
            cmds.append("encp i%d e%d k%d %d %s" % (ie % n, j, k, b, P(pt("s", m))))
            decs.append(("dec i%d k%d e%d" % (idd % n, k, j), m))
        if not case["late"]:
            cmds.append(decs[-1][0])
            checks[len(cmds) - 1] = ("dec", m, decs[-1][0])
        ctx.label("branch %d, %s" % (b, "integer" if m[0] == "z" else "infinity" if m[0] == "inf" else "point"))
    if case["late"]:
        for c, m in reversed(decs):
            cmds.append(c)
            checks[len(cmds) - 1] = ("dec", m, c)
    out = ctx(*cmds)
    for i, c in checks.items():
        w = rd(out[i])
        if c[0] == "dec":
            _, m, cmd = c
            if m[0] == "z":
                expect(w.x(), m[1], "decryption '%s' (%s reference string)" % (cmd, case["crs"]["kind"]))
            else:
                expect(w.pt(), pt("s", m), "decryption '%s' (%s reference string)" % (cmd, case["crs"]["kind"]))
                expect(w.d(), 1, "validity of the decrypted point")
        elif case["crs"]["kind"] == "pts":
            e = case["crs"]["e"]
            b = c[1]
            g, h, sk = w.pt(), w.pt(), w.x()
            expect((g, h), (S.mulG(e[b] * sk), S.mulG(e[2 + b] * sk)), "public key made from secret key %x for branch %d" % (sk, b))


def check_own(case, ctx):
    """the instance that made its reference string, against instances that received it"""
    m = case["m"]
    cmds = ["burn %d" % case["burn"], "new a " + case["mode"], "crsof c a", "newcrs b c", "newplain x", "crsplain cx x", "newcrs y cx"]
    exp = []
    for i, (kb, b, ie, idd) in enumerate(case["rounds"]):
        names = "ab"
        cmds.append("keygen %s k%d %d" % (names[kb], i, b))
        if m[0] == "z":
            cmds += ["encz %s e%d k%d %d %s" % (names[ie], i, i, b, z(m[1])), "decz %s k%d e%d" % (names[idd], i, i)]
        else:
            cmds += ["encp %s e%d k%d %d %s" % (names[ie], i, i, b, P(pt("s", m))), "dec %s k%d e%d" % (names[idd], i, i)]
        exp.append(len(cmds) - 1)
    out = ctx(*cmds)
    for k in exp:
        w = rd(out[k])
        expect(w.x() if m[0] == "z" else w.pt(), m[1] if m[0] == "z" else pt("s", m), "decryption '%s'" % cmds[k])


def gen_own(r):
    return dict(burn=burn(r), mode=r.pick(("messy", "dec")), m=message(r), rounds=[[r.int(0, 1) for _ in range(4)] for _ in range(r.int(1, 4))])


nt = lambda d: any(c[2][0] != "inf" for c in d["cts"])
RULE = "reference string of one of four kinds (possibly copied), 1-3 instances, 1-3 keys on either branch, 1-5 point or integer messages, decrypted at once or in reverse order; non-trivial if a message is not infinity"
FACETS = [
    Facet("histories", "d_dme", check, 1500, 40000, gen=gen, valid=valid, nontrivial=nt, variant="fast", rule=RULE),
    Facet("histories-sanitized", "d_dme", check, 160, 2500, gen=gen, valid=valid, nontrivial=nt, rule="the same under sanitizers"),
    Facet("long-histories", "d_dme", check, 16, 240, gen=lambda r: gen(r, 50, 110), valid=valid, nontrivial=nt, variant="fast", cpu=120, shards=16, rule="the same with 50-110 messages"),
    Facet("walks", "d_dme", check, 240, 8000, gen=gen_walk, valid=valid, nontrivial=nt, variant="fast", rule="5-10 messages under one key, each related to (often a few bits away from) the one before"),
    Facet("originator", "d_dme", check_own, 500, 10000, gen=gen_own, valid=lambda d: valid_message(d["m"]), variant="fast", rule="the instance that generated the reference string talks to one that received it, in both directions"),
]
