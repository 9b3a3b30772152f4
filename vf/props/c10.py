"""C10: trapdoors and the structure of reference strings."""
from ..engine import Facet
from ..dmelib import *


def gen_messy(r):
    return dict(burn=burn(r), keys=[[r.int(0, 2), r.int(0, 1)] + ([made_key(r)] if r.chance(0.35) else []) for _ in range(r.int(1, 5))], enc=r.chance(0.4), m=point(r, "s", 0), others=r.int(0, 2))


def valid_messy(d):
    return d["keys"] and all(len(k) in (2, 3) and 0 <= k[0] <= 2 and (len(k) < 3 or 0 < k[2] < S.n) for k in d["keys"]) and valid_message(d["m"]) and d["m"][0] != "inf"


def check_messy(case, ctx):
    cmds = ["burn %d" % case["burn"]] + ["new o%d messy" % i for i in range(case["others"])] + ["new a messy", "crsof c a", "newcrs b c", "newcrs d c", "crs c", "crsvalid c"]
    m = pt("s", case["m"])
    out = ctx(*cmds)
    crs0 = out[-2]
    ps = structure(*out[-2:])
    cmds, exp = [], []
    for i, key in enumerate(case["keys"]):
        w, b = key[:2]
        if len(key) > 2:
            cmds += ["pk k%d %s %s" % (i, P(S.mul(key[2], ps[b])), P(S.mul(key[2], ps[2 + b]))), "sk k%d %s" % (i, z(key[2])), "messybranch a k%d" % i]
        else:
            cmds += ["keygen %s k%d %d" % ("abd"[w], i, b), "messybranch a k%d" % i]
        exp.append((len(cmds) - 1, 1 - b))
        if case["enc"]:
            cmds += ["encp b e k%d %d %s" % (i, 1 - b, P(m)), "dec b k%d e" % i, "encp b f k%d %d %s" % (i, b, P(m)), "dec d k%d f" % i]
    cmds += ["messybranch a k%d" % i for i in range(len(case["keys"]))] + ["crs c", "instcrs a"]
    out = ctx(*cmds)
    for k, want in exp:
        expect(int(out[k][0]), want, "messy branch of a key made for branch %d" % (1 - want))
        if case["enc"]:
            require(rd(out[k + 2]).pt() != m, "the branch named messy decrypts")
            expect(rd(out[k + 4]).pt(), m, "decryption on the other branch")
    n = len(case["keys"])
    expect([int(x[0]) for x in out[-2 - n:-2]], [1 - k[1] for k in case["keys"]], "messy branches asked again at the end")
    expect((out[-2], out[-1]), (crs0, crs0), "reference string at the end")


def structure(crs, valid):
    w = rd(crs)
    ps = [w.pt() for _ in range(4)]
    require(all(p is not None and S.on(p) for p in ps), "a point of the reference string is infinity or invalid: %s" % crs)
    require(len(set(ps)) == 4, "points of the reference string coincide: %s" % crs)
    require(len({p[0] for p in ps}) == 4, "points of the reference string are opposite: %s" % crs)
    expect(valid, ["1111"], "validity of the reference string's points")
    return ps


def gen_dec(r):
    return dict(burn=burn(r), traps=[[message(r), message(r)] for _ in range(r.int(1, 2))], keys=r.int(0, 1), others=r.int(0, 2), also=r.chance(0.4))


def check_dec(case, ctx):
    cmds = ["burn %d" % case["burn"]] + ["new o%d dec" % i for i in range(case["others"])] + (["trap o%d u" % i for i in range(case["others"])] if case["also"] else []) + ["new a dec", "crsof c a", "newcrs b c", "crs c", "crsvalid c"]
    k0 = len(cmds)
    exp, traps = [], []
    for i, ms in enumerate(case["traps"]):
        cmds.append("trap a t%d" % i)
        traps.append(len(cmds) - 1)
        for b in (0, 1):
            m = ms[b]
            if m[0] == "z":
                cmds += ["encz b e%d%d t%d %d %s" % (i, b, i, b, z(m[1])), "decz %s t%d_%d e%d%d" % ("ab"[b], i, b, i, b)]
                exp.append((len(cmds) - 1, m[1], b))
            else:
                cmds += ["encp b e%d%d t%d %d %s" % (i, b, i, b, P(pt("s", m))), "dec %s t%d_%d e%d%d" % ("ab"[b], i, b, i, b)]
                exp.append((len(cmds) - 1, pt("s", m), b))
        if case["keys"]:
            cmds += ["keygen a k%d 1" % i, "encp a x k%d 1 %s" % (i, P(S.G)), "dec b k%d x" % i]
            exp.append((len(cmds) - 1, S.G, 1))
    out = ctx(*cmds)
    ps = structure(out[k0 - 2], out[k0 - 1])
    for k, want, b in exp:
        w = rd(out[k])
        expect(w.x() if isinstance(want, int) else w.pt(), want, "decryption '%s' on branch %d" % (cmds[k], b))
    for k in traps:
        w = rd(out[k])
        g, h, s0, s1 = w.pt(), w.pt(), w.x(), w.x()
        require(0 < s0 < S.n and 0 < s1 < S.n and s0 != s1, "degenerate trapdoor keys %x %x" % (s0, s1))
        for b, s in ((0, s0), (1, s1)):
            expect((g, h), (S.mul(s, ps[b]), S.mul(s, ps[2 + b])), "public key as a key of branch %d" % b)
        y = s0 * pow(s1, -1, S.n)
        expect((ps[1], ps[3]), (S.mul(y, ps[0]), S.mul(y, ps[2])), "Diffie-Hellman relation of the reference string")


def gen_struct(r):
    return dict(burn=burn(r), l=[r.pick(("messy", "dec", "rnd", "plain-messy", "plain-dec")) for _ in range(r.int(2, 4))])


def check_struct(case, ctx):
    cmds = ["burn %d" % case["burn"]]
    for i, k in enumerate(case["l"]):
        if k.startswith("plain"):
            cmds += ["newplainmode p%d %s" % (i, k[6:]), "crsplain c%d p%d" % (i, i)]
        elif k == "rnd":
            cmds += ["newplain p%d" % i, "crsplain c%d p%d" % (i, i)]
        else:
            cmds += ["new p%d %s" % (i, k), "crsof c%d p%d" % (i, i)]
        cmds += ["crs c%d" % i, "crsvalid c%d" % i]
    # keys from a messy reference string are told apart; in decryption mode the two branches are related and cannot be
    out = ctx(*cmds)
    allp = []
    for i, k in enumerate(case["l"]):
        allp += structure(out[4 * i + 3], out[4 * i + 4])
    require(len(set(allp)) == len(allp), "two reference strings share a point")


FACETS = [
    Facet("messy", "d_dme", check_messy, 800, 20000, gen=gen_messy, valid=valid_messy, variant="fast", rule="1-5 keys made by three instances or built from a chosen (often tiny) secret key on one messy reference string; the trapdoor's answer, twice, and decryption on both branches"),
    Facet("messy-sanitized", "d_dme", check_messy, 80, 1200, gen=gen_messy, valid=valid_messy, rule="the same under sanitizers"),
    Facet("decryption", "d_dme", check_dec, 600, 15000, gen=gen_dec, valid=lambda d: all(valid_message(m) for t in d["traps"] for m in t) and all(len(t) == 2 for t in d["traps"]), variant="fast",
          rule="1-2 trapdoor key generations; both secret keys decrypt on their branches, match the public key, and give the Diffie-Hellman ratio"),
    Facet("structure", "d_dme", check_struct, 400, 6000, gen=gen_struct, variant="fast", rule="points of 2-4 reference strings of any mode: valid, finite, distinct, fresh"),
]
