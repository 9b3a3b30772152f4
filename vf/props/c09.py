"""C09: nothing on the other branch; fresh randomness in every encryption."""
from ..engine import Facet
from ..dmelib import *

HIDING = ["messy", "rnd", "pts", "pts"]


def gen_wrong(r):
    c = crs(r, HIDING)
    pool, keys = publics(c), []
    for _ in range(r.int(1, 3)):
        b, sk = r.int(0, 1), [made_key(r)] if c["kind"] == "pts" and r.chance(0.4) else []
        keys.append([b, message_like(r, pool + publics(c, [(b, k) for k in sk]))] + sk)
        pool.append(keys[-1][1])
    return dict(crs=c, burn=burn(r), keys=keys)


def valid_wrong(d):
    return valid_crs(d["crs"]) and d["keys"] and all(valid_message(k[1]) and (len(k) == 2 or d["crs"]["kind"] == "pts" and 0 < k[2] < S.n) for k in d["keys"])


def check_wrong(case, ctx):
    cmds = ["burn %d" % case["burn"]] + crs_cmds(case["crs"]) + ["newcrs i c", "newcrs j c"]
    exp = []
    for n, (b, m, *sk) in enumerate(case["keys"]):
        if sk:
            e = case["crs"]["e"]
            cmds += ["pk k%d %s %s" % (n, P(S.mulG(e[b] * sk[0])), P(S.mulG(e[2 + b] * sk[0]))), "sk k%d %s" % (n, z(sk[0]))]
        else:
            cmds.append("keygen i k%d %d" % (n, b))
        for e in range(2):
            if m[0] == "z":
                cmds += ["encz j e%d k%d %d %s" % (n, n, 1 - b, z(m[1])), "decz i k%d e%d" % (n, n)]
            else:
                cmds += ["encp j e%d k%d %d %s" % (n, n, 1 - b, P(pt("s", m))), "dec i k%d e%d" % (n, n)]
            exp.append((len(cmds) - 1, m))
    out = ctx(*cmds)
    for k, m in exp:
        w = rd(out[k])
        if m[0] == "z":
            require(w.x() != m[1], "'%s' recovered an integer encrypted on the other branch" % cmds[k])
        else:
            require(w.pt() != pt("s", m), "'%s' recovered a point encrypted on the other branch" % cmds[k])


RATIOS = [(1, 0), (0, 1)] + [(s, g * t) for s in range(1, 4) for t in range(1, 4) if s == 1 or t == 1 or s + t == 5 for g in (1, -1)]


def gen_attack(r):
    d = dict(e=exponents(r), burn=burn(r), b=r.int(0, 1), own=r.chance(0.4), sk=made_key(r))
    pool = publics(d["e"], [(d["b"], d["sk"])])
    d["m"] = [message_like(r, pool, False) for _ in range(r.int(2, 3))]
    return d


def valid_attack(d):
    return valid_exponents(d["e"]) and d["m"] and all(valid_message(m) and m[0] != "z" for m in d["m"]) and 0 < d["sk"] < S.n


def check_attack(case, ctx):
    """the harness knows the exponents e of the reference string and the secret key, hence every key a known linear relation between the
    two randomisers would give; none of them, applied to a ciphertext or to the difference of two, may reveal the message"""
    e, b = case["e"], case["b"]
    o = 1 - b
    cmds = ["burn %d" % case["burn"]] + crs_cmds(dict(kind="pts", e=e)) + ["newcrs i c", "newcrs j c"]
    if case["own"]:
        cmds.append("keygen i k %d" % b)
    else:
        cmds.append("pk k %s %s" % (P(S.mulG(e[b] * case["sk"])), P(S.mulG(e[2 + b] * case["sk"]))))
    ms = [pt("s", m) for m in case["m"]]
    cmds += ["encp j e%d k %d %s" % (i, o, P(m)) for i, m in enumerate(ms)]
    out = ctx(*cmds)
    k = len(cmds) - len(ms)
    sk = int(out[k - 1][-1], 16) if case["own"] else case["sk"]
    cts = []
    for x in out[k:]:
        w = rd(x)
        cts.append((w.pt(), w.pt()))
    targets = [(c[0], c[1], m, "the ciphertext") for c, m in zip(cts, ms)]
    for i in range(1, len(cts)):
        targets.append((S.sub(cts[i][0], cts[i - 1][0]), S.sub(cts[i][1], cts[i - 1][1]), S.sub(ms[i], ms[i - 1]), "the difference of two ciphertexts"))
    keys = {}
    for s, t in RATIOS:
        den = s * e[o] + t * e[2 + o]
        if den % S.n:
            keys["randomisers in ratio %d:%d" % (s, t)] = sk * (s * e[b] + t * e[2 + b]) * pow(den, -1, S.n) % S.n
    keys["the key itself"] = sk
    keys["no key"] = 0
    keys["the inverse key"] = pow(sk, -1, S.n)
    for u, v, m, what in targets:
        for name, key in keys.items():
            if S.sub(v, S.mul(key, u)) == m:
                require(False, "the secret key of branch %d and %s reveal a message encrypted on branch %d (%s)" % (b, what, o, name))


def gen_small(r):
    return dict(e=exponents(r), burn=burn(r), b=r.int(0, 1), n=3, sk=made_key(r))


def check_small(case, ctx):
    """the two randomisers are not both below 2^11"""
    e, b = case["e"], case["b"]
    out = ctx("burn %d" % case["burn"], *(crs_cmds(dict(kind="pts", e=e)) + ["newcrs i c", "pk k %s %s" % (P(S.mulG(e[b] * case["sk"])), P(S.mulG(e[2 + b] * case["sk"])))] +
                                          ["encp i e%d k %d inf" % (i, b) for i in range(case["n"])]))
    g, h = S.mulG(e[b]), S.neg(S.mulG(e[2 + b]))
    lim = 1 << 11
    tab, p = {None: 0}, None
    for s in range(1, lim):
        p = S.add(p, g)
        tab[p] = s
    for x in out[-case["n"]:]:
        q = rd(x).pt()
        for t in range(lim):
            require(q not in tab, "a ciphertext uses the randomisers %s and %d" % (tab.get(q), t))
            q = S.add(q, h)


def gen_fresh(r):
    return dict(crs=crs(r), burn=burn(r), same=r.chance(0.5), m=[message_like(r, pool) for pool in [[]] for _ in range(4)], ops=[[r.int(0, 1), r.int(0, 1), r.int(0, 3), r.int(0, 1)] for _ in range(r.int(4, 14))])


def valid_fresh(d):
    return valid_crs(d["crs"]) and len(d["m"]) == 4 and all(valid_message(m) for m in d["m"])


def check_fresh(case, ctx):
    cmds = ["burn %d" % case["burn"]] + crs_cmds(case["crs"]) + ["newcrs i0 c", "newcrs i1 c", "keygen i0 k0 0", "keygen i1 k1 1", "crs c"]
    base = len(cmds)
    ms = []
    for n, (i, k, mi, b) in enumerate(case["ops"]):
        m = case["m"][0 if case["same"] else mi]
        ms.append(m)
        cmds.append("encz i%d e%d k%d %d %s" % (i, n, k, b, z(m[1])) if m[0] == "z" else "encp i%d e%d k%d %d %s" % (i, n, k, b, P(pt("s", m))))
    out = ctx(*cmds)
    known = {}
    w = rd(out[base - 1])
    for name in ("g0", "g1", "h0", "h1"):
        known[w.pt()] = name + " of the reference string"
    for k in (base - 3, base - 2):
        w = rd(out[k])
        known[w.pt()] = "a public key component"
        known[w.pt()] = "a public key component"
    for m in ms:
        if m[0] not in ("z", "inf"):
            known[pt("s", m)] = "a message"
    for n, (x, m) in enumerate(zip(out[base:], ms)):
        w = rd(x)
        for c, name in ((w.pt(), "first component"), (w.pt(), "second component")):
            require(c is not None, "%s of ciphertext %d is infinity" % (name, n))
            if m[0] == "z":
                require(c[0] >> 10 != m[1], "%s of ciphertext %d shows the message" % (name, n))
            for p in (c, S.neg(c)):
                require(p not in known, "%s of ciphertext %d repeats %s" % (name, n, known.get(p)))
            known[c] = "the %s of ciphertext %d" % (name, n)


FACETS = [
    Facet("wrong-branch", "d_dme", check_wrong, 800, 20000, gen=gen_wrong, valid=valid_wrong, variant="fast", nontrivial=lambda d: any(k[1][0] != "inf" for k in d["keys"]),
          rule="keys of one branch against messages encrypted on the other one; non-trivial if a message is not infinity"),
    Facet("derived-keys", "d_dme", check_attack, 400, 10000, gen=gen_attack, valid=valid_attack, variant="fast",
          rule="reference strings with known exponents; nineteen derived keys against every ciphertext and every difference of consecutive ones"),
    Facet("small-randomisers", "d_dme", check_small, 32, 400, gen=gen_small, variant="fast", rule="the randomisers of three encryptions are searched below 2^11 each, by tables"),
    Facet("fresh", "d_dme", check_fresh, 600, 15000, gen=gen_fresh, valid=valid_fresh, variant="fast", nontrivial=lambda d: len(d["ops"]) >= 5,
          rule="4-14 encryptions, mostly of one message, on two keys, instances and branches: no component repeats another, a key, a reference point or the message; non-trivial from 5 encryptions on"),
]
