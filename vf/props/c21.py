"""C21: keys, ciphertexts, tags and verification."""
from ..engine import Facet
from ..gens import *
from .. import refs
from .c20 import timestamp, values
S = refs.S


def gen(r):
    st = []
    for _ in range(r.int(1, 3)):
        n = r.pick((1, 2, 2, 3, 4, r.int(5, 7)))
        st.append(dict(n=n, t=timestamp(r), m=[r.pick((0, 1, 65535, 32768, r.int(0, 65535))) for _ in range(n)], order=r.sample(range(n), n)))
    return dict(burn=burn(r), steps=st)


def valid(d):
    return d["steps"] and all(len(s["m"]) == s["n"] > 0 and sorted(s["order"]) == list(range(s["n"])) and all(0 <= m <= 65535 for m in s["m"]) and -(1 << 31) <= s["t"] < 1 << 31 for s in d["steps"])


def keys(w, n):
    expect((w.d(), w.d()), (n, n), "numbers of keys")
    ek = [w.x() for _ in range(n)]
    sk = [(w.x(), w.x()) for _ in range(n)]
    return ek, sk, w.x(), w.pt(), w.pt()


def check_keys(ek, sk, ak, vk1, vk2, seen):
    expect((sum(ek) + ak) % S.n, 0, "sum of the encryption keys and the aggregator's key")
    require(0 <= ak < S.n, "the aggregator's key is out of range")
    a = sk[0][0]
    require(all(s[0] == a for s in sk), "users have different tagging secrets")
    expect(vk1, S.mulG(sum(s[1] for s in sk)), "first verification key")
    expect(vk2, S.mulG(a), "second verification key")
    for v in ek + [s[1] for s in sk] + [a]:
        require(0 < v < S.n, "a key is out of range")
        require(v not in seen, "a key repeats")
        seen.add(v)


def check(case, ctx):
    cmds = ["burn %d" % case["burn"], "new o"]
    for k, s in enumerate(case["steps"]):
        cmds += ["setup o s%d %d" % (k, s["n"]), "enck o h%d 1 0 1" % k]
        for i, m in enumerate(s["m"]):
            cmds += ["enc o c%d_%d s%d %d %d %d" % (k, i, k, i, m, s["t"]), "tag o g%d_%d s%d %d %d %d" % (k, i, k, i, m, s["t"])]
    out = iter(ctx(*cmds)[2:])
    seen, hashes = set(), set()
    for k, s in enumerate(case["steps"]):
        ek, sk, ak, vk1, vk2 = keys(rd(next(out)), s["n"])
        check_keys(ek, sk, ak, vk1, vk2, seen)
        h = rd(next(out)).pt()
        require(h is not None and h not in hashes, "the hash point of a setup is infinity or that of an earlier setup")
        hashes.add(h)
        ht = S.mul(s["t"], h)
        for i, m in enumerate(s["m"]):
            w, v = rd(next(out)), rd(next(out))
            expect(w.pt(), S.add(S.mul(ek[i], ht), S.mulG(m)), "ciphertext of %d at %d" % (m, s["t"]))
            expect(w.d(), 1, "validity of a ciphertext")
            expect(v.pt(), S.add(S.mul(sk[i][1], ht), S.mulG(sk[i][0] * m)), "tag of %d at %d" % (m, s["t"]))
            expect(v.d(), 1, "validity of a tag")
        ctx.label("timestamp %s" % ("0" if s["t"] == 0 else "negative" if s["t"] < 0 else "positive"))


def gen_verify(r):
    n = r.pick((1, 2, 2, 3, 5))
    return dict(burn=burn(r), n=n, t=timestamp(r), m=values(r, n, r.pick((0, 1, r.int(0, 60), r.int(0, 400)))), order=r.sample(range(n), n), tag=r.sample(range(n), n), ds=r.int(1, 65535), kind=r.pick(("sum", "tag", "timestamp")),
                dt=timestamp(r), dp=r.int(1, S.n - 1))


def valid_verify(d):
    return d["n"] > 0 and len(d["m"]) == d["n"] and sorted(d["order"]) == list(range(d["n"])) == sorted(d["tag"]) and all(0 <= m <= 65535 for m in d["m"]) and sum(d["m"]) <= 65535 and -(1 << 31) <= d["t"] < 1 << 31 and \
        0 < d["ds"] < 65536 and -(1 << 31) <= d["dt"] < 1 << 31 and d["dp"] % S.n


def check_verify(case, ctx):
    n, t = case["n"], case["t"]
    cmds = ["burn %d" % case["burn"], "new o", "setup o s %d" % n, "enck o h 1 0 1"]
    for i, m in enumerate(case["m"]):
        cmds += ["enc o c%d s %d %d %d" % (i, i, m, t), "tag o g%d s %d %d %d" % (i, i, m, t)]
    cmds += ["agg o s %d T %s / %s" % (t, " ".join("c%d" % i for i in case["order"]), " ".join("g%d" % i for i in case["tag"])), "verifyr o s %d T %d" % (sum(case["m"]), t)]
    out = ctx(*cmds)
    ek, sk, ak, vk1, vk2 = keys(rd(out[2]), n)
    h = rd(out[3]).pt()
    w = rd(out[-2])
    total = sum(case["m"])
    expect(w.d(), total, "aggregated sum")
    tk, a = sum(s[1] for s in sk), sk[0][0]
    honest = lambda s, t: S.add(S.mul(tk * t, h), S.mulG(a * s))
    tag = w.pt()
    expect(tag, honest(total, t), "aggregated tag")
    expect(out[-1], ["1"], "verification of the honest sum and tag")
    k = case["kind"]
    if k == "sum":
        s = (total + case["ds"]) % 65536
        bad = (s, tag, t)
    elif k == "tag":
        bad = (total, S.add(tag, S.mulG(case["dp"])), t)
    else:
        bad = (total, tag, case["dt"])
    if bad[1] == honest(bad[0], bad[2]):
        ctx.label("forgery happens to be honest")
        return
    ctx.label("wrong " + k)
    got = ctx.one("verify o s %d %s %d" % (bad[0], P(bad[1]), bad[2]))
    if got != ["0"]:
        ctx.known_finding("accepts-wrong-" + k, "verification accepts a wrong %s (sum %d, tag of %d, timestamp %d)" % (k, bad[0], total, bad[2]))


FACETS = [
    Facet("relations", "d_puda", check, 900, 15000, gen=gen, valid=valid, variant="fast", nontrivial=lambda d: any(any(s["m"]) and s["t"] for s in d["steps"]),
          rule="1-3 setups on one instance, 1-7 users, values 0-65535, any timestamp: every key, ciphertext and tag against the scheme's equations; non-trivial if some value and its timestamp are not 0"),
    Facet("relations-sanitized", "d_puda", check, 80, 1000, gen=gen, valid=valid, nontrivial=lambda d: any(any(s["m"]) and s["t"] for s in d["steps"]), rule="the same under sanitizers"),
    Facet("verification", "d_puda", check_verify, 500, 8000, gen=gen_verify, valid=valid_verify, variant="fast",
          rule="honest aggregation verified, then with another sum, tag or timestamp; every case counts as non-trivial"),
]
ASSUMPTIONS = ["the hash point of a setup is observed as the encryption of 0 under key 1 and timestamp 1"]
