"""C11: combinations of ciphertexts."""
from ..engine import Facet
from ..dmelib import *


def gen(r, lo=1, hi=7):
    n = r.int(1, 4)
    c = crs(r)
    pool = publics(c)
    ms = [message_like(r, pool, False, 0.15) for _ in range(n)]
    if n > 1 and r.chance(0.3):
        i, j = r.randrange(n), r.randrange(n)
        ms[i] = ["neg", j] if i > j else ms[i]
    ops = []
    for _ in range(r.size(lo, hi)):
        ops.append([r.randrange(n + len(ops)), r.randrange(n + len(ops))])
    return dict(crs=c, burn=burn(r), b=r.int(0, 1), ms=ms, ops=ops, dec=r.chance(0.5))


def valid(d):
    n = len(d["ms"])
    return valid_crs(d["crs"]) and n and all(0 <= x < n + i for i, o in enumerate(d["ops"]) for x in o) and all(len(o) == 2 for o in d["ops"]) and \
        all(m[0] != "neg" or 0 <= m[1] < i for i, m in enumerate(d["ms"]))


def check(case, ctx):
    v, cmds = [], ["burn %d" % case["burn"]] + crs_cmds(case["crs"]) + ["newcrs i c", "newcrs j c", "keygen i k %d" % case["b"]]
    for n, m in enumerate(case["ms"]):
        v.append(S.neg(v[m[1]]) if m[0] == "neg" else pt("s", m))
        cmds.append("encp %s e%d k %d %s" % ("ij"[n % 2], n, case["b"], P(v[-1])))
    n0, base = len(v), len(cmds)
    for i, (a, b) in enumerate(case["ops"]):
        v.append(S.add(v[a], v[b]))
        cmds.append("eval %s e%d e%d e%d" % ("ij"[i % 2], n0 + i, a, b))
        if a == b:
            ctx.label("ciphertext combined with itself")
        if v[-1] is None:
            ctx.label("sum is infinity")
    k1 = len(cmds)
    idx = range(len(v)) if case["dec"] else range(max(0, len(v) - 2), len(v))
    cmds += ["dec %s k e%d" % ("ji"[i % 2], i) for i in idx]
    k2 = len(cmds)
    cmds += ["ctshow e%d" % i for i in range(len(v))]
    out = ctx(*cmds)
    for i, o in zip(idx, out[k1:k2]):
        w = rd(o)
        expect(w.pt(), v[i], "decryption of ciphertext %d" % i)
        expect(w.d(), 1, "validity of the decryption")
    made = out[base - n0:k1]
    for i, o in enumerate(out[k2:]):
        expect(o, made[i], "ciphertext %d at the end" % i)


nt = lambda d: any(m[0] != "inf" for m in d["ms"]) and len(d["ops"]) >= 2
RULE = "1-4 ciphertexts on one key and branch combined by 1-7 operations over earlier results (any grouping, self-combination, opposite messages); results, operands compared; non-trivial if a message is finite and two operations happen"
FACETS = [
    Facet("trees", "d_dme", check, 1900, 40000, gen=gen, valid=valid, nontrivial=nt, variant="fast", rule=RULE),
    Facet("long-histories", "d_dme", check, 30, 400, gen=lambda r: gen(r, 40, 150), valid=valid, nontrivial=nt, variant="fast", cpu=120, rule="the same with 40-150 operations"),
    Facet("trees-sanitized", "d_dme", check, 130, 2000, gen=gen, valid=valid, nontrivial=nt, rule="the same under sanitizers"),
]
