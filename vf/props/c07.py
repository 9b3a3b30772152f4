"""C07: range, freshness and spread of everything that is drawn at random."""
from ..engine import Facet
from ..gens import *
from .. import refs


def bit_spread(vals, bits, what, sigmas=8):
    """every bit, and every bit of the exclusive-or with the next and next but one value, is set about half the time"""
    n = len(vals)
    for name, seq in (("", vals), (" of the difference with the next one", [a ^ b for a, b in zip(vals, vals[1:])]), (" of the difference with the next but one", [a ^ b for a, b in zip(vals, vals[2:])])):
        m = len(seq)
        slack = sigmas * (m ** 0.5) / 2
        lo = max(1, m / 2 - slack)
        for b in bits:
            ones = sum(v >> b & 1 for v in seq)
            require(lo <= ones <= m - lo, "%s: bit %d%s is set in %d of %d draws" % (what, b, name, ones, m))


def all_fresh(vals, what):
    seen = {}
    for i, v in enumerate(vals):
        require(v not in seen, "%s number %d repeats number %s" % (what, i, seen.get(v)))
        seen[v] = i


def steps_fresh(vals, m, what):
    """nor do the differences of draws, next to each other or one apart"""
    for k in (1, 2):
        all_fresh([(b - a) % m for a, b in zip(vals, vals[k:])], "difference of a %s and the one %d later:" % (what, k))


def check_scalars(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    cmds = ["%s burn A %d" % (cn, case["burn"])]
    for k in case["chunks"]:
        cmds += ["%s scalars %s %d" % (cn, "AB"[k % 2], k), "%s rnd p A" % cn] if case["mix"] else ["%s scalars A %d" % (cn, k)]
    v = []
    for o in ctx(*cmds)[1:]:
        if o and (o[0] == "inf" or len(o) == 4):
            continue
        v += [int(x, 16) for x in o]
    require(all(0 <= x < c.n for x in v), "a random scalar is outside [0, order)")
    all_fresh(v, "random scalar")
    steps_fresh(v, c.n, "random scalar")
    if len(v) >= 256:
        bit_spread([x * (1 << 16) // c.n for x in v], range(16), "random scalars scaled to 16 bits")
        bit_spread(v, range(c.n.bit_length() - 8), "random scalars")
        ctx.label("spread tested")


def check_points(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    o = ctx("%s burn A %d" % (cn, case["burn"]), *["%s rnd p%d %s" % (cn, i, "AB"[i % 2]) for i in range(case["n"])])[1:]
    ps = []
    for x in o:
        w = rd(x)
        p = w.pt()
        expect(w.d(), 1, "validity of a random point")
        require(p is not None and c.on(p), "random point %s is not on the curve" % (p,))
        ps.append(p)
    all_fresh([p[0] for p in ps], "x of random point")
    for k in (1, 2):
        all_fresh([p[0] for p in ps] + [d and d[0] for d in (c.sub(q, p) for p, q in zip(ps, ps[k:]))], "x of a random point, or of the difference of one and the one %d later:" % k)
    for p in ps[::max(1, len(ps) // 3)]:
        k = refs.small_log(c, p)
        require(k is None, "a random point is %s times the generator" % k)
    if len(ps) >= 40:
        bit_spread([p[0] for p in ps], range(c.p.bit_length() - 9), "x of random points")


def check_ints(case, ctx):
    b = case["bits"]
    ctx("getrandoms 64 %d" % case["burn"])
    o = [int(x, 16) for x in ctx.one("getrandoms %d %d" % (b, case["n"]))]
    require(all(0 <= x < 1 << b for x in o), "a random integer of %d bits is out of range" % b)
    if b >= 64:
        all_fresh(o, "random integer")
        steps_fresh(o, 1 << b, "random integer")
    if len(o) >= 256 and b:
        bit_spread(o, range(b), "random integers of %d bits" % b)


def check_keys(case, ctx):
    cn = case["c"]
    c = refs.CURVES[cn]
    cmds = ["%s burn A %d" % (cn, case["burn"])]
    for i in range(case["n"]):
        cmds.append("%s key %s %s" % (cn, "k", "AB"[i % 2]))
    sks = []
    for o in ctx(*cmds)[1:]:
        w = rd(o)
        sk = w.x()
        require(0 <= sk < c.n, "secret key out of range")
        expect(w.pt(), c.mulG(sk), "public key of secret key %x" % sk)
        sks.append(sk)
    all_fresh(sks, "secret key")
    steps_fresh(sks, c.n, "secret key")
    if len(sks) >= 40:
        bit_spread(sks, range(c.n.bit_length() - 8), "secret keys")


def check_dme(case, ctx):
    cmds = ["burn %d" % case["burn"], "new i messy", "new j dec", "crsrnd c", "newcrs k c", "rndpt i pp"]
    h = []
    for i, t in enumerate(case["ops"]):
        if t < 6:
            cmds.append("keygen %s k%d %d" % ("ijk"[t // 2], i, t % 2))
            h.append(len(cmds) - 1)
        elif t == 6:
            cmds.append("trap j t%d" % i)
            h.append(len(cmds) - 1)
        else:
            cmds.append("rndpt k q%d" % i)
    out = ctx(*cmds)
    sks = [int(out[k][-2 if cmds[k].startswith("trap") else -1], 16) for k in h]
    sks += [int(out[k][-1], 16) for k in h if cmds[k].startswith("trap")]
    require(all(0 < s < refs.S.n for s in sks), "secret key out of range")
    all_fresh(sks, "dual-mode secret key")
    steps_fresh(sks, refs.S.n, "dual-mode secret key")
    if len(sks) >= 40:
        bit_spread(sks, range(248), "dual-mode secret keys")
    pts = []
    for k in h:
        w = rd(out[k])
        pts += [w.pt(), w.pt()]
    all_fresh(pts, "public key component")


def check_puda(case, ctx):
    ctx("burn %d" % case["burn"], "new p")
    allv = []
    for k, n in enumerate(case["users"]):
        w = rd(ctx.one("setup p s%d %d" % (k, n)))
        expect((w.d(), w.d()), (n, n), "number of keys")
        ek = [w.x() for _ in range(n)]
        sk = [(w.x(), w.x()) for _ in range(n)]
        require(all(0 <= x < refs.S.n for x in ek + [v for p in sk for v in p]), "a key is out of range")
        allv += ek + [t for _, t in sk] + [a for a, _ in sk[:1]] + ([w.x()] if n > 1 else [])
    all_fresh(allv, "PUDA key")
    steps_fresh(allv, refs.S.n, "PUDA key")
    if len(allv) >= 128:
        bit_spread(allv, range(248), "PUDA keys")


def check_elgamal(case, ctx):
    o = ctx("burn %d" % case["burn"], "new e", "new f", *["keygen %s k%d" % ("ef"[i % 2], i) for i in range(case["n"])])[3:]
    sks = []
    for x in o:
        w = rd(x)
        sk = w.x()
        require(0 < sk < refs.S.n, "secret key out of range")
        expect(w.pt(), refs.S.mulG(sk), "public key")
        sks.append(sk)
    all_fresh(sks, "ElGamal secret key")
    steps_fresh(sks, refs.S.n, "ElGamal secret key")
    if len(sks) >= 40:
        bit_spread(sks, range(248), "ElGamal secret keys")


def check_many(case, ctx):
    """counts made by the driver over a long run: bits set, bits set once scaled by the order"""
    k, n = case["k"], case["n"]
    if k == "z":
        b, m = case["bits"], 1 << case["bits"]
        o = ctx("getrandoms 64 %d" % case["burn"], "manyz %d %d" % (b, n))[1]
    else:
        m = refs.CURVES[k].n
        b = m.bit_length()
        o = ctx("%s burn A %d" % (k, case["burn"]), "%s many A %d" % (k, n))[1]
    what = "%d draws of random %s" % (n, "integers of %d bits" % b if k == "z" else "scalars (%s)" % k)
    if o[0] != "ok":
        require(False, "%s: number %s %s" % (what, o[1], unhex(o[2]).decode()))
    plain, scaled = [int(x) for x in o[1:1 + b]], [int(x) for x in o[1 + b:]]
    expect((len(plain), len(scaled)), (b, 16), "counts")
    slack = 8 * n ** 0.5 / 2
    for i, c in enumerate(plain[:b if k == "z" else b - 24]):
        require(abs(c - n / 2) <= slack, "%s: bit %d is set in %d" % (what, i, c))
    for i, c in enumerate(scaled):
        require(abs(c - n / 2) <= slack, "%s, scaled to 16 bits: bit %d is set in %d" % (what, i, c))
    ctx.inner += n


SITES = {"secp256r1-scalar": "s scalar A", "bn254-scalar": "b scalar A", "secp256r1-point": "s rnd p A", "bn254-point": "b rnd p A", "getRandom": "getrandom 128", "secp256r1-key": "s key k A"}


def check_process(case, ctx):
    """the first draw of two processes"""
    cmd = SITES[case["site"]]
    a = ctx.one(cmd)
    ctx.relaunch()
    b = ctx.one(cmd)
    if a == b:
        ctx.known_finding("same-in-every-process/" + case["site"], "two fresh processes draw the same first value at '%s': %s" % (case["site"], " ".join(a)))


def plan_process(r, n):
    return [dict(site=s) for s in SITES for _ in range(max(1, n // len(SITES)))]


cv = lambda r: r.pick("sb")
FACETS = [
    Facet("scalars", "d_ecc", check_scalars, 300, 6000, variant="fast",
          gen=lambda r: dict(c=cv(r), burn=burn(r) * r.pick((1, 1, 30)), mix=r.chance(0.3), chunks=[r.pick((1, 5, 60, 400)) for _ in range(r.int(1, 5))]),
          nontrivial=lambda c: sum(c["chunks"]) >= 256, rule="runs of scalar draws from different generator states; range, repetition and bit frequencies; non-trivial from 256 draws on"),
    Facet("points", "d_ecc", check_points, 120, 2000, variant="fast", gen=lambda r: dict(c=cv(r), burn=burn(r), n=r.pick((3, 10, 64))), rule="random points: valid, fresh, the logarithm of every third one is not below 2^31 (decided by baby and giant steps)"),
    Facet("integers", "d_ecc", check_ints, 1200, 20000, variant="fast",
          gen=lambda r: dict(bits=r.weighted((1, lambda: r.int(0, 70)), (2, lambda: r.pick((1, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 160, 256, 1024))), (1, lambda: r.int(0, 2100))), burn=burn(r), n=r.pick((2, 300, 512))),
          nontrivial=lambda c: c["bits"] > 0 and c["n"] > 2, rule="getRandom(b) for b from 0 to 2100: range and bit frequencies"),
    Facet("keypairs", "d_ecc", check_keys, 200, 3000, variant="fast", gen=lambda r: dict(c=cv(r), burn=burn(r), n=r.pick((1, 4, 16, 64))), rule="generated key pairs"),
    Facet("dme-secrets", "d_dme", check_dme, 100, 1500, variant="fast", gen=lambda r: dict(burn=burn(r), ops=[r.int(0, 7) for _ in range(r.pick((4, 16, 80)))]),
          rule="secret keys of KeyGen on both branches of three instances and of TrapKeyGen, mixed with other draws"),
    Facet("puda-secrets", "d_puda", check_puda, 150, 2500, variant="fast", gen=lambda r: dict(burn=burn(r), users=[r.pick((1, 2, 10, 100)) for _ in range(r.int(1, 4))]),
          rule="all keys of 1-4 setups of 1-100 users on one object"),
    Facet("elgamal-secrets", "d_elgamal", check_elgamal, 120, 1500, variant="fast", gen=lambda r: dict(burn=burn(r), n=r.pick((2, 8, 64))), rule="ElGamal key pairs"),
    Facet("long-runs", "d_ecc", check_many, 24, 300, variant="fast", chain=0, cpu=300, shrink=lambda c: [{**c, "n": c["n"] // 2}] if c["n"] > 1000 else [], valid=lambda c: c["n"] > 0,
          gen=lambda r: dict(k=r.pick("sbz"), bits=r.pick((64, 65, 96, 128, 128, 160, 256, 257)), burn=burn(r), n=r.pick((40000, 120000))),
          rule="40000 or 120000 draws in one process, compared inside the driver: none repeats, no difference of neighbours repeats, bit frequencies plain and scaled by the order; every case counts as non-trivial"),
    Facet("processes", "d_ecc", check_process, len(SITES), 4 * len(SITES), plan=plan_process, variant="fast", rule="first draw of two separately started processes, per source of randomness"),
]
ASSUMPTIONS = ["bit frequencies are accepted within 8 standard deviations", "the generators' unpredictability itself (Mersenne Twister) is not judged"]
