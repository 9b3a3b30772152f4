"""C29: ElGamal encryption."""
from ..engine import Facet
from ..dmelib import *

TOP = (S.p >> 20) - 1


def gen(r):
    ops = []
    nk = r.int(1, 3)
    for _ in range(r.int(1, 5)):
        m = ["z", min(TOP, message_int(r, 20))] if r.chance(0.6) else point(r, "s", 0.1)
        ops.append([r.int(0, 1), r.int(0, nk - 1), m, r.chance(0.4)])
    return dict(burn=burn(r), keys=nk, ops=ops)


def valid(d):
    return d["keys"] > 0 and d["ops"] and all(0 <= o[1] < d["keys"] and (0 <= o[2][1] <= TOP if o[2][0] == "z" else o[2][0] != "k" or 0 < o[2][1] < S.n) for o in d["ops"])


def check(case, ctx):
    out = ctx("burn %d" % case["burn"], "new e0", "new e1", *["keygen e%d k%d" % (i % 2, i) for i in range(case["keys"])])[3:]
    sks = []
    for o in out:
        w = rd(o)
        sk = w.x()
        require(0 < sk < S.n, "secret key out of range")
        require(sk not in sks, "two key pairs have the same secret key")
        expect(w.pt(), S.mulG(sk), "public key")
        expect(w.d(), 1, "validity of a public key")
        sks.append(sk)
    us = set()
    for n, (e, k, m, again) in enumerate(case["ops"]):
        for rep in range(1 + again):
            c = "c%d_%d" % (n, rep)
            if m[0] == "z":
                w = rd(ctx.one("encz e%d %s k%d %s" % (e, c, k, z(m[1]))))
                want = m[1]
            else:
                p = pt("s", m)
                w = rd(ctx.one("encp e%d %s k%d %s" % (e, c, k, P(p))))
                want = p and p[0] >> 20
            u, mv = w.pt(), w.pt()
            require(u is not None and S.on(u) and mv is not None and S.on(mv), "a ciphertext component is infinity or off the curve")
            require(u not in us, "two ciphertexts share their first component")
            us.add(u)
            d = S.sub(mv, S.mul(sks[k], u))
            if m[0] != "z":
                expect(d, p, "second component less the secret key times the first")
                require(mv != p, "the message is shown in clear")
            else:
                require(d is not None and d[0] >> 20 == want, "second component less the secret key times the first does not encode %s" % z(want))
            if want is None:
                # infinity encodes no integer
                ctx.label("infinity")
                continue
            expect(int(ctx.one("dec e%d k%d %s" % (1 - e, k, c))[0], 16), want, "decryption of %s" % (m,))
            for j, sk in enumerate(sks):
                if j != k:
                    require(int(ctx.one("dec e0 k%d %s" % (j, c))[0], 16) != want, "another secret key decrypts")
            for bad in ((sks[k] + 1) % S.n, S.n - sks[k], 1):
                if bad != sks[k]:
                    require(int(ctx.one("deck e0 %s %s" % (z(bad), c))[0], 16) != want or bad == 0, "secret key %s decrypts what %s should" % (z(bad), z(sks[k])))
        ctx.label("integer" if m[0] == "z" else "point")
        if m[0] == "z" and m[1] in hard(20):
            ctx.label("integer with twelve or more candidates off the curve")


def plan_hard(r, n):
    h = hard(20)[:n] + hard("20 strides")
    return [dict(burn=burn(r), keys=2, ops=[[i % 2, 0, ["z", m], False]]) for i, m in enumerate(h)]


FACETS = [
    Facet("sessions", "d_elgamal", check, 1300, 20000, gen=gen, valid=valid, variant="fast", nontrivial=lambda d: any(o[2] != ["z", 0] for o in d["ops"]),
          rule="1-3 key pairs on two objects, 1-5 messages (integers up to the limit, ones far from a curve point, points), repeated; every other key must not decrypt; non-trivial if some message is not 0"),
    Facet("sessions-sanitized", "d_elgamal", check, 120, 1500, gen=gen, valid=valid, nontrivial=lambda d: any(o[2] != ["z", 0] for o in d["ops"]), rule="the same under sanitizers"),
    Facet("hard", "d_elgamal", check, 200, 100000, plan=plan_hard, valid=valid, variant="fast",
          rule="the messages of corpus/hard.json with 20 spare bits, whose first dozens of candidate coordinates (at distance one or at other powers of two) are off the curve"),
]
