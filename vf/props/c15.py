"""C15: the message that was not chosen stays hidden, and transfers cannot be linked."""
from ..engine import Facet
from ..dmelib import *
from .c14 import offer
from .c09 import RATIOS


def gen(r):
    c = crs(r, ["messy", "rnd", "pts"])
    st, pool = [], publics(c)
    for _ in range(r.int(1, 5)):
        st.append([r.int(0, 1), r.int(0, 1), r.int(0, 1)] + offer(r, pool) + [r.chance(0.3)])
    if r.chance(0.4) and len(st) > 1:  # the same choice and messages again
        st[-1] = [list(x) if isinstance(x, list) else x for x in st[0]]
    return dict(crs=c, burn=burn(r), steps=st)


def valid(d):
    return valid_crs(d["crs"]) and d["steps"] and all(len(s) == 6 and valid_message(s[3]) and valid_message(s[4]) and (s[3][0] == "z") == (s[4][0] == "z") for s in d["steps"])


def check(case, ctx):
    cmds = ["burn %d" % case["burn"]] + crs_cmds(case["crs"]) + ["recv r0 c", "recv r1 c", "sender s0 c", "sender s1 c", "crs c"]
    base = len(cmds) - 1
    exp = []
    for n, (i, j, b, m0, m1, again) in enumerate(case["steps"]):
        zz = m0[0] == "z"
        f = (lambda m: z(m[1])) if zz else (lambda m: P(pt("s", m)))
        cmds.append("select r%d q%d %d" % (i, n, b))
        exp.append((len(cmds) - 1, "request", n))
        for rep in range(1 + again):
            cmds.append("offer%s s%d o%d q%d %s %s" % ("z" if zz else "p", j, n, n, f(m0), f(m1)))
            exp.append((len(cmds) - 1, "reply", (n, m0, m1)))
            cmds += ["swap w%d o%d" % (n, n), ("openz" if zz else "open") + " r%d w%d" % (i, n)]
            exp.append((len(cmds) - 1, "other", ((m0, m1)[1 - b], n, b)))
    out = ctx(*cmds)
    known = {}
    w = rd(out[base])
    for name in ("g0", "g1", "h0", "h1"):
        known[w.pt()] = name + " of the reference string"
    for n, s in enumerate(case["steps"]):
        if s[3][0] != "z":
            for m in (s[3], s[4]):
                known.setdefault(pt("s", m), "a message")

    def fresh(p, what):
        require(p is not None, what + " is infinity")
        require(p not in known, "%s repeats %s" % (what, known.get(p)))
        require(S.neg(p) not in known, "%s is opposite to %s" % (what, known.get(S.neg(p))))
        known[p] = what
    for k, what, x in exp:
        w = rd(out[k])
        if what == "request":
            fresh(w.pt(), "g of request %d" % x)
            fresh(w.pt(), "h of request %d" % x)
        elif what == "reply":
            n, m0, m1 = x
            expect(w.d(), 2, "ciphertexts in a reply")
            for b, m in ((0, m0), (1, m1)):
                for name in ("u", "mv"):
                    p = w.pt()
                    fresh(p, "%s of ciphertext %d of reply %d" % (name, b, n))
                    if m[0] == "z":
                        require(p[0] >> 10 not in (m0[1], m1[1]), "a reply shows its message in clear")
        else:
            m, n, b = x
            if m[0] == "z":
                require(w.x() != m[1], "the receiver of transfer %d, who chose %d, opens the other message" % (n, b))
            else:
                require(w.pt() != pt("s", m), "the receiver of transfer %d, who chose %d, opens the other message" % (n, b))


def offer_points(r, pool):
    return [message_like(r, pool, False, 0.1), message_like(r, pool, False, 0.1)]


def gen_attack(r):
    d = dict(e=exponents(r), burn=burn(r), b=r.int(0, 1), sk=made_key(r))
    pool = publics(d["e"], [(d["b"], d["sk"])])
    d["m"] = [offer_points(r, pool) for _ in range(r.int(1, 3))]
    return d


def check_attack(case, ctx):
    """a receiver that knows everything but the sender's randomness tries every key a linear relation between randomisers (within one
    ciphertext or between the two of a reply) would give"""
    e, b, sk = case["e"], case["b"], case["sk"]
    o = 1 - b
    cmds = ["burn %d" % case["burn"]] + crs_cmds(dict(kind="pts", e=e)) + ["sender s c", "pk q %s %s" % (P(S.mulG(e[b] * sk)), P(S.mulG(e[2 + b] * sk)))]
    cmds += ["offerp s o%d q %s %s" % (i, P(pt("s", m[0])), P(pt("s", m[1]))) for i, m in enumerate(case["m"])]
    keys = {"its own key": sk, "the inverse key": pow(sk, -1, S.n)}
    for s, t in RATIOS:
        den = s * e[o] + t * e[2 + o]
        if den % S.n:
            keys["randomisers in ratio %d:%d" % (s, t)] = sk * (s * e[b] + t * e[2 + b]) * pow(den, -1, S.n) % S.n
    prev = []
    for x, m in zip(ctx(*cmds)[-len(case["m"]):], case["m"]):
        w = rd(x)
        expect(w.d(), 2, "ciphertexts in a reply")
        c = [(w.pt(), w.pt()) for _ in range(2)]
        expect(S.sub(c[b][1], S.mul(sk, c[b][0])), pt("s", m[b]), "the chosen message")
        hid, mask = pt("s", m[o]), S.sub(c[b][1], pt("s", m[b]))
        for name, k in keys.items():
            require(S.sub(c[o][1], S.mul(k, c[o][0])) != hid, "the message not chosen is revealed (%s)" % name)
        # the mask of the chosen ciphertext, and the masks of earlier replies, must not be the mask of the other one
        for q in [mask] + prev:
            for v in (q, S.neg(q), S.add(q, q)):
                require(S.sub(c[o][1], v) != hid, "the other ciphertext uses a mask the receiver knows")
        prev.append(mask)


FACETS = [
    Facet("histories", "d_dme", check, 900, 25000, gen=gen, valid=valid, variant="fast", nontrivial=lambda d: len(d["steps"]) > 1,
          rule="1-5 transfers over two receivers and two senders, some repeated exactly; the receiver's key is applied to the other ciphertext, and no component of any request or reply may repeat; non-trivial with two or more transfers"),
    Facet("derived-keys", "d_dme", check_attack, 450, 12000, gen=gen_attack, valid=lambda d: valid_exponents(d["e"]) and 0 < d["sk"] < S.n and d["m"] and all(len(m) == 2 for m in d["m"]), variant="fast",
          rule="reference strings with known exponents: derived keys and known masks against the ciphertext not chosen"),
]
