"""C14: oblivious transfer delivers the chosen message, over histories."""
from ..engine import Facet
from ..dmelib import *


def offer(r, pool=None):
    """two messages of one kind"""
    pool = [] if pool is None else pool
    ints = r.chance(0.4)
    return [list(message_like(r, pool, ints)), list(message_like(r, pool, ints))]


def again(r, o):
    """an offer like an earlier one: each message kept, related to the earlier one or exchanged"""
    m = [list(o[3]) if r.chance(0.5) else related(r, o[3]), list(o[4]) if r.chance(0.5) else related(r, o[4])]
    return m[::-1] if r.chance(0.2) else m


def gen(r, steps=(3, 12)):
    nr, ns = r.pick((1, 1, 2, 3)), r.pick((1, 1, 2))
    c = crs(r)
    st, pool = [], publics(c)
    for _ in range(r.int(*steps)):
        i = r.randrange(nr)
        k = r.int(0, 9)
        if k < 3:
            st.append(["select", i, r.int(0, 1)])
        elif k < 6:
            old = [s for s in st if s[0] == "offer"]
            if old and r.chance(0.35):
                o = old[-1] if r.chance(0.4) else r.pick(old)
                st.append(["offer", o[1] if r.chance(0.7) else i, o[2] if r.chance(0.7) else r.randrange(ns)] + again(r, o))
            else:
                st.append(["offer", i, r.randrange(ns)] + offer(r, pool))
        else:
            st.append(["open", i, r.int(0, 3)])
    # a complete transfer at the end, from whatever state the parties are in
    i = r.randrange(nr)
    st += [["select", i, r.int(0, 1)], ["offer", i, r.randrange(ns)] + offer(r, pool), ["open", i, -1]]
    return dict(crs=c, burn=burn(r), nr=nr, ns=ns, steps=st)


def gen_walk(r):
    """one request answered again and again with messages that have to do with those of the answer before"""
    n, ints = r.int(4, 9), r.chance(0.6)
    a, b = walk(r, n, ints), walk(r, n, ints)
    st = [["select", 0, r.int(0, 1)]]
    for i in range(n):
        st.append(["offer", 0, 0, a[i], b[i]])
        if r.chance(0.6):
            st.append(["open", 0, -1])
    return dict(crs=crs(r), burn=burn(r), nr=1, ns=1, steps=st + [["open", 0, i] for i in range(n)])


def valid(d):
    return valid_crs(d["crs"]) and d["nr"] > 0 and d["ns"] > 0 and \
        all(0 <= s[1] < d["nr"] and (s[0] != "offer" or len(s) == 5 and 0 <= s[2] < d["ns"] and valid_message(s[3]) and valid_message(s[4]) and (s[3][0] == "z") == (s[4][0] == "z")) for s in d["steps"])


def check(case, ctx):
    cmds = ["burn %d" % case["burn"]] + crs_cmds(case["crs"])
    cmds += ["recv r%d c" % i for i in range(case["nr"])] + ["sender s%d c" % i for i in range(case["ns"])]
    sel, offers, n = {}, {}, 0
    exp = []
    for s in case["steps"]:
        i = s[1]
        if s[0] == "select":
            n += 1
            sel[i] = (n, s[2])
            offers[i] = []
            cmds.append("select r%d q%d %d" % (i, n, s[2]))
            exp.append((len(cmds) - 1, "branch", s[2]))
        elif s[0] == "offer" and i in sel:
            n += 1
            a, b = s[3], s[4]
            kind = "z" if a[0] == "z" else "p"
            f = (lambda m: z(m[1])) if kind == "z" else (lambda m: P(pt("s", m)))
            cmds.append("offer%s s%d o%d q%d %s %s" % (kind, s[2], n, sel[i][0], f(a), f(b)))
            exp.append((len(cmds) - 1, "count", 2))
            offers[i].append((n, kind, (a, b)[sel[i][1]]))
        elif s[0] == "open" and offers.get(i):
            o = offers[i][s[2] % len(offers[i])]
            cmds.append("open%s r%d o%d" % ("z" if o[1] == "z" else "", i, o[0]))
            exp.append((len(cmds) - 1, "z" if o[1] == "z" else "p", o[2]))
            ctx.label("choice %d, %s" % (sel[i][1], "integer" if o[1] == "z" else "infinity" if o[2][0] == "inf" else "point"))
    out = ctx(*cmds)
    for k, what, want in exp:
        w = rd(out[k])
        if what == "branch":
            expect(int(out[k][-1]), want, "branch of the receiver after '%s'" % cmds[k])
        elif what == "count":
            expect(w.d(), 2, "ciphertexts in a reply")
        elif what == "z":
            expect(w.x(), want[1], "message obtained by '%s' (step list %s)" % (cmds[k], case["steps"]))
        else:
            expect(w.pt(), pt("s", want), "message obtained by '%s'" % cmds[k])
            expect(w.d(), 1, "validity of the message")


nt = lambda d: len(d["steps"]) >= 5
RULE = "1-3 receivers and 1-2 senders on one reference string; 6-15 interleaved select, send and open steps ending in a complete transfer; each opening compared with the sender's message of the receiver's latest choice; non-trivial from 5 steps on"
FACETS = [
    Facet("histories", "d_dme", check, 1400, 40000, gen=gen, valid=valid, nontrivial=nt, variant="fast", rule=RULE),
    Facet("long-histories", "d_dme", check, 16, 240, gen=lambda r: gen(r, (80, 200)), valid=valid, nontrivial=nt, variant="fast", cpu=120, shards=16, rule="the same with 80-200 steps"),
    Facet("answers", "d_dme", check, 240, 8000, gen=gen_walk, valid=valid, nontrivial=nt, variant="fast", rule="one request answered 4-9 times, each message related to (often a few bits away from) the one of the answer before; every answer opened"),
    Facet("histories-sanitized", "d_dme", check, 100, 2000, gen=gen, valid=valid, nontrivial=nt, rule="the same under sanitizers"),
]
