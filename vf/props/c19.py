"""C19: histories of sessions."""
from ..engine import Facet
from ..opprflib import *

# a session: server, client, threshold's side, input, a new secret or None, how far it goes
#   "full", "round k" (abandoned once rounds 16..k are done), "masks" (abandoned when masks were sent), "old masks" (opened with an earlier session's masks first)


def gen_long(r):
    """long histories, most of whose sessions are abandoned in their first rounds"""
    return gen(r, r.int(10, 24), 0.04, True)


def gen(r, n=0, full=0.45, brief=False):
    ns, nc = r.int(1, 2), r.int(1, 2)
    th = [word(r) for _ in range(ns)]
    st = []
    n = n or r.int(2, 4)
    for i in range(n):
        s = r.int(0, ns - 1)
        last = i == n - 1
        how = "full" if last or r.chance(full) else r.pick(("round", "prepared", "prepared", "round", "started") if brief and r.chance(0.95) else ("round", "prepared", "masks", "started", "full"))
        x = r.weighted((2, lambda: r.int(0, th[s])), (1, lambda: r.int(min(TOP, th[s] + 1), TOP)), (1, lambda: th[s]), (1, lambda: min(TOP, th[s] + 1)), (1, lambda: st[-1]["x"] if st else 0))
        st.append(dict(s=s, k=r.int(0, nc - 1), x=x, ga=secret(r) if r.chance(0.4) else None, how=how, early=r.chance(0.35), stop=r.int(15, 16) if brief else r.int(2, 16), foreign=r.chance(0.4) and last, clean=r.int(0, 3)))
    d = surroundings(r)
    d.update(theta=th, nc=nc, st=st)
    return d


def valid(d):
    return valid_surroundings(d) and d["theta"] and d["nc"] > 0 and d["st"] and all(0 <= t <= TOP for t in d["theta"]) and all(
        0 <= s["x"] <= TOP and 2 <= s["stop"] <= 16 and 0 <= s["s"] < len(d["theta"]) and 0 <= s["k"] < d["nc"] and s["how"] in HOW and (s["ga"] is None or s["ga"][0] != "k" or 0 < s["ga"][1] < S.n)
        for s in d["st"])


HOW = ("full", "round", "prepared", "masks", "started")


def check(case, ctx):
    ns = len(case["theta"])
    cmds = start(case)
    gas = [pt("s", case["ga"])] * ns
    for i, t in enumerate(case["theta"]):
        cmds += ["server s%d %d c" % (i, t), "secret s%d %s" % (i, P(gas[i]))]
    cmds += ["client k%d c" % i for i in range(case["nc"])]
    ctx(*cmds)
    keys, results, masks = {}, {}, None
    holds = {}   # the message each client was given last; clean-up leaves it
    for i, st in enumerate(case["st"]):
        s, k, x, th = "s%d" % st["s"], "k%d" % st["k"], st["x"], case["theta"][st["s"]]
        cmds = []
        if st["ga"] is not None:
            gas[st["s"]] = pt("s", st["ga"])
            cmds.append("secret %s %s" % (s, P(gas[st["s"]])))
        ga = gas[st["s"]]
        if st.get("early") and holds.get(k) == x:
            ctx.label("message set before the clean-up")
        else:
            cmds.append("message %s %d" % (k, x))
            holds[k] = x
        cmds += ["prepare " + s, "kopprf " + s]
        key = rd(ctx(*cmds)[-1]).pt()
        require(key is not None and key not in keys, "session %d has the key point of session %s" % (i, keys.get(key)))
        require(S.neg(key) not in keys, "session %d has the opposite of the key point of session %s" % (i, keys.get(S.neg(key))))
        keys[key] = i
        how = st["how"]
        ctx.label("session " + how + (", above" if x > th else ", not above"))
        if how == "prepared":
            pass
        elif how == "round":
            ctx("rounds %s %s 16 %d" % (s, k, st["stop"]))
        elif how == "started":
            ctx("rounds %s %s 16 %d" % (s, k, 16), "masks m%d %s" % (i, s))
        else:
            ctx("rounds %s %s 16 1" % (s, k), "masks m%d %s" % (i, s))
            if how == "full":
                if st["foreign"] and masks is not None and masks != "m%d" % i:
                    before = rd(ctx.one("result " + k)).pt()
                    got = ctx.attempt("unmask %s %s" % (k, masks))
                    require(got is None, "masks of an earlier session were accepted in session %d" % i)
                    expect(rd(ctx.one("result " + k)).pt(), before, "result after masks were refused")
                    ctx.label("foreign masks refused")
                    ctx("unmask %s m%d" % (k, i))
                    finish(ctx, i, s, k, x, th, key, ga, results)
                else:
                    ctx("unmask %s m%d" % (k, i))
                    finish(ctx, i, s, k, x, th, key, ga, results)
            masks = "m%d" % i
        nxt = case["st"][i + 1] if i + 1 < len(case["st"]) else {}
        if nxt.get("early"):
            ctx("message k%d %d" % (nxt["k"], nxt["x"]))
            holds["k%d" % nxt["k"]] = nxt["x"]
        # clean-up of both parties, in either order, sometimes twice
        c = ["cleans " + s, "cleanc " + k]
        ctx(*(c[::-1] if st["clean"] & 1 else c), *(c if st["clean"] & 2 else []))


def finish(ctx, i, s, k, x, th, key, ga, results):
    w = rd(ctx.one("result " + k))
    res = w.pt()
    if x <= th:
        expect(res, S.add(key, S.mul(x, ga)), "result of session %d (threshold %d, input %d)" % (i, th, x))
    else:
        j = multiple(S.sub(res, key), ga)
        require(j is None, "session %d above the threshold gives the key point plus %s times the secret" % (i, j))
    require(res not in results, "session %d has the result of session %s" % (i, results.get(res)))
    results[res] = i
    expect(w.d(), 1, "validity of the result of session %d" % i)
    expect(rd(ctx.one("kopprf " + s)).pt(), key, "session key point at the end of session %d" % i)


def gen_inter(r):
    d = surroundings(r)
    th = [word(r), word(r)]
    turns = [0] * 17 + [1] * 17
    r.shuffle(turns)
    d.update(theta=th, x=[r.weighted((2, lambda: r.int(0, t)), (1, lambda: r.int(t, TOP)), (1, lambda: t)) for t in th], turns=turns, same=r.chance(0.5))
    return d


def valid_inter(d):
    return valid_surroundings(d) and len(d["theta"]) == 2 == len(d["x"]) and all(0 <= v <= TOP for v in d["theta"] + d["x"]) and d["turns"].count(0) == 17 == d["turns"].count(1)


def check_inter(case, ctx):
    """two pairs of parties whose rounds are interleaved"""
    ga = pt("s", case["ga"])
    cmds = start(case)
    if not case["same"]:
        cmds.append("crs d rnd")
    for i in (0, 1):
        c = "c" if case["same"] or i == 0 else "d"
        cmds += ["server s%d %d %s" % (i, case["theta"][i], c), "client k%d %s" % (i, c), "secret s%d %s" % (i, P(ga)), "message k%d %d" % (i, case["x"][i]), "prepare s%d" % i]
    left = [16, 16]
    for t in case["turns"]:
        if left[t]:
            cmds.append("round s%d k%d %d" % (t, t, left[t]))
            left[t] -= 1
        else:
            cmds += ["masks m%d s%d" % (t, t), "unmask k%d m%d" % (t, t)]
    cmds += ["result k0", "kopprf s0", "result k1", "kopprf s1"]
    out = ctx(*cmds)
    seen = []
    for i in (0, 1):
        res, key = rd(out[2 * i - 4]).pt(), rd(out[2 * i - 3]).pt()
        require(key not in seen, "two sessions have the same key point")
        seen.append(key)
        x, t = case["x"][i], case["theta"][i]
        if x <= t:
            expect(res, S.add(key, S.mul(x, ga)), "result of interleaved session %d (threshold %d, input %d)" % (i, t, x))
        else:
            require(multiple(S.sub(res, key), ga) is None, "interleaved session %d above the threshold is a multiple of the secret from the key point" % i)
    ctx.label("one reference string" if case["same"] else "two reference strings")


FACETS = [
    Facet("histories", "d_opprf", check, 40, 1600, chain=0, gen=gen, valid=valid, variant="fast", shards=16, cpu=120, nontrivial=lambda d: len(d["st"]) > 1,
          rule="2-4 sessions over one or two servers and clients, above and not above the threshold, some abandoned after any round and cleaned up, secrets changed, masks of an earlier session tried; non-trivial with two or more sessions"),
    Facet("interleaved", "d_opprf", check_inter, 14, 600, chain=0, gen=gen_inter, valid=valid_inter, variant="fast", shards=16, cpu=120,
          rule="two server and client pairs with interleaved rounds, on one or two reference strings; every case counts as non-trivial"),
    Facet("long-histories", "d_opprf", check, 8, 160, chain=0, gen=gen_long, valid=valid, variant="fast", shards=16, cpu=300,
          rule="histories of 10-24 sessions, most of them abandoned once prepared or in their first rounds, the last complete; every case counts as non-trivial"),
    Facet("histories-open", "d_opprf_open", check, 300, 12000, confirm="histories", chain=0, gen=lambda r: gen(r, r.int(3, 12)), valid=valid, variant="fast", shards=16, cpu=120, nontrivial=lambda d: len(d["st"]) > 1,
          rule=OPEN + "histories of 3-12 sessions; non-trivial with two or more sessions"),
    Facet("long-histories-open", "d_opprf_open", check, 24, 400, confirm="histories-slow", chain=0, gen=lambda r: gen(r, r.int(20, 50)), valid=valid, variant="fast", shards=16, cpu=300,
          rule=OPEN + "histories of 20-50 sessions; every case counts as non-trivial"),
    Facet("histories-slow", "d_opprf", check, 0, 0, chain=0, gen=gen_long, valid=valid, variant="fast", cpu=600, rule="(whole runs of failing cases of long-histories-open)"),
    Facet("histories-sanitized", "d_opprf", check, 5, 80, chain=0, gen=gen, valid=valid, shards=8, cpu=600, nontrivial=lambda d: len(d["st"]) > 1, rule="the same histories under sanitizers"),
]
