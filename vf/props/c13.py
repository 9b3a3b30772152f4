"""C13: values: equality, copies and carried reference strings."""
from ..engine import Facet
from ..dmelib import *

# type -> (constructor, number of points, number of scalars, show, eq, copy, assign)
TYPES = {"crs": ("crspts", 4, 0, "crs", "crseq", "crscopy", "crsasg"), "ct": ("ct", 2, 0, "ctshow", "cteq", "ctcopy", "ctasg"), "pk": ("pk", 2, 0, "pkshow", "pkeq", "pkcopy", "pkasg"),
         "kp": ("kp", 2, 1, "kpshow", "kpeq", "kpcopy", "kpasg"), "tm": ("tm", 0, 2, "tmshow", "tmeq", "tmcopy", "tmasg"), "td": ("td", 0, 1, "tdshow", "tdeq", "tdcopy", "tdasg")}


def gen_values(r):
    t = r.pick(sorted(TYPES))
    _, np, ns = TYPES[t][:3]
    base = [point(r, "s", 0.1) for _ in range(np)] + [["n", residue(r, S.n)] for _ in range(ns)]
    if r.chance(0.2) and np > 1:
        base[1] = list(base[0])
    vals = [base]
    for _ in range(r.int(1, 4)):
        v = [list(x) for x in r.pick(vals)]
        for _ in range(r.pick((0, 1, 1, 1, 2))):
            i = r.randrange(len(v))
            k = r.int(0, 4)
            if i >= np:
                v[i] = ["n", r.pick((v[i][1] + 1, -v[i][1], residue(r, S.n), v[i][1] ^ 1)) % S.n]
            elif k == 0 and v[i] != ["inf"]:
                q = S.neg(pt("s", v[i]))
                v[i] = ["x", q[0], 1 if pt("s", ["x", q[0], 0]) != q else 0]
            elif k == 1:
                j = r.randrange(np)
                v[i], v[j] = v[j], v[i]
            elif k == 2:
                v[i] = ["inf"]
            else:
                v[i] = point(r, "s", 0)
        vals.append(v)
    return dict(t=t, vals=vals, ops=[[r.pick(["copy", "asg"]), r.randrange(len(vals)), r.randrange(len(vals))] for _ in range(r.int(0, 4))])


def conc(v):
    return tuple(("n", x[1] % S.n) if x[0] == "n" else pt("s", x) for x in v)


def valid_values(d):
    n = len(d["vals"])
    _, np, ns = TYPES[d["t"]][:3]
    return n > 0 and all(len(v) == np + ns for v in d["vals"]) and all(len(o) == 3 and 0 <= o[1] < n and 0 <= o[2] < n for o in d["ops"])


def check_values(case, ctx):
    ctor, np, ns, show, eq, copy, asg = TYPES[case["t"]]
    vals = [conc(v) for v in case["vals"]]
    cmds = ["%s r%d %s" % (ctor, i, " ".join(z(x[1]) if x and x[0] == "n" else P(x) for x in v)) for i, v in enumerate(vals)]
    for o, d, s in case["ops"]:
        cmds.append("%s r%d r%d" % (copy if o == "copy" else asg, d, s))
        vals[d] = vals[s]
    if case["t"] == "crs" and len(vals) > 1:  # assignment to a live object, returning it
        cmds.append("crsset r0 r1")
        vals[0] = vals[1]
    k = len(cmds)
    n = len(vals)
    cmds += ["%s r%d" % (show, i) for i in range(n)] + ["%s r%d r%d" % (eq, i, j) for i in range(n) for j in range(n)] + ["%s r%d" % (show, i) for i in range(n)]
    out = ctx(*cmds)
    if case["t"] == "crs" and n > 1:
        expect(out[k - 1], ["1"], "assignment returns its target")
    for rnd in (out[k:k + n], out[-n:]):
        for i, o in enumerate(rnd):
            w = rd(o)
            got = tuple(("n", w.x()) if x and x[0] == "n" else w.pt() for x in vals[i])
            expect(got, vals[i], "components of value %d" % i)
    for i in range(n):
        for j in range(n):
            want = vals[i] == vals[j]
            expect(out[k + n + i * n + j], [str(int(want))], "equality of %s values %d and %d" % (case["t"], i, j))
            if i != j:
                ctx.label("equal" if want else "unequal")


def gen_chain(r):
    return dict(crs=crs(r, ["messy", "dec", "rnd", "pts"]), burn=burn(r), hops=[[r.pick(["inst", "copy", "asg", "inst-drop"]), r.int(0, 1)] for _ in range(r.int(1, 5))], b=r.int(0, 1), m=point(r, "s", 0.1))


def check_chain(case, ctx):
    """a reference string carried from instance to instance, the earlier ones being destroyed"""
    d = case["crs"]
    cmds = ["burn %d" % case["burn"]]
    if d["kind"] in ("messy", "dec"):
        cmds += ["new o " + d["kind"], "crsof c0 o", "instcrs o", "drop o"]
    else:
        cmds += crs_cmds(d, "c0") + ["crs c0"]
    src = len(cmds) - (2 if cmds[-1].startswith("drop") else 1)
    last, insts, shows = "c0", [], []
    for i, (how, keep) in enumerate(case["hops"]):
        nxt = "c%d" % (i + 1)
        if how in ("copy", "asg"):
            cmds.append("crs%s %s %s" % (how, nxt, last))
        else:
            cmds += ["newcrs i%d %s" % (i, last), "instcrs i%d" % i]
            shows.append(len(cmds) - 1)
            cmds.append("crsof %s i%d" % (nxt, i))
            if how == "inst-drop":
                cmds.append("drop i%d" % i)
            else:
                insts.append("i%d" % i)
        cmds.append("crs " + nxt)
        shows.append(len(cmds) - 1)
        last = nxt
    cmds += ["newcrs x " + last, "newcrs y " + last, "instcrs x", "crsof cx x", "crsof cy y", "crseq cx cy", "crseq cy cx"]
    shows.append(len(cmds) - 5)
    eqs = [len(cmds) - 2, len(cmds) - 1]
    m = pt("s", case["m"])
    decs = []
    for a, b in [("x", "y")] + [(i, "x") for i in insts[:2]]:
        cmds += ["keygen %s k %d" % (a, case["b"]), "encp %s e k %d %s" % (b, case["b"], P(m)), "dec %s k e" % a]
        decs.append(len(cmds) - 1)
    out = ctx(*cmds)
    for k in shows:
        expect(out[k], out[src], "carried reference string at '%s'" % cmds[k])
    for k in eqs:
        expect(out[k], ["1"], "equality of carried reference strings")
    for k in decs:
        expect(rd(out[k]).pt(), m, "decryption with the carried reference string")


FACETS = [
    Facet("values", "d_dme", check_values, 12000, 200000, gen=gen_values, mix=False, valid=valid_values, nontrivial=lambda d: len(d["vals"]) > 2,
          rule="2-5 values of one of six types differing in few components, copied and assigned; components and all ordered equality pairs; non-trivial with three or more values"),
    Facet("carried", "d_dme", check_chain, 500, 6000, gen=gen_chain, valid=lambda d: valid_crs(d["crs"]) and d["hops"],
          rule="1-5 hops through instances (kept or destroyed) and copies under AddressSanitizer, then used for encryption"),
]
