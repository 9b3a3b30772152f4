"""C02: histories of in-place updates on several field elements against a model."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk

R = "abcd"


def gen(r, lo=1, hi=16):
    f = r.pick(["sp", "sn", "bp", "bn"])
    m = refs.FIELDS[f]
    reg = lambda: r.pick(R)

    def step():
        return r.weighted(
            (4, lambda: [r.pick(["addeq", "subeq", "muleq", "diveq"]), reg(), reg()]),
            (2, lambda: [r.pick(["asg", "copy"]), reg(), reg()]),
            (2, lambda: ["mulzeq", reg(), integer(r, m)]),
            (1, lambda: ["chain", reg(), reg(), reg()]),
            (2, lambda: [r.pick(["add", "sub", "mul", "div"]), reg(), reg(), reg()]),
            (1, lambda: [r.pick(["neg", "sq", "inv"]), reg(), reg()]),
            (1, lambda: ["new", reg(), integer(r, m)]),
            (1, lambda: ["oppose", reg(), reg()]))
    return dict(f=f, init=[residue(r, m) for _ in R], steps=[step() for _ in range(r.size(lo, hi))])


def check(case, ctx):
    f = case["f"]
    m = refs.FIELDS[f]
    v = {r: x % m for r, x in zip(R, case["init"])}
    cmds = ["%s new %s %s" % (f, r, z(x)) for r, x in zip(R, case["init"])]
    exp = []
    for s in case["steps"]:
        o, d = s[0], s[1]
        a = s[2] if len(s) > 2 and isinstance(s[2], str) else None
        b = s[3] if len(s) > 3 else None
        if o in ("diveq", "inv") and v[a] == 0 or o == "div" and v[b] == 0:
            continue  # precondition: no division by zero
        if o == "oppose":  # make a pair that sums to zero
            v[d] = -v[a] % m
            cmd = "new %s %s" % (d, z(v[d]))
        else:
            cmd = " ".join([o] + [x if isinstance(x, str) else z(x) for x in s[1:]])
            x = v[d]
            if o == "addeq": v[d] = (x + v[a]) % m
            elif o == "subeq": v[d] = (x - v[a]) % m
            elif o == "muleq": v[d] = x * v[a] % m
            elif o == "diveq": v[d] = x * pow(v[a], -1, m) % m
            elif o in ("asg", "copy"): v[d] = v[a]
            elif o == "mulzeq": v[d] = x * s[2] % m
            elif o == "chain":
                v[d] = (v[d] + v[a]) % m  # operands may be the target
                v[d] = v[d] * v[b] % m
            elif o == "add": v[d] = (v[a] + v[b]) % m
            elif o == "sub": v[d] = (v[a] - v[b]) % m
            elif o == "mul": v[d] = v[a] * v[b] % m
            elif o == "div": v[d] = v[a] * pow(v[b], -1, m) % m
            elif o == "neg": v[d] = -v[a] % m
            elif o == "sq": v[d] = v[a] * v[a] % m
            elif o == "inv": v[d] = pow(v[a], -1, m)
            elif o == "new": v[d] = s[2] % m
            if o.endswith("eq") and a == d:
                ctx.label("self-aliased update")
        cmds += ["%s %s" % (f, cmd), "%s all x" % f]
        exp.append((cmd, dict(v), o.endswith("eq") or o == "asg"))
    out = ctx(*cmds)[len(R):]
    for i, (cmd, want, ret) in enumerate(exp):
        w = rd(out[2 * i + 1])
        for r in R:
            expect(w.s(), r, "register")
            expect(w.x(), want[r], "element %s after step %d '%s'" % (r, i, cmd))
            expect(w.x(), m, "modulus of %s after '%s'" % (r, cmd))
        if ret:
            expect(out[2 * i][2], "1", "'%s' returns its target" % cmd)


def nontrivial(c):
    return sum(s[0].endswith("eq") or s[0] == "chain" for s in c["steps"]) >= 2 and len(c["steps"]) >= 3


FACETS = [Facet("histories", "d_field", check, 30000, 500000, gen=gen, mix=True, nontrivial=nontrivial,
                rule="1-16 updates, copies and operations on 4 live elements, all elements compared with the model after every step; non-trivial if at least 3 steps, 2 of them in-place updates"),
          Facet("long-histories", "d_field", check, 250, 4000, gen=lambda r: gen(r, 100, 500), nontrivial=nontrivial, rule="the same with 100-500 steps"),
          bulk.facet("bulk", "d_field", lambda c: "hist %s %s %d" % (c["f"], z(refs.FIELDS[c["f"]]), c["len"]), 48, 2400, 2000, "histories of up to 60 operations on four live elements against GMP integers", params=lambda r: dict(f=r.pick(sorted(refs.FIELDS)), len=r.pick((4, 12, 60))))]
