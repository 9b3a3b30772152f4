"""C01: field arithmetic against Python's integers."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk

FNAMES = ["sp", "sn", "bp", "bn"]


def ops_check(case, ctx):
    f, a, b, k = case["f"], case["a"], case["b"], case["k"]
    m = refs.FIELDS[f]
    cmds, want = [], []

    def op(cmd, val, name):
        cmds.append("%s %s" % (f, cmd)); want.append((val % m, name))
    op("new a " + z(a), a, "element from %s" % z(a))
    op("new b " + z(b), b, "element from %s" % z(b))
    op("new k " + z(k), k, "element from the integer factor")
    op("add r a b", a + b, "a + b")
    op("sub r a b", a - b, "a - b")
    op("sub r b a", b - a, "b - a")
    op("mul r a b", a * b, "a * b")
    op("mulz r a " + z(k), a * k, "a * integer")
    op("mulz r b " + z(k), b * k, "b * integer")
    op("neg r a", -a, "-a")
    op("neg r b", -b, "-b")
    op("sq r a", a * a, "a squared")
    op("add r a a", 2 * a, "a + a")
    op("sub r a a", 0, "a - a")
    op("mul r b b", b * b, "b * b")
    if b % m:
        op("inv i b", pow(b, -1, m), "inverse of b")
        op("div r a b", a * pow(b, -1, m), "a / b")
        op("div r b b", 1, "b / b")
        op("mul r b i", 1, "b times its inverse")
    if a % m:
        op("inv i a", pow(a, -1, m), "inverse of a")
        op("div r b a", b * pow(a, -1, m), "b / a")
    op("get a", a, "a afterwards")
    op("get b", b, "b afterwards")
    n = len(cmds)
    cmds += ["%s eq a b" % f, "%s eq b a" % f, "%s eq a a" % f, "%s print a" % f]
    out = ctx(*cmds)
    for o, (v, name) in zip(out, want):
        expect(int(o[0], 16), v, name + " modulo " + f)
        expect(int(o[1], 16), m, "modulus of " + name)
    expect(out[n], [str(int(a % m == b % m))], "a == b")
    expect(out[n + 1], [str(int(a % m == b % m))], "b == a")
    expect(out[n + 2], ["1"], "a == a")
    expect(unhex(out[n + 3][0]).decode(), "%d  mod %d" % (a % m, m), "printed form")
    if a % m == b % m:
        ctx.label("equal operands")
    if (a + b) % m == 0:
        ctx.label("sum 0 modulo the prime")
    if not (0 <= a < m and 0 <= b < m):
        ctx.label("unreduced operand")


def nontrivial(c):
    m = refs.FIELDS[c["f"]]
    return c["a"] % m > 1 and c["b"] % m > 1


def gen(r):
    f = r.pick(FNAMES)
    a, b = pair(r, refs.FIELDS[f])
    return dict(f=f, a=a, b=b, k=integer(r, refs.FIELDS[f]))


def gen_const(r):
    f = r.pick(FNAMES)
    return dict(f=f, v=residue(r, refs.FIELDS[f]), m=r.pick(sorted(refs.FIELDS.values()) + [refs.FIELDS[f] + 2, refs.FIELDS[f] - 2, 1 << 256, 7]))


def const_check(case, ctx):
    f = case["f"]
    m = refs.FIELDS[f]
    o = ctx(*["%s def a" % f, "%s new b -1" % f, "%s eq a a" % f, "%s new c 0" % f, "%s print c" % f, "%s new d %s" % (f, z(case["v"])), "%s setp d %s" % (f, z(case["m"])),
              "%s new e %s" % (f, z(case["v"])), "%s eq d e" % f, "%s eq e d" % f])
    expect(int(o[0][1], 16), m, "modulus of a default element")
    expect(int(o[1][0], 16), m - 1, "element from -1")
    expect(unhex(o[4][0]).decode(), "0  mod %d" % m, "printed zero")
    same = str(int(case["m"] == m))
    expect(o[8], [same], "equality of elements with moduli %x and %x" % (case["m"], m))
    expect(o[9], [same], "equality of elements with moduli %x and %x" % (m, case["m"]))


FACETS = [
    Facet("ops", "d_field", ops_check, 28000, 600000, gen=gen, mix=True, nontrivial=nontrivial,
          rule="field, two related integers and a factor; all operations compared with Python integers; non-trivial if neither operand is 0 or 1 in the field"),
    Facet("constants", "d_field", const_check, 1000, 5000, gen=gen_const, valid=lambda c: c["m"] > 0,
          rule="default elements, moduli and equality of elements whose modulus was set to another value"),
    bulk.facet("bulk", "d_field", lambda c: "ops %s %s" % (c["f"], z(refs.FIELDS[c["f"]])), 48, 2400, 20000, "field, two related integers and a factor; all operations against GMP integers", params=lambda r: dict(f=r.pick(FNAMES))),
]
