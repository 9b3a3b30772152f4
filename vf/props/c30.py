"""C30: memory does not accumulate."""
import importlib
from ..engine import Facet
from ..driver import Fail
from ..dmelib import *
from .c24 import key, text


class Recorder:
    """passes commands on and remembers them"""

    def __init__(self, ctx):
        self.ctx, self.log = ctx, []

    def __call__(self, *cmds):
        self.log.append(cmds)
        return self.ctx(*cmds)

    def one(self, cmd):
        return self(cmd)[0]

    def attempt(self, cmd):
        self.log.append((cmd,))
        return self.ctx.attempt(cmd)

    def label(self, *l):
        pass

    def known_finding(self, *a):
        pass


REPS = 5


def repeated(prop, facet):
    """runs a history of another property, then repeats exactly its commands and watches the heap"""
    src = next(f for f in importlib.import_module("vf.props." + prop).FACETS if f.name == facet)

    def check(case, ctx):
        rec = Recorder(ctx)
        try:
            src.check(case, rec)
        except Fail:
            if ctx.s is not None and ctx.s.dead is not None:
                raise  # died: bad memory access or the like; anything else is the other property's business
        if not rec.log:
            return
        levels = []
        for _ in range(REPS):
            for cmds in rec.log:
                for c in cmds:
                    ctx.attempt(c)
            levels.append(int(ctx.one("reset")[0]))
        grow = levels[-1] - levels[1]
        require(grow < 16 * (REPS - 2) or not all(b > a for a, b in zip(levels[1:], levels[2:])), "live memory after repetitions of the same commands: %s" % levels)
    return src, check


def hist(prop, facet, quick, thorough, **kw):
    src, check = repeated(prop, facet)
    gen = src.gen
    return Facet("%s-%s" % (prop, facet), src.driver, check, quick, thorough, gen=gen, plan=None, chain=0, valid=src.valid, nontrivial=src.nontrivial, variant="san", cpu=200,
                 rule="histories of %s/%s repeated %d times, heap compared after each (%s)" % (prop.upper(), facet, REPS, src.rule.split(";")[0]), **kw)


def args(r):
    which = r.pick(ARGS)
    return dict(cmd=which[0], args=[a(r) for a in which[1:]])


U = lambda r: z(integer(r, S.p, signed=False))
MSG = lambda r: z(message_int(r))
OPS = {
    "d_field": [("leak sp 150", lambda r: z(integer(r, S.p)), lambda r: z(integer(r, S.p))), ("leak bn 150", U, U)],
    "d_ecc": [("leak s 25", lambda r: z(integer(r, S.n)), U), ("leak b 25", lambda r: z(integer(r, S.n)), U)],
    "d_aes": [("leak 120", lambda r: z(key(r)), lambda r: z(text(r)), lambda r: z(text(r)))],
    "d_crc": [("leak 200", lambda r: z(text(r)))],
    "d_sss": [("leak 30", lambda r: str(r.int(1, 6)), lambda r: str(r.int(6, 9)), lambda r: z(residue(r, S.n)))],
    "d_dme": [("leak 6 dme", MSG), ("leak 6 inst", MSG), ("leak 6 ot", MSG)],
    "d_puda": [("leak 6", lambda r: str(r.int(-(1 << 31), (1 << 31) - 1)), lambda r: str(r.int(0, 12)))],
    "d_elgamal": [("leak 8", lambda r: z(message_int(r, 20)))],
}


def op_facet(drv, quick, thorough, **kw):
    def gen(r):
        o = r.pick(OPS[drv])
        return dict(cmd=o[0], args=[f(r) for f in o[1:]])

    def check(case, ctx):
        grow = int(ctx.one(case["cmd"] + " " + " ".join(case["args"]))[0])
        n = int([w for w in case["cmd"].split() if w.isdigit()][0])
        require(grow < 8 * n, "%d repetitions of '%s' left %d more bytes of live memory" % (n, case["cmd"], grow))
    return Facet("repeat-" + drv[2:], drv, check, quick, thorough, gen=gen, shrink=lambda c: [], variant="san", cpu=200,
                 rule="a fixed mix of operations and object lifetimes with generated inputs repeated (after a warm-up) under a counting allocator: less than 8 bytes growth per repetition; every case counts as non-trivial", **kw)


def session_plan(r, n):
    return [dict(cmd="leak", n=2, theta=t, x=x) for t, x in [(r.int(0, 65535), r.int(0, 65535)) for _ in range(n)]]


def check_sessions(case, ctx):
    grow = int(ctx.one("%s %d %d %d" % (case["cmd"], case["n"], case["theta"], case["x"]))[0])
    require(grow < 16 * case["n"], "%d sessions (%s) left %d more bytes of live memory" % (case["n"], case["cmd"], grow))


FACETS = [
    op_facet("d_field", 400, 6000), op_facet("d_ecc", 60, 900), op_facet("d_aes", 400, 6000), op_facet("d_crc", 400, 6000), op_facet("d_sss", 200, 3000),
    op_facet("d_dme", 40, 500), op_facet("d_puda", 32, 400), op_facet("d_elgamal", 32, 400),
    Facet("sessions", "d_opprf", check_sessions, 5, 60, plan=session_plan, valid=lambda d: d["n"] > 0, shrink=lambda c: [], variant="san", cpu=300, rule="complete protocol sessions with clean-up on long-lived parties, heap compared after each; every case counts as non-trivial"),
    Facet("parties", "d_opprf", check_sessions, 8, 160, plan=lambda r, n: [dict(c, cmd="leakparties", n=3) for c in session_plan(r, n)], valid=lambda d: d["n"] > 0, shrink=lambda c: [], variant="san", cpu=300,
          rule="parties created and destroyed, sessions begun, abandoned, cleaned up and refused; every case counts as non-trivial"),
    hist("c02", "histories", 150, 3000), hist("c03", "histories", 150, 3000), hist("c05", "equality", 100, 2000), hist("c06", "compression", 100, 2000), hist("c06", "evaluation", 60, 1000),
    hist("c13", "values", 60, 1000), hist("c08", "histories", 16, 300), hist("c14", "histories", 16, 300), hist("c16", "rounds", 16, 300), hist("c21", "relations", 16, 300), hist("c29", "sessions", 16, 300), hist("c24", "histories", 300, 5000), hist("c25", "rejections", 500, 8000), hist("c26", "random", 200, 3000),
    hist("c27", "values", 400, 6000), hist("c28", "conversions", 400, 6000), hist("c22", "selections", 200, 3000),
]
