"""The half-angle hints (H02): floats are opaque, their operations and the library's trigonometric
functions uninterpreted; z3 decides, for every bit pattern, that each output slot holds the component
of the documented value."""
import math
import random
import struct
from fractions import Fraction
import z3
import ssa
from ssa import FV, FBits, IV, Slice, Ptr, Big, Unsupported, iz
from engine import Stats
from ref import F32, F64

SORT = z3.DeclareSort("Flt")
INT = z3.IntSort()
VAL = {n: z3.Function("val%d" % n, INT, SORT) for n in (32, 64)}       # pattern -> number
PAT = {n: z3.Function("pat%d" % n, SORT, INT) for n in (32, 64)}       # number -> pattern of the width
LIT = z3.Function("lit", z3.RealSort(), SORT)
FUN = {}


def fun(name, k):
    return FUN.setdefault((name, k), z3.Function(name, *([SORT] * (k + 1))))


class O(FV):
    """an opaque number, kept in binary64 (n = 64) or binary32"""
    __slots__ = ("z", "n")

    def __init__(self, z, n):
        self.z, self.n = z, n


class Ops:
    def o(self, v, n=64):
        if isinstance(v, O):
            return v
        if isinstance(v, FBits):
            return O(VAL[v.n](iz(v.b)), v.n)
        if isinstance(v, (int, float)) and math.isfinite(v):
            f = Fraction(float(v))
            return O(LIT(z3.RealVal("%d/%d" % (f.numerator, f.denominator))), n)
        raise Unsupported("float %r" % (v,))

    def lit(self, v):
        if isinstance(v, (int, float)) and math.isfinite(v):
            return Fraction(float(v))
        if isinstance(v, O) and v.z.decl().eq(LIT):
            return v.z.arg(0).as_fraction()
        return None

    def scaled(self, x, k):
        """x * 2^k"""
        if k == 0:
            return x
        f = Fraction(2) ** k
        return O(fun("mul%d" % x.n, 2)(LIT(z3.RealVal("%d/%d" % (f.numerator, f.denominator))), x.z), x.n)

    def binop(self, m, o, x, y):
        n = 32 if any(getattr(v, "n", 64) == 32 for v in (x, y)) else 64
        a, b = self.lit(x), self.lit(y)
        x, y = self.o(x, n), self.o(y, n)
        if o in ("<", "<=", ">", ">=", "==", "!="):
            p = z3.Function("cmp%s%d" % (o, n), SORT, SORT, z3.BoolSort())
            return p(x.z, y.z)
        pow2 = lambda f: f is not None and f > 0 and (f.numerator & (f.numerator - 1)) == 0 and (f.denominator & (f.denominator - 1)) == 0
        lg = lambda f: f.numerator.bit_length() - f.denominator.bit_length()
        if o == "*":
            if pow2(b):
                return self.scaled(x, lg(b))
            if pow2(a):
                return self.scaled(y, lg(a))
            l = sorted((x.z, y.z), key=lambda t: t.sexpr())
            return O(fun("mul%d" % n, 2)(*l), n)
        if o == "/":
            if pow2(b):
                return self.scaled(x, -lg(b))
            return O(fun("div%d" % n, 2)(x.z, y.z), n)
        if o == "+":
            if x.z.eq(y.z):
                return self.scaled(x, 1)
            l = sorted((x.z, y.z), key=lambda t: t.sexpr())
            return O(fun("add%d" % n, 2)(*l), n)
        if o == "-":
            return O(fun("sub%d" % n, 2)(x.z, y.z), n)
        raise Unsupported("operator %s" % o)

    def neg(self, x):
        x = self.o(x)
        return O(fun("neg", 1)(x.z), x.n)

    def conv(self, m, v, n):
        v = self.o(v)
        if n == v.n or n == 64:
            return O(v.z, n)             # widening is exact
        return O(fun("narrow", 1)(v.z), 32)

    def call(self, m, n, a):
        if n in ("math.Float64bits", "math.Float32bits"):
            x = self.o(a[0])
            w = 64 if "64" in n else 32
            if x.z.decl().eq(VAL[w]):
                return IV(x.z.arg(0), 0, (1 << w) - 1)
            t = PAT[w](x.z)
            m.s.add(t >= 0, t < (1 << w))
            return IV(t, 0, (1 << w) - 1)
        if n == "math.IsNaN":
            return z3.Function("isnan", SORT, z3.BoolSort())(self.o(a[0]).z)
        if n == "math.Sincos":
            x = self.o(a[0])
            return (O(fun("Sin", 1)(x.z), 64), O(fun("Cos", 1)(x.z), 64))
        x = [self.o(v) for v in a]
        return O(fun(n[5:], len(x))(*[v.z for v in x]), 64)


def component(i, e, m):
    return z3.Function("component%d_%d_%d" % (i, e, m), INT, INT)


LIM = [(0, 1), (-1300, 1100), (0, 1 << 53), (0, 1)]


def explore(prog, name, fm, stats, budget=60, timeout=30000):
    full = prog.find("hint", name)
    if full is None:
        return None
    n = fm.E + fm.M + 1

    def body(m):
        ops = m.fops = Ops()

        def components_of(mm, a):
            v, E, M = a
            if not (isinstance(E, int) and isinstance(M, int)):
                raise Unsupported("unknown format")
            out = []
            for i, (l, h) in enumerate(LIM):
                t = component(i, E, M)(iz(v))
                m.s.add(t >= l, t <= h)
                out.append(m.newbig(IV(t, l, h)))
            s = Slice(out, 0, 4, 4)
            made.append((s, iz(v), E, M))
            return s

        def value_of(mm, a):
            s, E, M = a
            for o, v, e, f in made:
                if isinstance(s, Slice) and len(s.items()) == 4 and all(p is q for p, q in zip(s.items(), o.items())) and (e, f) == (E, M):
                    return IV(v, 0, (1 << (E + M + 1)) - 1)
            raise Unsupported("components of unknown origin")
        made = []
        for fn, h in (("ComponentsOf", components_of), ("ValueOf", value_of)):
            g = prog.find("util", fn)
            if g is None:
                raise Unsupported("%s is missing" % fn)
            m.hooks[g] = h
        v = m.fresh("v", 0, (1 << n) - 1)
        ins = [m.newbig(v), m.newbig(fm.E), m.newbig(fm.M)]
        outs = [m.newbig(0) for _ in range(16)]
        field = m.newbig(21888242871839275222246405745257275088548364400416034343698204186575808495617)
        err = m.call(full, [field, Slice(ins, 0, 3, 3), Slice(outs, 0, 16, 16)])
        if err is not None:
            return ("cex", dict(kind="fails"))
        x = O(VAL[n](v.z), n)
        h = ops.scaled(O(x.z, 64), -1)
        S, C, T = [O(fun(f, 1)(h.z), 64) for f in ("Sin", "Cos", "Tan")]
        mul = lambda p, q: ops.binop(m, "*", p, q)
        beta = [mul(ops.scaled(S, 1), C), mul(S, ops.scaled(C, 1)), ops.scaled(mul(S, C), 1), O(fun("Sin", 1)(x.z), 64)]
        want = [[T, ops.binop(m, "/", S, C)], beta, [S], [C]]
        bad = []
        for k, alts in enumerate(want):
            pats = [PAT[n](ops.conv(m, t, n).z) for t in alts]
            for i in range(4):
                got = iz(m.bigv(outs[4 * k + i]))
                bad.append((("tan(x/2)", "sin(x)", "sin(x/2)", "cos(x/2)")[k], z3.And([got != component(i, fm.E, fm.M)(p) for p in pats])))
        for what, e in bad:
            m.stats.queries += 1
            m.s.push()
            m.s.add(e)
            r = m.check()
            m.s.pop()
            if r == z3.sat:
                return ("cex", dict(kind="another value for %s" % what))
            if r == z3.unknown:
                return ("unknown", what)
        for i, (b, w) in enumerate(zip(ins, (v, fm.E, fm.M))):
            z = z3.simplify(iz(m.bigv(b)) != iz(w))
            if not z3.is_false(z):
                return ("cex", dict(kind="modifies its inputs"))
        return ("ok", "")
    return ssa.explore(prog, body, timeout=timeout, stats=stats, budget=budget)


def to_float(fm, c):
    s, e, mm, a = c
    if a:
        return math.nan if mm == 0 else math.copysign(math.inf, -s)
    return (-1 if s else 1) * math.ldexp(mm, e - fm.M)


def pattern(fm, x):
    return struct.unpack("<Q", struct.pack("<d", x))[0] if fm is F64 else struct.unpack("<I", struct.pack("<f", x))[0]


def confirm(v, name, fm):
    """the real hint at angles of every size; -> (what, data) or None"""
    rng = random.Random(3)
    xs = [0.0, -0.0, 1e-320, -1e-320, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 1.0, 0.5] + [rng.uniform(-4, 4) for _ in range(150)] + \
         [rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 5) for _ in range(60)]
    jobs, pts = [], []
    p = 21888242871839275222246405745257275088548364400416034343698204186575808495617
    for x in xs:
        b = pattern(fm, x)
        pts.append((b, to_float(fm, fm.decode(b)) if x else x))
        jobs.append(dict(kind="hint", name="hint." + name, nout=16, spec=dict(op="add", e=8, m=23, args=[], base=8, curve=""), inputs=[str(b), str(fm.E), str(fm.M)]))
    for (b, x), j, r in zip(pts, jobs, v.run(jobs)):
        if r.get("err") == "no such hint":
            return None
        d = dict(job=j, result=r)
        if r.get("err"):
            return "fails on the pattern %#x: %s" % (b, r["err"]), d
        got = [int(t) for t in r["outs"]]
        got = [t if t < p // 2 else t - p for t in got]
        for k, (what, w) in enumerate((("tan(x/2)", math.tan(x / 2)), ("sin(x)", math.sin(x)), ("sin(x/2)", math.sin(x / 2)), ("cos(x/2)", math.cos(x / 2)))):
            c = got[4 * k:4 * k + 4]
            if c[0] not in (0, 1) or c[3] not in (0, 1):
                return "gives the components %s for %s at %r" % (c, what, x), d
            g = to_float(fm, c)
            # the tolerance: a few units in the last place; near zeros of sin at multiples of pi an absolute one
            tol = abs(w) * 2.0 ** (3 - fm.M) + 2.0 ** (-150 if fm is F32 else -1072) + (2.0 ** -50 * max(1.0, abs(x)) if abs(x) > 3 else 0)
            if abs(x) > 3 and k == 0:
                tol += w * w * 2.0 ** -50 * abs(x)
            if not abs(g - w) <= tol or (w == 0 and math.copysign(1, g) != math.copysign(1, w)):
                return "gives %r for %s at x = %r (%r expected)" % (g, what, x, w), d
            if w and c != list(fm.decode(pattern(fm, g))):
                return "gives the components %s, no normal form, for %s at %r" % (c, what, x), d
    return None


def h02(ck, run, v):
    prog = ssa.program()
    st = Stats()
    c = run.cov
    c.setdefault("functions_encoded", [])
    for name, fm in (("PrecomputeHint64", F64), ("PrecomputeHint32", F32)):
        c["obligations"] += 1
        r = explore(prog, name, fm, st)
        if r is None:
            run.undecided("%s is not in the repository any more" % name)
            continue
        c["leaves_discharged"] += sum(1 for x in r["results"] if x[0] == "ok")
        c["infeasible_paths"] += r["infeasible"]
        c["functions_encoded"] = sorted(set(c["functions_encoded"]) | r["called"])
        good = not r["unsupported"] and not r["pending"] and r["paths"]
        for u in sorted(set(r["unsupported"]))[:2]:
            run.undecided("%s: not encoded: %s" % (name, u))
        if r["pending"] or not r["paths"]:
            run.undecided("%s: %s" % (name, "paths left over" if r["pending"] else "no path"))
        if any(x[0] == "unknown" for x in r["results"]):
            good = False
            run.undecided("%s: no answer from the solver" % name)
        cex = [x[1] for x in r["results"] if x[0] == "cex"]
        if cex:
            good = False
            bad = confirm(v, name, fm)
            if bad:
                run.violation("%s %s" % (name, bad[0]), dict(kind="hint", why=bad[0], **bad[1]), key="%s:%s" % (name, bad[1]["job"]["inputs"][0]))
            else:
                run.undecided("%s: a solver model (%s) that the real function does not show" % (name, cex[0]["kind"]))
        if good:
            c["obligations_closed"] += 1
    ck.account(run, st)
