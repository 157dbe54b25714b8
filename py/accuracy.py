"""Accuracy of the arctangent and the sine (M04): the code is executed from go/ssa as for M02/M03; the resulting term is read as
real arithmetic with a bound on the rounding errors, i.e. as a polynomial in one real variable and a number; z3 (nlsat) decides
for all values of the variable that the polynomial stays close to the function."""
import math
from fractions import Fraction as Fr
import z3
import fl
import ssa
from fl import FL, I, B
from mathfn import PI
from ref import F32, F64
from ssa import GoPanic, Unsupported

SLACK = Fr(1, 10 ** 40)


def q(x):
    x = Fr(x)
    return z3.RealVal("%d/%d" % (x.numerator, x.denominator))


def padd(a, b):
    n = max(len(a), len(b))
    return trim([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])


def pmul(a, b):
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return trim(r)


def pscale(a, k):
    return trim([x * k for x in a])


def trim(a):
    while len(a) > 1 and a[-1] == 0:
        a = a[:-1]
    return a


def pder(a):
    return trim([i * x for i, x in enumerate(a)][1:] or [Fr(0)])


def peval(a, x):
    r = Fr(0)
    for c in reversed(a):
        r = r * x + c
    return r


def up(x):
    """a slightly larger number with a short representation"""
    return Fr(math.ceil(x * (1 << 220)), 1 << 220)


def down(x):
    return -up(-x)


class Case:
    """one range of the argument. base: float term -> polynomial in y; recip: float term whose reciprocal is y (or None)"""

    def __init__(self, name, assume, hi, base, recip, target, at, slack=Fr(0)):
        self.name, self.assume, self.hi, self.base, self.recip = name, assume, Fr(hi), base, recip
        self.target = target        # ("atan", offset, factor): offset + factor*atan(y); ("sin", factor): factor*sin(y)
        self.at = at                # y -> environment
        self.slack = slack


class Reader:
    """the value of a term in one case: (polynomial in y, error bound)"""

    def __init__(self, ck_, th, case, solver, forced):
        self.ck, self.th, self.case, self.s = ck_, th, case, solver
        fm = th.fm
        self.u, self.eta = Fr(1, 2 << fm.M), Fr(2) ** (fm.ENM - fm.M)
        self.mx = Fr(2) ** (fm.EMAX - 1)
        self.forced = list(forced)      # decisions on conditions the case does not settle
        self.used = []
        self.wrong = Fr(0)
        self.rc, self.dc, self.nc, self.bc = {}, {}, {}, {}
        self.names = {f.name(): op for op, f in th.fn.items()}

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        k = c.get_id()
        if k in self.dc:
            return self.dc[k][0]
        for v in (True, False):
            if self.ck.ask(self.s, z3.Not(c) if v else c)[0] == z3.unsat:
                self.dc[k] = (v, c)
                return v
        v = self.forced[len(self.used)] if len(self.used) < len(self.forced) else True
        self.used.append(v)
        if len(self.used) > 6:
            raise Unsupported("too many conditions that the range of the argument does not settle")
        self.s.add(c if v else z3.Not(c))
        self.dc[k] = (v, c)
        return v

    def resolve(self, t):
        k = t.get_id()
        if k in self.rc:
            return self.rc[k][0]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            r = self.resolve(t.arg(1) if self.decide(t.arg(0)) else t.arg(2))
        elif t.num_args() == 0:
            r = t
        else:
            r = t.decl()(*[self.resolve(a) for a in t.children()])
            r = self.th.eta(z3.simplify(r)) if r.sort() == FL else z3.simplify(r)
        self.rc[k] = (r, t)
        return r

    def nlsat(self, conds):
        y = self.y = z3.Real("y")
        s = z3.Tactic("qfnra-nlsat").solver()
        s.add(y >= 0, y <= q(self.case.hi), *conds(y))
        return self.ck.ask(s, B(True)) + (y,)

    @staticmethod
    def term(p, y):
        r = q(p[-1])
        for c in reversed(p[:-1]):
            r = r * y + q(c)
        return r

    def sup(self, p):
        """a bound on |p| over the range"""
        k = tuple(p)
        if k not in self.bc:
            hi = self.case.hi
            crude = sum(abs(c) * hi ** i for i, c in enumerate(p))
            fp, fh = [float(c) for c in p], float(hi)
            m = 0.0
            for i in range(201):
                v = 0.0
                for c in reversed(fp):
                    v = v * (fh * i / 200) + c
                m = max(m, abs(v))
            b = Fr(m * 1.02) + Fr(1, 10 ** 30)
            if len(p) == 1 or b >= crude or self.nlsat(lambda y: [z3.Or(self.term(p, y) > q(b), self.term(p, y) < -q(b))])[0] != z3.unsat:
                b = crude
            self.bc[k] = b
        return self.bc[k]

    def sign(self, p):
        """+1 if p >= 0 over the range, -1 if p <= 0"""
        if self.nlsat(lambda y: [self.term(p, y) < 0])[0] == z3.unsat:
            return 1
        if self.nlsat(lambda y: [self.term(p, y) > 0])[0] == z3.unsat:
            return -1
        # almost fixed: taking the magnitude then changes little
        for s in (1, -1):
            tau = up(abs(p[0]) + Fr(1, 1 << 200))
            if tau < Fr(1, 1 << 40) and self.nlsat(lambda y: [self.term(pscale(p, s), y) < -q(tau)])[0] == z3.unsat:
                self.wrong = max(self.wrong, 2 * tau)
                return s
        raise Unsupported("the sign of an intermediate value is not fixed")

    def rounded(self, p, e):
        b = self.sup(p) + e
        if b * 2 > self.mx:
            raise Unsupported("an intermediate value may overflow")
        return p, up(e + self.u * b + self.eta)

    def mag(self, t):
        """(S, float term T) if t has the magnitude of T"""
        if t.decl().eq(FL.mk):
            S, E, M, A = t.children()
            if E.num_args() == 1 and E.decl().eq(FL.fE) and M.num_args() == 1 and M.decl().eq(FL.fM) and E.arg(0).eq(M.arg(0)):
                return S, E.arg(0)
            if z3.is_int_value(E) and z3.is_int_value(M):
                return S, FL.mk(I(0), E, M, I(0))
        return None

    def signof(self, S, T):
        """0/1 if S is a fixed sign in this case, "same" / "flip" relative to T"""
        if S.eq(z3.simplify(FL.fS(T))):
            return "same"
        if S.eq(z3.simplify(1 - FL.fS(T))):
            return "flip"
        for b in (0, 1):
            if self.ck.ask(self.s, S != b)[0] == z3.unsat:
                return b
        raise Unsupported("the sign of an intermediate value is not fixed")

    def num(self, t):
        k = t.get_id()
        if k not in self.nc:
            self.nc[k] = (self.num_(t), t)
        return self.nc[k][0]

    def num_(self, t):
        c = self.th.cval(t)
        if c is not None:
            if c[3]:
                raise Unsupported("an infinite constant")
            return [self.th.fm.value(c)], Fr(0)
        for b, p in self.case.base:
            if t.eq(b):
                return p, Fr(0)
        op = self.names.get(t.decl().name()) if t.num_args() else None
        if op == "add":
            (p, e), (r, f) = self.num(t.arg(0)), self.num(t.arg(1))
            return self.rounded(padd(p, r), e + f)
        if op == "mul":
            (p, e), (r, f) = self.num(t.arg(0)), self.num(t.arg(1))
            return self.rounded(pmul(p, r), e * (self.sup(r) + f) + f * self.sup(p))
        if op == "div":
            p, e = self.num(t.arg(0))
            s = self.recip(t.arg(1))
            if s is not None:
                return self.rounded(pscale(pmul(p, [Fr(0), Fr(1)]), s), e * self.case.hi)
            c = self.th.cval(t.arg(1))
            if c is None or c[3] or c[2] == 0:
                raise Unsupported("a quotient by something that is not a constant")
            d = self.th.fm.value(c)
            return self.rounded(pscale(p, 1 / d), e / abs(d))
        m = self.mag(t)
        if m:
            s = self.signof(*m)
            p, e = self.num(m[1])
            if s == "same":
                return p, e
            if s == "flip":
                return pscale(p, -1), e
            self.wrong = Fr(0)
            p = pscale(p, self.sign(p) * (-1 if s else 1))
            return p, e + self.wrong
        raise Unsupported("a term of kind %s" % t.decl().name())

    def recip(self, t):
        """sign if t is plus or minus the float whose reciprocal is y"""
        r = self.case.recip
        if r is None:
            return None
        if t.eq(r[0]):
            return r[1]
        m = self.mag(t)
        if m and m[1].eq(r[0]):
            s = self.signof(*m)
            return r[1] if s == "same" else -r[1] if s == "flip" else (-1 if s else 1)
        return None

    def out(self, t, positive):
        """the output, up to its sign if that is fixed to the one the function has"""
        m = self.mag(t)
        if m and self.th.cval(t) is None:
            s = self.signof(*m)
            if s in (0, 1):
                if positive is None or (s == 0) != positive:
                    raise Unsupported("the sign of the result differs from the function's")
                A = t.arg(3)
                if not (A.eq(I(0)) or A.eq(z3.simplify(FL.fA(m[1])))):
                    raise Unsupported("abnormality of the result")
                p, e = self.num(m[1])
                return (p, e, "abs")
        p, e = self.num(t)
        return p, e, "signed"


def decide_case(ck_, run, t, th, out, dom, case, bound, forced):
    """-> (True | None | y of a candidate, number of decisions used)"""
    s = z3.Solver()
    s.set("timeout", ck_.timeout)
    s.add(dom)
    s.add(case.assume)
    if ck_.ask(s, B(True))[0] != z3.sat:
        return "unreachable", []
    rd = Reader(ck_, th, case, s, forced)
    r = rd.resolve(out)
    if rd.used and ck_.ask(s, B(True))[0] == z3.unsat:
        return True, rd.used
    kind, off, fac = case.target
    # sign of the function over the range
    lo_, hi_ = sorted((off, off + fac * (Fr(math.atan(float(case.hi))) if kind == "atan" else 1)))
    positive = True if lo_ >= 0 else False if hi_ <= 0 else None
    p, e, how = rd.out(r, positive)
    if how == "abs" and not positive:
        off, fac = -off, -fac
    room = bound - e - case.slack - SLACK
    t.room.append(float((e + case.slack) / bound))
    if room <= 0:
        raise Unsupported("the bound on the rounding errors, %.3g, exceeds the accuracy stated" % float(e))
    if kind == "atan":
        # |p(0) - off| + integral of |p' - fac/(1+y^2)|
        room -= abs(p[0] - off)
        d = padd(pmul(pder(p), [Fr(1), Fr(0), Fr(1)]), [-Fr(fac)])
        eps = room / case.hi
        if room <= 0:
            return Fr(0), rd.used
    else:
        T = [Fr(0)] * 42
        for i in range(21):
            T[2 * i + 1] = Fr((-1) ** i, math.factorial(2 * i + 1))
        d = padd(p, pscale(T, -fac))
        d = padd(d, [-Fr(off)])
        eps = room - case.hi ** 43 / math.factorial(43)
    eps = down(eps)
    ans, md, y = rd.nlsat(lambda y: [z3.Or(rd.term(d, y) > q(eps), rd.term(d, y) < -q(eps))])
    if ans == z3.unsat:
        return True, rd.used
    if ans == z3.unknown:
        return None, rd.used
    v = md[y]
    if not z3.is_rational_value(v):
        v = v.approx(40)
    return Fr(v.numerator_as_long(), v.denominator_as_long()), rd.used


def check(ck_, t):
    run, c = ck_.run, ck_.run.cov
    m = ssa.Machine(ck_.prog, (), ck_.timeout, ck_.stats, globals_=ck_.glob)
    w = fl.World(ck_.prog, t.fm, ck_.mf)
    w.install(m)
    th = t.th = w.th
    terms = {n: th.input(n) for n, k in t.inputs}
    t.dom = list(t.domain(th, terms))
    t.kinds, t.want, t.acc, t.room = ["f"], [], [B(True)], []
    c["obligations"] += 1
    try:
        outs = t.body(w, m, terms)
        if m.alts:
            raise Unsupported("control flow depends on a circuit value")
        cases = t.cases(th, terms)
        dom = t.dom + [th.wf(terms[n]) for n, k in t.inputs]
        dom = dom + th.axioms()
    except GoPanic as e:
        return run.undecided("%s: panics in symbolic execution: %s" % (t.name, e))
    except Unsupported as e:
        return run.undecided("%s: %s" % (t.name, e))
    finally:
        ck_.called |= m.called
    c["obligations"] += len(cases) - 1
    bad = 0
    for case in cases:
        todo, n, ok = [[]], 0, True
        while todo and ok:
            f = todo.pop()
            try:
                r, used = decide_case(ck_, run, t, th, outs[0][1], dom, case, t.bound, f)
            except Unsupported as e:
                r, used = str(e), f
            n += 1
            if r == "unreachable":
                run.undecided("%s: %s: no witness for the range" % (t.name, case.name))
                ok = False
            elif r is not True:
                ok = False
                bad += 1
                ys = [r] if isinstance(r, Fr) else []
                why = r if isinstance(r, str) else "the solver's bound does not hold" if ys else "solver gave no answer"
                if bad <= 3 and refute(ck_, t, case, ys, why):
                    return
                run.undecided("%s: %s: %s" % (t.name, case.name, why))
            for i in range(len(f), len(used)):
                todo.append(used[:i] + [not used[i]])
        if ok:
            c["obligations_closed"] += 1
            c["leaves_discharged"] += n
            c["reach_witnesses"] += 1
    run.cov.setdefault("accuracy", {})[t.name] = dict(stated=float(t.bound), rounding_share=max(t.room or [0]))
    ck_.validate(t, 12)


def refute(ck_, t, case, ys, why):
    """real runs near the solver's value and all over the range"""
    ys = list(ys) + [case.hi * i / 60 for i in range(61)] + [case.hi / 2 ** i for i in range(1, 30)]
    envs = [e for y in ys for e in case.at(y)]
    envs = [e for e in envs if ck_.indomain(t, e)][:300]
    try:
        worst = []
        for e, (o, b) in zip(envs, ck_.real(t, envs)):
            ck_.points += 1
            if ck_.differs(t, e, o, b) and ck_.report(t, e, "%s: %s" % (case.name, why)):
                return True
    except Unsupported as e:
        ck_.run.undecided("%s: %s" % (t.name, e))
    return ck_.validate(t, 400)


# ---------------------------------------------------------------- the functions

def mpf(x):
    import mpmath
    mpmath.mp.dps = 60
    return mpmath.mpf(x.numerator) / x.denominator


def near(fm, x, s=None):
    """floats next to a rational"""
    r = fm.round(Fr(x))
    out = [r]
    for d in (-1, 1):
        if r[3] == 0 and (1 << fm.M) < r[2] + d < (2 << fm.M):
            out.append((r[0], r[1], r[2] + d, 0))
    if s is not None:
        out = [(s,) + o[1:] for o in out]
    return out


def judge(t, f):
    def j(env, outs):
        o = outs[0]
        import mpmath
        want = f(env)
        if o[3] == 1:
            return "output 0 is %s; the function is %s" % (o, mpmath.nstr(want, 20))
        got = mpf(t.fm.value(o))
        if abs(got - want) > mpf(t.bound):
            return "output 0 is %s; the function is %s, off by %s" % (mpmath.nstr(got, 20), mpmath.nstr(want, 20), mpmath.nstr(abs(got - want), 4))
        return None
    return j


def anyarg(fm, lim=None):
    import random as _r

    def g(t, rg):
        e = {}
        for n, k in t.inputs:
            x = fm.round(Fr(rg.uniform(-(lim or 3), lim or 3))) if rg.random() < .8 or lim else fl.anyfloat(fm, rg)
            e[n] = x
        return e
    return g


def w_(fm):
    return fm.E + fm.M + 1


def real(fm, x):
    """value of a float as mpf, infinities included"""
    import mpmath
    if x[3]:
        return mpmath.mpf("-inf") if x[0] else mpmath.mpf("inf")
    return mpf(fm.value(x))


def atan(fm, bound):
    import mathfn
    t = fl.Task("accuracy of AtanRemez%d" % w_(fm), fm, "m_atan")
    t.inputs, t.bound = [("x", "f")], bound
    t.domain = lambda th, T: [z3.Not(th.nan(T["x"]))]
    t.body = mathfn.run_body("math", "AtanRemez%d" % w_(fm), lambda wd, m, T: [wd.context(m), wd.floatvar(T["x"])], mathfn.onefloat)

    def cases(th, T):
        x = T["x"]
        one = th.num(1)
        small = th.le(th.abs(x), one)
        r = []
        for s in (0, 1):
            f = Fr(-1 if s else 1)
            r.append(Case("%s argument of magnitude at most one" % ("negative" if s else "positive"), [FL.fS(x) == s, small], 1, [(x, [Fr(0), f])], None,
                          ("atan", Fr(0), f), lambda y, s=s: [dict(x=n) for n in near(fm, y, s)]))
            r.append(Case("%s argument of magnitude above one" % ("negative" if s else "positive"), [FL.fS(x) == s, z3.Not(small)], 1, [], (x, f),
                          ("atan", f * PI / 2, -f), lambda y, s=s: [dict(x=n) for n in near(fm, 1 / y if y else Fr(2) ** 60, s)]))
        return r
    t.cases = cases

    def f(env):
        import mpmath
        mpmath.mp.dps = 60
        return mpmath.atan(real(fm, env["x"]))
    t.judge = judge(t, f)
    t.gen = anyarg(fm)
    return t


def atan2(bound):
    import mathfn
    fm = F64
    t = fl.Task("accuracy of Atan2", fm, "m_atan2")
    t.inputs, t.bound = [("y", "f"), ("x", "f")], bound
    t.domain = lambda th, T: [z3.Not(th.nan(th.div(T["y"], T["x"])))]
    t.body = mathfn.run_body("math", "Atan2", lambda wd, m, T: [wd.context(m), wd.floatvar(T["y"]), wd.floatvar(T["x"])], mathfn.onefloat)

    def cases(th, T):
        x, y = T["x"], T["y"]
        d = th.div(y, x)
        small = th.le(th.abs(d), th.num(1))
        u = Fr(1, 2 << fm.M)
        r = []
        for sx in (0, 1):
            for sy in (0, 1):
                s = sx ^ sy
                f = Fr(-1 if s else 1)
                off = Fr(0) if not sx else -PI if sy else PI
                nm = "quadrant x%s y%s" % ("-" if sx else "+", "-" if sy else "+")
                a = [FL.fS(x) == sx, FL.fS(y) == sy]

                def at(v, sx=sx, sy=sy):
                    return [dict(x=(sx, 0, 1 << fm.M, 0), y=n) for n in near(fm, v, sy)]
                r.append(Case(nm + ", quotient at most one", a + [small], 1, [(d, [Fr(0), f])], None, ("atan", off, f), at, u))
                r.append(Case(nm + ", quotient above one", a + [z3.Not(small)], 1, [], (d, f), ("atan", off + f * PI / 2, -f),
                              lambda v, at=at: at(1 / v if v else Fr(2) ** 60), u))
        return r
    t.cases = cases

    def f(env):
        import mpmath
        mpmath.mp.dps = 60
        x, y = env["x"], env["y"]
        if x[3] or x[2] == 0 or y[3]:
            if y[2] == 0 and not y[3]:
                a = mpmath.mpf(0)
            elif x[3]:
                a = mpmath.mpf(0)
            else:
                a = mpmath.pi / 2
        else:
            a = mpmath.atan(abs(real(fm, y) / real(fm, x)))
        if x[0]:
            a = mpmath.pi - a
        return -a if y[0] else a
    t.judge = judge(t, f)
    t.gen = anyarg(fm)
    return t


def sin(fm, bound):
    import mathfn
    t = fl.Task("accuracy of SinTaylor%d" % w_(fm), fm, "m_sin")
    t.inputs, t.bound = [("x", "f")], bound
    pif, half = fm.round(PI), fm.round(PI / 2)
    if fm.value(pif) > PI:
        pif = pif[:2] + (pif[2] - 1,) + pif[3:]
    vp, vh = fm.value(pif), fm.value(half)
    t.domain = lambda th, T: [th.le(th.abs(T["x"]), th.const(pif))]
    t.body = mathfn.run_body("math", "SinTaylor%d" % w_(fm), lambda wd, m, T: [wd.context(m), wd.floatvar(T["x"])], mathfn.onefloat)

    def cases(th, T):
        x = T["x"]
        fold = th.lt(th.const(half), x)
        r = [Case("argument from 0 to pi/2", [FL.fS(x) == 0, z3.Not(fold)], vh, [(x, [Fr(0), Fr(1)])], None, ("sin", Fr(0), Fr(1)),
                  lambda y: [dict(x=n) for n in near(fm, y, 0)]),
             Case("argument from -pi to 0", [FL.fS(x) == 1], vp, [(x, [Fr(0), Fr(-1)])], None, ("sin", Fr(0), Fr(-1)),
                  lambda y: [dict(x=n) for n in near(fm, y, 1)]),
             Case("argument from pi/2 to pi", [FL.fS(x) == 0, fold], vp - vh, [(x, [vp, Fr(-1)])], None, ("sin", Fr(0), Fr(1)),
                  lambda y: [dict(x=n) for n in near(fm, vp - y, 0)], abs(PI - vp))]
        return r
    t.cases = cases

    def f(env):
        import mpmath
        mpmath.mp.dps = 60
        return mpmath.sin(real(fm, env["x"]))
    t.judge = judge(t, f)
    t.gen = anyarg(fm, 3.14159)
    return t


def tasks():
    return [atan(F32, Fr(1, 1 << 19)), atan(F64, Fr(1, 1 << 45)), atan2(Fr(1, 1 << 45)), sin(F32, Fr(1, 1 << 18)), sin(F64, Fr(1, 1 << 47))]
