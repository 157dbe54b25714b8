"""Composed functions of the math package against their reference (M01-M03)."""
import math
import struct
from fractions import Fraction
import z3
import fl
import ssa
from fl import FL, Task, ite, I
from ref import F32, F64
from ssa import Slice, Struct, Unsupported

ATAN64 = [-0.000942885517390737, 0.012831303689781028, -0.08114401696242823, 0.31521931513648976, -0.8366759947462465, 1.5941310579396186,
          -2.225620203806413, 2.283041197386529, -1.716279012920493, 0.9814600474792705, -0.5135300638813421, 0.28006786416868995,
          -0.0649531804791716, -0.07417760886128402, -0.0034470515096669467, 0.11167263969100766, -7.11657573061619e-05, -0.14285027929722588,
          -4.888898128412832e-07, 0.2000000246846688, -8.33552299173139e-10, -0.3333333333160862, -1.8894178462249048e-13, 1.0000000000000009,
          -4.1904552294565837e-19]
ATAN32 = ["0.022023164", "-0.13374522", "0.32946652", "-0.37905943", "0.1053119", "0.16982068", "0.005476566", "-0.33393043", "0.000035324891",
          "0.99999905", "0.0000000073035884"]
PI = Fraction(314159265358979323846264338327950288419716939937510582097494459230781640628620899, 10 ** 80)
COEF = {64: [Fraction(x) for x in ATAN64], 32: [Fraction(x) for x in ATAN32]}


def w(fm):
    return fm.E + fm.M + 1


def num(th, x):
    return th.const(th.fm.round(Fraction(x)))


def horner(th, coefs, at, first=None):
    r = th.const(th.fm.zero(0)) if first is None else first
    for c in coefs:
        r = th.add(th.mul(r, at), c)
    return r


def run_body(pkg, name, args, outs):
    """body of a task: calls the function; args(world, machine, terms) -> go values; outs(world, machine, result)"""
    def body(wd, m, terms):
        f = wd.prog.find(pkg, name)
        if f is None:
            raise Unsupported("function %s.%s is missing" % (pkg, name))
        return outs(wd, m, m.call(f, args(wd, m, terms)))
    return body


def onefloat(wd, m, r):
    if isinstance(r, Struct):
        return [("f", wd.fl(m, r))]
    raise Unsupported("result %r" % (r,))


def poly(fm, n, k):
    t = Task("Polynomial.%s with %d coefficients (binary%d)" % ("EvalK" if k else "Eval", n, w(fm)), fm, "m_poly", [k, n])
    t.inputs = [("x", "f")] + [("c%d" % i, "f") for i in range(n)]

    def args(wd, m, T):
        p = [wd.floatvar(T["c%d" % i]) for i in range(n)]
        a = [Slice(p, 0, n, n), wd.context(m), wd.floatvar(T["x"])]
        return a + ([k] if k else [])
    t.body = run_body("math", "Polynomial.EvalK" if k else "Polynomial.Eval", args, onefloat)

    def spec(th, T):
        cs = [T["c%d" % i] for i in range(n)]
        if not k:
            cs.reverse()
        alts = [horner(th, cs, T["x"])]
        if n:
            alts.append(horner(th, cs[1:], T["x"], cs[0]))
        return [alts]
    t.spec = spec
    return t


def atanspec(th, x, fm):
    sign = FL.fS(x)
    a = th.abs(x)
    g = th.lt(num(th, 1), a)
    z = ite(g, th.div(num(th, 1), a), a)
    p = horner(th, [num(th, c) for c in COEF[w(fm)]], z)
    half = num(th, PI / 2)
    return th.withsign(sign, ite(g, th.sub(half, p), p))


def atan(fm):
    t = Task("AtanRemez%d" % w(fm), fm, "m_atan")
    t.inputs = [("x", "f")]
    t.domain = lambda th, T: [z3.Not(th.nan(T["x"]))]
    t.body = run_body("math", "AtanRemez%d" % w(fm), lambda wd, m, T: [wd.context(m), wd.floatvar(T["x"])], onefloat)
    t.spec = lambda th, T: [[atanspec(th, T["x"], fm)]]
    return t


def atan2():
    fm = F64
    t = Task("Atan2", fm, "m_atan2")
    t.inputs = [("y", "f"), ("x", "f")]
    t.domain = lambda th, T: [z3.Not(th.nan(th.div(T["y"], T["x"])))]
    t.body = run_body("math", "Atan2", lambda wd, m, T: [wd.context(m), wd.floatvar(T["y"]), wd.floatvar(T["x"])], onefloat)

    def spec(th, T):
        a = atanspec(th, th.div(T["y"], T["x"]), fm)
        pi = num(th, PI)
        return [[ite(FL.fS(T["x"]) == 1, ite(FL.fS(T["y"]) == 1, th.sub(a, pi), th.add(a, pi)), a)]]
    t.spec = spec
    return t


def sin(fm):
    t = Task("SinTaylor%d" % w(fm), fm, "m_sin")
    t.inputs = [("x", "f")]
    t.domain = lambda th, T: [th.finite(T["x"])]
    t.body = run_body("math", "SinTaylor%d" % w(fm), lambda wd, m, T: [wd.context(m), wd.floatvar(T["x"])], onefloat)

    def spec(th, T):
        x = T["x"]
        pi, half = num(th, PI), num(th, PI / 2)
        g = th.lt(half, x)
        y = th.abs(ite(g, th.sub(pi, x), x))
        sq = th.mul(y, y)
        alts = []
        for start in (th.const(fm.zero(0)), None):
            r, term = start, y
            for i in range(1, 16):
                if r is None:
                    r = term
                else:
                    r = th.add(r, term) if i % 2 else th.sub(r, term)
                term = th.div(th.mul(term, sq), num(th, 2 * i * (2 * i + 1)))
            alts.append(th.withsign(FL.fS(x), r))
        return [alts]
    t.spec = spec

    def gen(t, rg):
        k = rg.random()
        if k < .2:
            v = fm.round(PI * rg.randint(0, 16) / 16)
        elif k < .8:
            v = fm.round(PI * Fraction(rg.uniform(-1, 1)))
        else:
            v = fl.anyfloat(fm, rg)
        return dict(x=v)
    t.gen = gen
    return t


def tasks(pid, deep):
    if pid == "M01":
        ns = list(range(0, 7)) + ([10, 16, 25, 40, 64] if deep else [11, 25, 32])
        return [poly(fm, n, k) for fm in (F64, F32) for n in ns for k in (0, 1)]
    if pid == "M02":
        return [atan(F32), atan(F64), atan2()]
    return [sin(F32), sin(F64)]
