"""Great-circle distance (U02): the Go function on unknown positions.

A float is a real number with a NaN flag; rounding is an uninterpreted function with the facts every
rounding has (monotone, odd, exact on zero and on small integers, bounded by the rounded bounds);
products, quotients and the library's trigonometric functions are uninterpreted with their documented
identities.  z3 decides the property on every path for all positions of the domain; a model is made
concrete by running the real function at and around its values.
"""
import json
import math
import os
import random
import subprocess
import tempfile
from fractions import Fraction
import z3
import ssa
import vrec
from engine import Stats
from ssa import FV, Unsupported

R = z3.RealSort()
HALFPI = Fraction(math.pi / 2)
INF = Fraction(10) ** 400


def rv(x):
    x = Fraction(x)
    return z3.RealVal("%d/%d" % (x.numerator, x.denominator))


def rnd(x):
    """a real rounded to binary64 (no overflow in the domain)"""
    try:
        return Fraction(float(x))
    except OverflowError:
        return INF if x > 0 else -INF


class F(FV):
    __slots__ = ("z", "lo", "hi", "nan")

    def __init__(self, z, lo, hi, nan=None):
        self.z, self.lo, self.hi = z, Fraction(lo), Fraction(hi)
        self.nan = z3.BoolVal(False) if nan is None else nan


def band(*a):
    return z3.simplify(z3.Or(*a))


class Ops:
    """instances of the uninterpreted functions, with their facts"""

    def __init__(self):
        self.fn = {}
        self.inst = {}

    def f(self, v):
        if isinstance(v, F):
            return v
        if isinstance(v, (int, float)):
            v = float(v)
            if v != v or v in (math.inf, -math.inf):
                raise Unsupported("special constant next to an unknown float")
            return F(rv(Fraction(v)), Fraction(v), Fraction(v))
        raise Unsupported("float %r" % (v,))

    def const(self, x):
        return x.lo if x.lo == x.hi and z3.is_rational_value(x.z) else None

    def uf(self, m, name, args):
        """application of an uninterpreted function; -> (term, new)"""
        args = [z3.simplify(a) for a in args]
        g = self.fn.get(name)
        if g is None:
            g = self.fn[name] = z3.Function(name, *([R] * (len(args) + 1)))
            self.inst[name] = []
        t = g(*args)
        for a, u in self.inst[name]:
            if u.eq(t):
                return t, False
        return t, True

    def apply(self, m, name, x, lo, hi, nan=None, odd=False, even=False, mono=False, zero=None, facts=()):
        t, new = self.uf(m, name, [x.z])
        if new:
            m.s.add(t >= rv(lo), t <= rv(hi))
            if zero is not None:
                m.s.add(z3.Implies(x.z == 0, t == rv(zero)))
            for (a,), u in self.inst[name]:
                if odd:
                    m.s.add(z3.Implies(a == -x.z, u == -t))
                if even:
                    m.s.add(z3.Implies(a == -x.z, u == t))
                if mono:
                    m.s.add(z3.Implies(a <= x.z, u <= t), z3.Implies(x.z <= a, t <= u))
            for e in facts:
                m.s.add(e(t))
            self.inst[name].append(([x.z], t))
        return F(t, lo, hi, x.nan if nan is None else nan)

    def round(self, m, z, lo, hi, nan):
        lo, hi = rnd(lo), rnd(hi)
        if abs(lo) == INF or abs(hi) == INF:
            raise Unsupported("overflow not excluded")
        z = z3.simplify(z)
        if z3.is_rational_value(z):
            c = rnd(z.as_fraction())
            return F(rv(c), c, c, nan)
        x = F(z, lo, hi, nan)
        sg = [lambda t: z3.And(z3.Implies(z >= 0, t >= 0), z3.Implies(z <= 0, t <= 0))]
        for k in (1, 2, 90, 180, 360):
            sg.append(lambda t, k=k: z3.And(z3.Implies(z >= k, t >= k), z3.Implies(z <= k, t <= k), z3.Implies(z >= -k, t >= -k), z3.Implies(z <= -k, t <= -k)))
        return self.apply(m, "rnd", x, lo, hi, nan, odd=True, mono=True, zero=0, facts=sg)

    def neg(self, x):
        return F(-x.z, -x.hi, -x.lo, x.nan)

    def bilinear(self, m, name, x, y, lo, hi, nan):
        """x*y (or x/y), rounded"""
        a, b = [x.z, y.z]
        t, new = self.uf(m, name, [a, b])
        if new:
            a, b = z3.simplify(a), z3.simplify(b)
            m.s.add(t >= rv(lo), t <= rv(hi))
            m.s.add(z3.Implies(a == 0, t == 0), z3.Implies(z3.Or(z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)), t >= 0),
                    z3.Implies(z3.Or(z3.And(a >= 0, b <= 0), z3.And(a <= 0, b >= 0)), t <= 0))
            if name == "mul":
                m.s.add(z3.Implies(b == 0, t == 0), z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a), z3.Implies(a == b, t >= 0))
            else:
                m.s.add(z3.Implies(b == 1, t == a), z3.Implies(z3.And(a == b, b != 0), t == 1))
            for (c, d), u in self.inst[name]:
                pairs = [(c, d)] + ([(d, c)] if name == "mul" else [])
                for p, q in pairs:
                    m.s.add(z3.Implies(z3.And(a == p, b == q), t == u), z3.Implies(z3.And(a == -p, b == -q), t == u),
                            z3.Implies(z3.Or(z3.And(a == p, b == -q), z3.And(a == -p, b == q)), t == -u))
            self.inst[name].append(([a, b], t))
        return F(t, lo, hi, nan)

    def conv(self, m, v, n):
        if n != 64 or not isinstance(v, F):
            raise Unsupported("conversion to float%d" % n)
        return v

    def binop(self, m, o, x, y):
        x, y = self.f(x), self.f(y)
        nan = band(x.nan, y.nan)
        ok = z3.simplify(z3.Not(nan))
        if o in ("<", "<=", ">", ">=", "==", "!="):
            c = {"<": x.z < y.z, "<=": x.z <= y.z, ">": x.z > y.z, ">=": x.z >= y.z, "==": x.z == y.z, "!=": x.z == y.z}[o]
            return z3.simplify(z3.Not(z3.And(ok, c)) if o == "!=" else z3.And(ok, c))
        if o == "+":
            return self.round(m, x.z + y.z, x.lo + y.lo, x.hi + y.hi, nan)
        if o == "-":
            return self.round(m, x.z - y.z, x.lo - y.hi, x.hi - y.lo, nan)
        if o == "*":
            c = [a * b for a in (x.lo, x.hi) for b in (y.lo, y.hi)]
            if self.const(x) is not None or self.const(y) is not None:
                return self.round(m, x.z * y.z, min(c), max(c), nan)
            if z3.simplify(x.z).eq(z3.simplify(y.z)):
                c.append(0)
                c = [max(v, 0) for v in c]
            return self.bilinear(m, "mul", x, y, rnd(min(c)), rnd(max(c)), nan)
        if o == "/":
            k = self.const(y)
            if k is not None and k != 0:
                c = [x.lo / k, x.hi / k]
                return self.round(m, x.z / rv(k), min(c), max(c), nan)
            nan = band(nan, y.z == 0)        # 0/0, or an infinity whose further use is not followed
            if y.lo > 0 or y.hi < 0:
                c = [a / b for a in (x.lo, x.hi) for b in (y.lo, y.hi)]
            else:
                c = [-Fraction(2) ** 1023, Fraction(2) ** 1023]
            return self.bilinear(m, "div", x, y, rnd(min(c)), rnd(max(c)), nan)
        raise Unsupported("operator %s on unknown floats" % o)

    def call(self, m, n, a):
        x = self.f(a[0])
        if n == "math.Sin":
            r = self.apply(m, "sin", x, -1, 1, odd=True, zero=0)
            m.s.add(z3.Implies(z3.And(x.z >= 0, x.z <= rv(math.pi)), r.z >= 0), z3.Implies(z3.And(x.z <= 0, x.z >= rv(-math.pi)), r.z <= 0))
            return r
        if n == "math.Cos":
            small = x.lo >= -HALFPI and x.hi <= HALFPI
            r = self.apply(m, "cos", x, 0 if small else -1, 1, even=True, zero=1)
            m.s.add(z3.Implies(z3.And(x.z >= rv(-HALFPI), x.z <= rv(HALFPI)), r.z >= 0))
            return r
        if n == "math.Abs":
            hi = max(abs(x.lo), abs(x.hi))
            return F(z3.If(x.z >= 0, x.z, -x.z), 0, hi, x.nan)
        if n == "math.Sqrt":
            nan = band(x.nan, x.z < 0)
            hi = rnd(Fraction(math.sqrt(max(float(x.hi), 0.0))))
            r = self.apply(m, "sqrt", F(x.z, max(x.lo, 0), max(x.hi, 0)), 0, max(hi, Fraction(1)), nan, mono=True, zero=0)
            m.s.add(z3.Implies(x.z == 1, r.z == 1), z3.Implies(x.z > 0, r.z > 0))
            return r
        if n in ("math.Asin", "math.Acos", "math.Atan"):
            top = Fraction(math.pi) if n == "math.Acos" else HALFPI
            lo = 0 if n == "math.Acos" else -top
            nan = x.nan if n == "math.Atan" else band(x.nan, x.z > 1, x.z < -1)
            r = self.apply(m, n[5:].lower(), x, lo, top, nan, odd=n != "math.Acos", mono=n != "math.Acos", zero=None if n == "math.Acos" else 0)
            if n == "math.Acos":
                m.s.add(z3.Implies(x.z == 1, r.z == 0))
            return r
        if n == "math.Pow":
            y = self.f(a[1])
            k = self.const(y)
            if k == 1:
                return x
            if k == Fraction(1, 2):
                return self.call(m, "math.Sqrt", [x])
            if k is None or k.denominator != 1 or k <= 0 or k > 8:
                raise Unsupported("math.Pow with exponent %s" % k)
            v = [abs(x.lo) ** k, abs(x.hi) ** k]
            return self.apply(m, "pow%d" % k, x, 0 if k % 2 == 0 else -rnd(max(v)), rnd(max(v)), odd=k % 2 == 1, even=k % 2 == 0, zero=0)
        if n in ("math.Max", "math.Min"):
            y = self.f(a[1])
            c = x.z >= y.z if n == "math.Max" else x.z <= y.z
            g = max if n == "math.Max" else min
            return F(z3.If(c, x.z, y.z), g(x.lo, y.lo), g(x.hi, y.hi), band(x.nan, y.nan))
        if n in ("math.Atan2", "math.Hypot"):
            y = self.f(a[1])
            nan = band(x.nan, y.nan)
            name = n[5:].lower()
            t, new = self.uf(m, name, [x.z, y.z])
            top = Fraction(math.pi) if name == "atan2" else rnd(abs(x.lo) + abs(x.hi) + abs(y.lo) + abs(y.hi))
            lo = -top if name == "atan2" else Fraction(0)
            if new:
                p, q = z3.simplify(x.z), z3.simplify(y.z)
                m.s.add(t >= rv(lo), t <= rv(top))
                if name == "atan2":
                    # the sign is the ordinate's; zero exactly on the positive abscissa axis (and, with a positive zero, at the origin)
                    m.s.add(z3.Implies(p > 0, t >= 0), z3.Implies(p < 0, t <= 0), z3.Implies(z3.And(p == 0, q > 0), t == 0),
                            z3.Implies(z3.And(p == 0, q < 0), z3.Or(t == rv(math.pi), t == rv(-math.pi))))
                else:
                    m.s.add(z3.Implies(z3.And(p == 0, q == 0), t == 0))
                for (c, d), u in self.inst[name]:
                    m.s.add(z3.Implies(z3.And(c == p, d == q), t == u))
                    if name == "atan2":
                        m.s.add(z3.Implies(z3.And(c == -p, d == q, p != 0), t == -u))
                    else:
                        e = lambda s, w: z3.Or(s == w, s == -w)
                        m.s.add(z3.Implies(z3.Or(z3.And(e(c, p), e(d, q)), z3.And(e(c, q), e(d, p))), t == u))
                self.inst[name].append(([p, q], t))
            return F(t, lo, top, nan)
        if n == "math.IsNaN":
            return x.nan
        raise Unsupported("call of %s" % n)


LAT, LON = 90, 180
KINDS = ("symmetric", "zero", "sign")


def position(m, i):
    out = []
    for nm, b in (("lat", LAT), ("lon", LON)):
        z = z3.Real("%s%d" % (nm, i))
        m.s.add(z >= -b, z <= b)
        out.append(F(z, -b, b))
    return out


def explore(prog, full, kind, stats, timeout=30000, budget=60):
    def body(m):
        m.fops = Ops()
        p, q = position(m, 1), position(m, 2)
        if kind == "zero":
            q = p
        d = m.fops.f(m.call(full, p + q))
        if kind == "symmetric":
            e = m.fops.f(m.call(full, q + p))
            bad = z3.Or(d.nan, e.nan, d.z != e.z)
        elif kind == "zero":
            bad = z3.Or(d.nan, d.z != 0)
        else:
            bad = z3.Or(d.nan, d.z < 0)
        m.stats.queries += 1
        bad = z3.simplify(bad)
        if z3.is_false(bad):
            return ("ok", "")
        # each disjunct by itself
        cands = []
        unknown = False
        for part in (bad.children() if z3.is_or(bad) else [bad]):
            m.s.push()
            m.s.add(part)
            for _ in range(4):
                r = m.check()
                if r != z3.sat:
                    unknown |= r == z3.unknown
                    break
                mod = m.s.model()
                val = [mod.eval(x.z, model_completion=True) for x in p + q]
                try:
                    val = [float(x.as_fraction()) for x in val]
                except AttributeError:
                    val = [float(x.approx(20).as_fraction()) for x in val]
                cands.append(val)
                m.s.add(z3.Or(*[x.z != rv(v) for x, v in zip(p, val)]))
            m.s.pop()
        if cands:
            return ("cex", cands)
        return ("unknown", "") if unknown else ("ok", "")
    return ssa.explore(prog, body, timeout=timeout, stats=stats, budget=budget)


GO = """package main

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
)

func TestZzVerif(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	var in [][4]float64
	if err := json.Unmarshal(b, &in); err != nil {
		t.Fatal(err)
	}
	for _, p := range in {
		fmt.Printf("VERIF %x\\n", @(p[0], p[1], p[2], p[3]))
	}
}
"""


def real(name, points):
    """the real function at the points"""
    d = tempfile.mkdtemp(prefix="verif_u02_")
    try:
        src, ov, inp = os.path.join(d, "t.go"), os.path.join(d, "o.json"), os.path.join(d, "in.json")
        open(src, "w").write(GO.replace("@", name))
        json.dump(dict(Replace={os.path.join(vrec.REPO, "proximity", "zz_verif_test.go"): src}), open(ov, "w"))
        json.dump(points, open(inp, "w"))
        e = dict(vrec.goenv(), VERIF_IN=inp)
        r = subprocess.run(["go", "test", "-overlay", ov, "-run", "TestZzVerif", "-count=1", "-v", "-vet=off", "./proximity"], cwd=vrec.REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out = [l.split()[1] for l in r.stdout.decode(errors="replace").splitlines() if l.startswith("VERIF ")]
        if len(out) != len(points):
            raise vrec.BuildError(r.stdout.decode(errors="replace")[-2000:])
        return [float("nan") if "NaN" in x else float(x.replace("+Inf", "inf").replace("-Inf", "-inf")) if "Inf" in x else float.fromhex(x) for x in out]
    finally:
        for f in ("t.go", "o.json", "in.json"):
            try:
                os.remove(os.path.join(d, f))
            except OSError:
                pass
        os.rmdir(d)


def around(cands, kind):
    """positions at and around the models, and the configurations at which distances degenerate"""
    rng = random.Random(2)
    pts = []
    for c in cands[:60]:
        pts.append(list(c))
        for _ in range(6):
            d = [x + rng.choice((0, 0, 1e-9, -1e-9, 0.5, -0.5)) for x in c]
            pts.append([max(-b, min(b, x)) for x, b in zip(d, (LAT, LON, LAT, LON))])
    for _ in range(1500):
        a = [rng.uniform(-90, 90), rng.uniform(-180, 180)]
        k = rng.randrange(5)
        if k == 0:
            b = [-a[0], a[1] - 180 if a[1] > 0 else a[1] + 180]        # antipodes
        elif k == 1:
            b = [a[0], rng.uniform(-180, 180)]
        elif k == 2:
            b = [rng.uniform(-90, 90), a[1]]
        elif k == 3:
            b = [a[0] + rng.uniform(-1e-6, 1e-6), a[1] + rng.uniform(-1e-6, 1e-6)]
        else:
            b = [rng.uniform(-90, 90), rng.uniform(-180, 180)]
        pts.append(a + [max(-90, min(90, b[0])), max(-180, min(180, b[1]))])
    sp = [(x, y) for x in (-90.0, -45.0, 0.0, 30.0, 90.0) for y in (-180.0, -90.0, 0.0, 60.0, 180.0)]
    pts += [list(p) + list(q) for p in sp for q in sp]
    if kind == "zero":
        pts = [p[:2] + p[:2] for p in pts]
    return pts


def judge(kind, p, d, e):
    if kind == "symmetric":
        return None if d == e else "the distance from %s to %s is %r, but the other way %r" % (p[:2], p[2:], d, e)
    if kind == "zero":
        return None if d == 0 else "the distance from %s to itself is %r" % (p[:2], d)
    return None if d >= 0 else "the distance from %s to %s is %r" % (p[:2], p[2:], d)


def u02(ck, run):
    prog = ssa.program(("./proximity",))
    st = Stats()
    c = run.cov
    # the distance: a function of four floats with one float result, under its name
    names = [n for n in ("OldHaversine", "Haversine") if prog.find("proximity", n) or prog.find("main", n)]
    c["functions_encoded"] = []
    if not names:
        c["obligations"] += 1
        run.undecided("OldHaversine is not in the repository any more")
        return
    name = names[0]
    full = prog.find("proximity", name) or prog.find("main", name)
    for kind in KINDS:
        c["obligations"] += 1
        r = explore(prog, full, kind, st, budget=max(20, run.left() / 4))
        c["leaves_discharged"] += sum(1 for x in r["results"] if x[0] == "ok")
        c["infeasible_paths"] += r["infeasible"]
        c["functions_encoded"] = sorted(set(c["functions_encoded"]) | r["called"])
        good = not r["unsupported"] and not r["pending"] and r["paths"]
        for u in sorted(set(r["unsupported"]))[:2]:
            run.undecided("%s: not encoded: %s" % (kind, u))
        if r["pending"] or not r["paths"]:
            run.undecided("%s: %s" % (kind, "paths left over" if r["pending"] else "no path"))
        if any(x[0] == "unknown" for x in r["results"]):
            good = False
            run.undecided("%s: no answer from the solver" % kind)
        cands = [p for x in r["results"] if x[0] == "cex" for p in x[1]]
        if cands:
            good = False
            pts = around(cands, kind)
            out = real(name, pts + [p[2:] + p[:2] for p in pts])
            n = len(pts)
            bad = [(p, d, e) for p, d, e in zip(pts, out[:n], out[n:]) if judge(kind, p, d, e)]
            if bad:
                p, d, e = min(bad, key=lambda b: sum(x != int(x) for x in b[0]))
                run.violation("%s: %s (%d of %d positions tried around the solver's models)" % (name, judge(kind, p, d, e), len(bad), n),
                              dict(kind="distance", function=name, positions=p, result=[d if d == d else "NaN", e if e == e else "NaN"],
                                   why=judge(kind, p, d, e)), key="%s:%s" % (kind, p))
            else:
                run.undecided("%s: solver model %s that the real function does not show" % (kind, cands[0]))
        if good:
            c["obligations_closed"] += 1
    ck.account(run, st)
