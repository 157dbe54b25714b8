"""Formula of the great-circle distance and unit conversions (U04): the Go functions on unknown reals.

Floats are read as exact reals (rounding is left out); constants as written, up to 12 significant digits; the trigonometric
functions and the square root are uninterpreted with a few identities.  z3 decides that the result is the documented formula
for all arguments; a model is made concrete by running the real function at and around it and comparing with the formula
evaluated with many digits.
"""
import json
import math
import os
import subprocess
import tempfile
from fractions import Fraction
import z3
import dist
import ssa
import vrec
from dist import F, band, rv
from engine import Stats
from ssa import IV, Unsupported

RADIUS = 6371000
BIG = Fraction(10) ** 60
PI = Fraction(314159265358979323846264338327950288, 10 ** 35)


def snap(f):
    f = Fraction(f)
    if f == 0 or f.denominator <= 1 << 12 and abs(f.numerator) < 10 ** 10:
        return f
    k = 11 - math.floor(math.log10(abs(f)))
    s = Fraction(10) ** k
    return Fraction(round(f * s)) / s


def snapped(z, memo=None):
    """the term with its constants snapped"""
    memo = {} if memo is None else memo
    i = z.get_id()
    if i in memo:
        return memo[i]
    if z3.is_rational_value(z):
        r = rv(snap(z.as_fraction()))
    elif z.num_args():
        a = [snapped(c, memo) for c in z.children()]
        r = z.decl()(*a)
    else:
        r = z
    memo[i] = r
    return r


def canon(z):
    z = z3.simplify(z, som=True, pull_cheap_ite=False)
    return z3.simplify(snapped(z), som=True)


class Exact(dist.Ops):
    ints = True             # integers convert to floats

    def round(self, m, z, lo, hi, nan):
        z = z3.simplify(z)
        if z3.is_rational_value(z):
            c = z.as_fraction()
            return F(rv(c), c, c, nan)
        return F(z, max(lo, -BIG), min(hi, BIG), nan)

    def uf(self, m, name, args):
        return super().uf(m, name, [canon(a) for a in args])

    def bilinear(self, m, name, x, y, lo, hi, nan):
        if name == "mul":
            return self.round(m, x.z * y.z, lo, hi, nan)
        return self.round(m, x.z / y.z, -BIG, BIG, nan)

    def conv(self, m, v, n):
        if n != 64:
            raise Unsupported("conversion to float%d" % n)
        if isinstance(v, IV):
            return F(z3.ToReal(v.z), v.lo, v.hi)
        return v

    def call(self, m, n, a):
        x = self.f(a[0])
        if n == "math.Pow":
            k = self.const(self.f(a[1]))
            if k is not None and k.denominator == 1 and 1 <= k <= 8:
                z = x.z
                for _ in range(int(k) - 1):
                    z = z * x.z
                c = [x.lo ** int(k), x.hi ** int(k)]
                return self.round(m, z, min(c + [0]), max(c), x.nan)
        if n == "math.Sqrt":
            t, new = self.uf(m, "sqrt", [x.z])
            if new:
                p = canon(x.z)
                m.s.add(t >= 0, z3.Implies(p >= 0, t * t == p), z3.Implies(p <= 0, t == 0))
                self.inst["sqrt"].append(([p], t))
            return F(t, 0, max(x.hi, 1), band(x.nan, x.z < 0))
        if n == "math.Asin":
            c = self.call(m, "math.Sqrt", [F(1 - x.z * x.z, 0, 1, x.nan)])
            return self.call(m, "math.Atan2", [x, c])
        if n == "math.Atan2":
            y = self.f(a[1])
            t, new = self.uf(m, "atan2", [x.z, y.z])
            if new:
                self.inst["atan2"].append(([canon(x.z), canon(y.z)], t))
            return F(t, -4, 4, band(x.nan, y.nan))
        if n in ("math.Sin", "math.Cos"):
            t, new = self.uf(m, n[5:].lower(), [x.z])
            if new:
                z = canon(x.z)
                for (b,), u in self.inst[n[5:].lower()]:
                    m.s.add(z3.Implies(b == -z, u == (-t if n == "math.Sin" else t)))
                m.s.add(t >= -1, t <= 1)
                if n == "math.Cos" and max(abs(x.lo), abs(x.hi)) <= Fraction(1571, 1000):
                    m.s.add(t >= 0)
                self.inst[n[5:].lower()].append(([z], t))
            return F(t, -1, 1, x.nan)
        return super().call(m, n, a)


def reference(m, p, q):
    """2 R atan2(sqrt a, sqrt(1 - a)), a = sin^2(dlat/2) + cos lat1 cos lat2 sin^2(dlon/2); -> distance, a"""
    o = m.fops
    r = PI / 180
    rad = lambda z: F(z * rv(r), -10, 10)
    sl = o.call(m, "math.Sin", [rad((q[0].z - p[0].z) / 2)]).z
    sn = o.call(m, "math.Sin", [rad((q[1].z - p[1].z) / 2)]).z
    c1 = o.call(m, "math.Cos", [rad(p[0].z)]).z
    c2 = o.call(m, "math.Cos", [rad(q[0].z)]).z
    a = sl * sl + c1 * c2 * sn * sn
    s = o.call(m, "math.Sqrt", [F(a, 0, 1)])
    c = o.call(m, "math.Sqrt", [F(1 - a, 0, 1)])
    t = o.call(m, "math.Atan2", [s, c])
    return 2 * RADIUS * t.z, canon(a)


def explore_distance(prog, full, stats, budget):
    def body(m):
        m.fops = Exact()
        p, q = dist.position(m, 1), dist.position(m, 2)
        ref, a = reference(m, p, q)
        m.s.add(a >= 0, a <= 1)
        d = m.fops.f(m.call(full, p + q))
        m.stats.queries += 1
        bad = z3.Or(d.nan, canon(d.z) != canon(ref))
        bad = z3.simplify(bad)
        if z3.is_false(bad):
            return ("ok", "")
        m.s.push()
        m.s.add(bad)
        m.s.set("timeout", 30000)
        r = m.check()
        out = ("ok", "")
        if r == z3.unknown:
            out = ("unknown", [])
        elif r == z3.sat:
            mod = m.s.model()
            out = ("cex", [frac(mod.eval(x.z, model_completion=True)) for x in p + q])
        m.s.pop()
        return out
    return ssa.explore(prog, body, timeout=30000, stats=stats, budget=budget)


def frac(v):
    try:
        return float(v.as_fraction())
    except AttributeError:
        return float(v.approx(20).as_fraction())


def explore_scale(prog, full, k, integer, stats, budget):
    def body(m):
        m.fops = Exact()
        if integer:
            z = z3.Int("n")
            lim = 1 << 53
            m.s.add(z >= -lim, z <= lim)
            arg, x = IV(z, -lim, lim), z3.ToReal(z)
        else:
            x = z = z3.Real("x")
            lim = 10 ** 6
            m.s.add(x >= -lim, x <= lim)
            arg = F(x, -lim, lim)
        d = m.fops.f(m.call(full, [arg]))
        e = x * rv(k)
        tol = z3.If(e >= 0, e, -e) * rv(Fraction(1, 10 ** 12))
        m.s.push()
        m.s.add(z3.Or(d.nan, d.z > e + tol, d.z < e - tol))
        r = m.check()
        out = ("ok", "")
        if r == z3.unknown:
            out = ("unknown", [])
        elif r == z3.sat:
            mod = m.s.model()
            v = mod.eval(z, model_completion=True)
            out = ("cex", [v.as_long() if integer else frac(v)])
        m.s.pop()
        return out
    return ssa.explore(prog, body, timeout=20000, stats=stats, budget=budget)


GO = """package %s

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
)

func TestZzVerif(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	var in [][]float64
	if err := json.Unmarshal(b, &in); err != nil {
		t.Fatal(err)
	}
	for _, p := range in {
		fmt.Printf("VERIF %%x\\n", %s)
	}
}
"""


def real(pkg, pname, call, points):
    d = tempfile.mkdtemp(prefix="verif_u04_")
    try:
        src, ov, inp = os.path.join(d, "t.go"), os.path.join(d, "o.json"), os.path.join(d, "in.json")
        open(src, "w").write(GO % (pname, call))
        json.dump(dict(Replace={os.path.join(vrec.REPO, pkg, "zz_verif_test.go"): src}), open(ov, "w"))
        json.dump(points, open(inp, "w"))
        e = dict(vrec.goenv(), VERIF_IN=inp)
        r = subprocess.run(["go", "test", "-overlay", ov, "-run", "TestZzVerif", "-count=1", "-v", "-vet=off", "./" + pkg], cwd=vrec.REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out = [l.split()[1] for l in r.stdout.decode(errors="replace").splitlines() if l.startswith("VERIF ")]
        if len(out) != len(points):
            raise vrec.BuildError(r.stdout.decode(errors="replace")[-2000:])
        return [float("nan") if "NaN" in x else float(x.replace("+Inf", "inf").replace("-Inf", "-inf")) if "Inf" in x else float.fromhex(x) for x in out]
    finally:
        for f in ("t.go", "o.json", "in.json"):
            try:
                os.remove(os.path.join(d, f))
            except OSError:
                pass
        os.rmdir(d)


def haversine(p):
    import mpmath
    mp = mpmath.mp
    mp.dps = 40
    r = [mp.mpf(x) * mp.pi / 180 for x in p]
    a = mp.sin((r[2] - r[0]) / 2) ** 2 + mp.cos(r[0]) * mp.cos(r[2]) * mp.sin((r[3] - r[1]) / 2) ** 2
    a = min(a, mp.mpf(1))
    return float(2 * RADIUS * mp.atan2(mp.sqrt(a), mp.sqrt(1 - a)))


def wrong(p, d):
    e = haversine(p)
    tol = 1e-6 + 1e-9 * e + (1 if e > math.pi * RADIUS - 1000 else 0)
    if d == d and abs(d - e) <= tol:
        return None
    return "the distance from %s to %s is %r, the haversine formula gives %r" % (p[:2], p[2:], d, e)


SCALES = (("RadiansToDegrees", "util", 180 / PI, False, "degrees of x radians"),
          ("ScaledIntToFloat64", "util", Fraction(1, 10 ** 9), True, "x scaled down by 1e9"),
          ("degreesToRadians", "proximity", PI / 180, False, "radians of x degrees"))


def u04(ck, run):
    prog = ssa.program(("./proximity", "./util"))
    st = Stats()
    c = run.cov
    c["functions_encoded"] = []

    def book(r, what):
        c["leaves_discharged"] += sum(1 for x in r["results"] if x[0] == "ok")
        c["infeasible_paths"] += r["infeasible"]
        c["functions_encoded"] = sorted(set(c["functions_encoded"]) | r["called"])
        good = not r["unsupported"] and not r["pending"] and bool(r["paths"])
        for u in sorted(set(r["unsupported"]))[:2]:
            run.undecided("%s: not encoded: %s" % (what, u))
        if r["pending"] or not r["paths"]:
            run.undecided("%s: %s" % (what, "paths left over" if r["pending"] else "no path"))
        return good

    c["obligations"] += 1
    names = [n for n in ("OldHaversine", "Haversine") if prog.find("proximity", n) or prog.find("main", n)]
    if not names:
        run.undecided("OldHaversine is not in the repository any more")
    else:
        name = names[0]
        full = prog.find("proximity", name) or prog.find("main", name)
        r = explore_distance(prog, full, st, max(20, run.left() / 3))
        good = book(r, name)
        if any(x[0] in ("cex", "unknown") for x in r["results"]):
            good = False
            pts = dist.around([x[1] for x in r["results"] if x[0] == "cex"], "value")
            out = real("proximity", "main", "%s(p[0], p[1], p[2], p[3])" % name, pts)
            bad = [(p, d) for p, d in zip(pts, out) if wrong(p, d)]
            if bad:
                p, d = min(bad, key=lambda b: sum(x != int(x) for x in b[0]))
                run.violation("%s: %s (%d of %d positions tried around the solver's models)" % (name, wrong(p, d), len(bad), len(pts)),
                              dict(kind="haversine", function=name, positions=p, result=d if d == d else "NaN", why=wrong(p, d)), key="value:%s" % p)
            else:
                run.undecided("%s: not decided to be the formula, and the real function shows no difference at and around the models" % name)
        if good:
            c["obligations_closed"] += 1
    for name, pkg, k, integer, what in SCALES:
        full = prog.find(pkg, name) or prog.find("main", name) if pkg == "proximity" else prog.find(pkg, name)
        if not full:
            if name[0].isupper():
                c["obligations"] += 1
                run.undecided("%s is not in the repository any more" % name)
            continue            # a helper of the distance, decided above
        c["obligations"] += 1
        r = explore_scale(prog, full, k, integer, st, max(20, run.left() / 4))
        good = book(r, name)
        if any(x[0] in ("cex", "unknown") for x in r["results"]):
            good = False
            xs = [x[1][0] for x in r["results"] if x[0] == "cex"]
            pts = [[x] for v in xs for x in ((v, v + 1, v - 1, -v) if integer else (v, -v, v / 2, v * 0.999, 1.0, 90.0))]
            out = real(pkg, "main" if pkg == "proximity" else pkg, "%s(%s)" % (name, "int(p[0])" if integer else "p[0]"), pts)
            bad = [(p[0], d) for p, d in zip(pts, out) if not (d == d and abs(Fraction(d) - Fraction(p[0]) * k) <= abs(Fraction(p[0]) * k) / 10 ** 12)]
            if bad:
                x, d = bad[0]
                why = "%s(%r) is %r, %s are %r" % (name, x, d, what.replace("x ", "%r " % x), float(Fraction(x) * k))
                run.violation(why, dict(kind="scale", function=name, argument=x, result=d if d == d else "NaN", why=why), key="%s:%s" % (name, x))
            else:
                run.undecided("%s: solver model %s that the real function does not show" % (name, xs[:1]))
        if good:
            c["obligations_closed"] += 1
    ck.account(run, st)
