"""The nearest vertex (U06) and local hexagon coordinates (U05): the Go functions with the answers of
H3, of its command line tools and of the distance library as unknowns.

Floats are exact reals here: the numbers compared are distances, of which only the order matters.
z3 decides on every path that the right answer comes out; models are replayed on the real program
with stand-in tools, or on the real function.
"""
import json
import math
import os
import random
import re
import subprocess
import tempfile
from fractions import Fraction
import z3
import ssa
import conv
import vrec
from engine import Stats
from ssa import FV, IV, Slice, Struct, Iface, Unsupported, iz, symbytes
from text import World, Text, Num, Obj

R = z3.RealSort()
HAV = "github.com/LucaTheHacker/go-haversine."
H3 = "github.com/uber/h3-go/v4."
VERIFIER, PROVER, RES = (40.689167, 72.044444), (40.689167, 74.044444), 4


def rv(x):
    x = Fraction(x)
    return z3.RealVal("%d/%d" % (x.numerator, x.denominator))


class Re(FV):
    """a real"""

    def __init__(self, z):
        self.z = z


class Reals:
    ints = False

    def f(self, v):
        if isinstance(v, Re):
            return v.z
        if isinstance(v, Num):
            return z3.ToReal(iz(v.n)) / z3.RealVal(10 ** v.k)
        if isinstance(v, float) and abs(v) == math.inf:
            return rv(10 ** 400 if v > 0 else -10 ** 400)
        if isinstance(v, (int, float)) and v == v and abs(v) != math.inf:
            return rv(v)
        raise Unsupported("float %r" % (v,))

    def __init__(self):
        self.less = []          # (a, b, strictly) decided on this path

    def reach(self, a, b):
        """what the decisions say of a and b: 2 a < b, 1 a <= b, 0 nothing"""
        best = {a.get_id(): 1}
        todo = [a]
        while todo:
            x = todo.pop()
            for p, q, st in self.less:
                if p.eq(x):
                    v = max(best[x.get_id()], 2 if st else 1)
                    if best.get(q.get_id(), 0) < v:
                        best[q.get_id()] = v
                        todo.append(q)
        return best.get(b.get_id(), 0)

    def known(self, a, b, strict):
        if a.eq(b):
            return not strict
        r, q = self.reach(a, b), self.reach(b, a)
        if r == 2 or r and not strict:
            return True
        if q == 2 or q and strict:
            return False
        return None

    def conv(self, m, v, n):
        if n != 64:
            raise Unsupported("conversion to float%d" % n)
        return v

    def binop(self, m, o, x, y):
        a, b = self.f(x), self.f(y)
        if o in ("<", ">", "<=", ">="):
            if o in (">", ">="):
                a, b = b, a
            r = self.known(a, b, len(o) == 1)
            if r is None:
                r = m.branch(a < b if len(o) == 1 else a <= b)
                self.less.append((a, b, len(o) == 1) if r else (b, a, len(o) == 2))
            return r
        if o in ("==", "!="):
            return z3.simplify({"==": a == b, "!=": a != b}[o])
        if o == "+":
            return Re(a + b)
        if o == "-":
            return Re(a - b)
        if o == "*" and (isinstance(x, (int, float)) or isinstance(y, (int, float))):
            return Re(a * b)
        if o == "/" and isinstance(y, (int, float)) and y:
            return Re(a / b)
        raise Unsupported("operator %s" % o)

    def neg(self, x):
        return Re(-self.f(x))

    def call(self, m, n, a):
        if n in ("math.Min", "math.Max"):
            less = self.binop(m, "<=", a[0], a[1])
            return a[0] if less == (n == "math.Min") else a[1]
        if n in ("math.IsNaN", "math.IsInf"):
            return False
        if n == "math.Abs":
            x = self.f(a[0])
            return Re(z3.If(x >= 0, x, -x))
        raise Unsupported("call of %s" % n)


DIST = z3.Function("distance", R, R, R, R, R)


class Tools(World):
    """the tools print one text each"""

    def __init__(self, m, outs, initpkg):
        self.outs = outs
        World.__init__(self, m, "", False, initpkg)
        m.fops = Reals()
        self.printed, self.dists = [], []
        h = m.hooks
        h["fmt.Printf"] = lambda mm, a: self.out_(a[1])
        h["fmt.Println"] = h["fmt.Print"] = lambda mm, a: self.out_(a[0])
        h["fmt.Fprintf"] = lambda mm, a: self.out_(a[2])
        h["fmt.Fprintln"] = lambda mm, a: self.out_(a[1])
        h["math.Inf"] = lambda mm, a: math.inf if a[0] >= 0 else -math.inf
        pf, seen = h["strconv.ParseFloat"], {}

        def parsefloat(mm, a):
            b = symbytes(a[0])
            k = tuple(x if isinstance(x, int) else id(x) for x in b) + (a[1],)
            if k not in seen:
                seen[k] = (pf(mm, a), b)
            return seen[k][0]
        h["strconv.ParseFloat"] = parsefloat
        # what is printed may be formatted first
        spr = h["fmt.Sprintf"]

        def sprintf(mm, a):
            if any(isinstance(x.v if isinstance(x, Iface) else x, (Re, Num, Obj)) for x in (a[1].items() if a[1] is not None else [])):
                self.out_(a[1])
                return "text"
            xs = [x.v if isinstance(x, Iface) else x for x in (a[1].items() if a[1] is not None else [])]
            if isinstance(a[0], str) and xs and all(type(x) in (int, float, str) for x in xs) and any(type(x) is float for x in xs):
                if re.sub(r"%(\.\d+)?f|%[sd]", "", a[0]).count("%"):
                    raise Unsupported("format %s" % a[0])
                return a[0] % tuple(xs)
            return spr(mm, a)
        h["fmt.Sprintf"] = sprintf
        h["strconv.FormatFloat"] = lambda mm, a: ("%%.%d%s" % (a[2] if a[2] >= 0 else 17, chr(a[1]))) % a[0] if type(a[0]) is float else "text"
        h["time.Now"] = lambda mm, a: Obj("time")
        h["time.Since"] = lambda mm, a: mm.fresh("t", 0, 1 << 40)
        h["(time.Time).Sub"] = lambda mm, a: mm.fresh("t", 0, 1 << 40)
        for n in ("Seconds", "String", "Milliseconds", "Microseconds", "Minutes"):
            h["(time.Duration)." + n] = lambda mm, a: Obj("duration")
        h[HAV + "Distance"] = self.distance
        h[HAV + "NewCoordinates"] = lambda mm, a: Struct([a[0], a[1]])
        h["(" + HAV + "DistanceStruct).Kilometers"] = lambda mm, a: Re(mm.fops.f(a[0][0]) * 6371)
        h["(" + HAV + "DistanceStruct).Meters"] = lambda mm, a: Re(mm.fops.f(a[0][0]) * 6371000)
        h["(" + HAV + "DistanceStruct).Miles"] = lambda mm, a: Re(mm.fops.f(a[0][0]) * 3958)

    def distance(self, m, a):
        f = m.fops.f
        k = tuple(z3.simplify(f(x)) for x in (a[0][0], a[0][1], a[1][0], a[1][1]))
        t = DIST(*k)
        if not any(t.eq(u) for u in self.dists):
            m.s.add(t >= 0, t <= 4)
            # the same both ways
            m.s.add(t == DIST(k[2], k[3], k[0], k[1]))
            self.dists.append(t)
        return Struct([Re(t)])

    def out_(self, xs):
        for x in xs.items() if xs is not None else []:
            x = x.v if isinstance(x, Iface) else x
            if isinstance(x, (Re, float)):
                self.printed.append(x)

    def command(self, m, a):
        World.command(self, m, a)
        return Obj("cmd", path=a[0])

    def run(self, m, a):
        p = a[0].path if isinstance(a[0], Obj) else None
        t = self.outs.get(os.path.basename(p)) if isinstance(p, str) else None
        if t is None:
            raise Unsupported("command %r" % (p,))
        b = list(symbytes(t))
        return (Slice(b, 0, len(b), len(b)), None)


def near_body(full, shape):
    def go(m):
        x, want = Text(m), []
        x.lit("{\n")
        for i, j in shape:
            x.lit("   ")
            p = x.number(0, i, 10)
            x.lit(" ")
            q = x.number(0, j, 10)
            x.lit("\n")
            want.append((p, q))
        x.lit("}\n")
        index = [m.fresh("i", 97, 102) if k % 4 == 3 else m.fresh("i", 48, 57) for k in range(15)]
        ti = Text(m)
        ti.lit("I: 1, J: 0, K: 2\n--- ")
        ti.b += index
        ti.lit("\n")
        w = Tools(m, dict(latLngToCell=ti.get(), cellToBoundary=x.get()), full.rsplit(".", 1)[0])
        q = conv.Query(m, list(x.b) + index)

        def run():
            m.call(full, [])
            # the commands
            alts = []
            for path, args in w.cmds:
                seen = dict(zip([a for a in args[::2]], args[1::2])) if all(isinstance(a, str) for a in args[::2]) else None
                if seen is None:
                    raise Unsupported("an unknown option")
                if os.path.basename(path) == "cellToBoundary":
                    g = seen.get("--index")
                    s = symbytes(g) if g is not None else ()
                    if len(s) != len(index):
                        return q.ask("another index", z3.BoolVal(True), None)
                    alts += [iz(a) != iz(b) for a, b in zip(s, index) if a is not b]
                else:
                    try:
                        pos = [float(seen.get("--latitude")), float(seen.get("--longitude")), int(seen.get("--resolution"))]
                    except (TypeError, ValueError):
                        raise Unsupported("the position asked for")
                    if pos != [PROVER[0], PROVER[1], RES]:
                        return q.ask("another position", z3.BoolVal(True), None)
            if not w.printed:
                return q.ask("nothing printed", z3.BoolVal(True), None)
            got = m.fops.f(w.printed[-1])
            real = lambda n: z3.ToReal(n[0]) / z3.RealVal(10 ** n[1])
            ds = []
            for p, r in want:
                t = DIST(rv(VERIFIER[0]), rv(VERIFIER[1]), real(p), real(r))
                k = z3.simplify(t)
                if not any(k.eq(u) for u in w.dists):
                    m.s.add(k >= 0, k <= 4, k == DIST(*[z3.simplify(c) for c in (real(p), real(r), rv(VERIFIER[0]), rv(VERIFIER[1]))]))
                ds.append(k * 6371)
            alts += [got > d for d in ds] + [z3.And(*[got != d for d in ds])]
            return q.ask("another distance", z3.Or(alts), None)
        return conv.guarded(m, q.args, run)
    return go


def hav(a, b):
    p, l, q, k = [math.radians(v) for v in (a[0], a[1], b[0], b[1])]
    h = math.sin((q - p) / 2) ** 2 + math.cos(p) * math.cos(q) * math.sin((k - l) / 2) ** 2
    return 6371 * 2 * math.atan2(math.sqrt(h), math.sqrt(1 - h))


def run_main(texts):
    """the real program with stand-in tools -> list of what it prints"""
    d = tempfile.mkdtemp(prefix="verif_u06_")
    try:
        e = vrec.goenv()
        b = subprocess.run(["go", "build", "-o", os.path.join(d, "prog"), "./proximity"], cwd=vrec.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if b.returncode:
            raise vrec.BuildError(b.stdout.decode(errors="replace")[-2000:])
        wd, tools = os.path.join(d, "x"), os.path.join(d, "h3-master", "build", "bin")
        os.makedirs(wd)
        os.makedirs(tools)
        out = []
        for index, text in texts:
            for n, t in (("latLngToCell", "I: 1, J: 0, K: 2\n--- %s\n" % index), ("cellToBoundary", text)):
                open(os.path.join(d, n + ".txt"), "w").write(t)
                p = os.path.join(tools, n)
                open(p, "w").write("#!/bin/sh\nfor a in \"$@\"; do echo \"$a\"; done > %s/%s.args\ncat %s/%s.txt\n" % (d, n, d, n))
                os.chmod(p, 0o755)
            r = subprocess.run([os.path.join(d, "prog")], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            args = {}
            for n in ("latLngToCell", "cellToBoundary"):
                p = os.path.join(d, n + ".args")
                args[n] = open(p).read().split("\n")[:-1] if os.path.exists(p) else None
            out.append((r.stdout.decode(errors="replace"), args))
        return out
    finally:
        subprocess.run(["rm", "-rf", d])


def judge_main(index, text, got):
    s, args = got
    b = dict(zip((args["cellToBoundary"] or [])[::2], (args["cellToBoundary"] or [])[1::2]))
    if b.get("--index") != index:
        return "the boundary of %r is asked for instead of %r" % (b.get("--index"), index)
    c = dict(zip((args["latLngToCell"] or [])[::2], (args["latLngToCell"] or [])[1::2]))
    try:
        if (float(c["--latitude"]), float(c["--longitude"]), int(c["--resolution"])) != PROVER + (RES,):
            return "the cell of another position is asked for: %s" % c
    except (KeyError, ValueError):
        return "the cell is asked for with %s" % args["latLngToCell"]
    pts = [tuple(map(float, l.split())) for l in text.split("\n") if "." in l]
    want = min(hav(VERIFIER, p) for p in pts)
    nums = re.findall(r"[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?", s.strip().split("\n")[-1])
    if not nums or abs(float(nums[-1]) - want) > 0.0051 + 1e-9 * want:
        return "for the boundary %s the nearest vertex is %.4f km away, but the program says %r" % (pts, want, s.strip().split("\n")[-1])
    return None


def confirm_main(shape, cex):
    n = 15
    a = bytes(cex["args"]).decode("latin-1")
    text, index = a[:-n], a[-n:]
    rng = random.Random(3)
    # the distances of the model are free: any vertex may be the nearest one
    texts = [(index, text)]
    k = len(shape)
    for i in range(k):
        for _ in range(2):
            pts = [(VERIFIER[0] + rng.uniform(-5, 5), VERIFIER[1] + rng.uniform(-5, 5)) for _ in range(k)]
            pts[i] = (VERIFIER[0] + rng.uniform(-.01, .01), VERIFIER[1] + rng.uniform(-.01, .01))
            texts.append(("%015x" % rng.getrandbits(60), "{\n" + "".join("   %.10f %.10f\n" % p for p in pts) + "}\n"))
    for up in (1, -1):
        for axis in (0, 1):
            pts = []
            for j in range(k):
                p = list(VERIFIER)
                p[axis] += (j + 1 if up > 0 else k - j) * 0.37
                pts.append(tuple(p))
            texts.append(("842a107ffffffff", "{\n" + "".join("   %.10f %.10f\n" % p for p in pts) + "}\n"))
    for (ix, t), got in zip(texts, run_main(texts)):
        if not re.fullmatch(r"\w+", ix):
            continue
        why = judge_main(ix, t, got)
        if why:
            return why, dict(function="main", index=ix, boundary=t, output=got[0][-300:])
    return None


def u06(ck, run):
    prog = ssa.program(("./proximity",))
    st = Stats()
    c = run.cov
    c["functions_encoded"] = []
    full = prog.find("proximity", "main") or prog.find("main", "main")
    if full is None:
        c["obligations"] += 1
        run.undecided("main is not in the repository any more")
        return
    shapes = [[(2, 2)] * n for n in ((5, 6) if ck.TIER == "quick" else (5, 6, 7, 8))]
    for sh in shapes:
        name = "nearest of %d vertices" % len(sh)
        if run.left() < 15:
            run.undecided("%s: out of time" % name)
            continue
        c["obligations"] += 1
        r = ssa.explore(prog, near_body(full, sh), timeout=20000, stats=st, budget=max(20, run.left() / 3), maxpaths=20000)
        ck_outcome(run, r, name, lambda cex: confirm_main(sh, cex), "boundary")
        if run.violations:
            break
    ck.account(run, st)


def ck_outcome(run, r, name, confirm, kind):
    c = run.cov
    c["leaves_discharged"] += sum(1 for x in r["results"] if x[0] == "ok")
    c["infeasible_paths"] += r["infeasible"]
    c["functions_encoded"] = sorted(set(c["functions_encoded"]) | set(r["called"]))
    good = not r["unsupported"] and not r["pending"] and r["paths"]
    for u in sorted(set(r["unsupported"]))[:2]:
        run.undecided("%s: not encoded: %s" % (name, u))
    if r["pending"]:
        run.undecided("%s: paths left over" % name)
    if not r["paths"]:
        run.undecided("%s: no path (vacuous)" % name)
    for x in r["results"]:
        if x[0] == "ok":
            continue
        good = False
        if x[0] != "cex":
            run.undecided("%s: no answer from the solver" % name)
            continue
        bad = confirm(x[1])
        if bad:
            run.violation("%s: %s" % (name, bad[0]), dict(bad[1], kind=kind, why=bad[0]), key="%s:%s" % (kind, name))
        else:
            run.undecided("%s: solver model that the real program does not show (%s)" % (name, x[1].get("what", "")))
        break
    if good:
        c["obligations_closed"] += 1


# ---------------------------------------------------------------- local coordinates

CELL = z3.Function("cell", R, R, z3.IntSort(), z3.IntSort())
RESOL = z3.Function("resolution", z3.IntSort(), z3.IntSort())
LI, LJ = (z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort()) for n in ("localI", "localJ"))


def ij_body(full):
    def go(m):
        m.fops = Reals()
        la, ln = z3.Real("lat"), z3.Real("lng")
        m.s.add(la >= -90, la <= 90, ln >= -180, ln <= 180)
        lat, lng = Re(la), Re(ln)
        res, org = m.fresh("res", 0, 15), m.fresh("origin", 1, (1 << 63) - 1)

        def cell(mm, p, r):
            t = CELL(mm.fops.f(p[0]), mm.fops.f(p[1]), iz(r))
            mm.s.add(t >= 1, t < 1 << 63, RESOL(t) == iz(r))
            return IV(t, 1, (1 << 63) - 1)

        def local(mm, o, c):
            out = []
            for f in (LI, LJ):
                t = f(iz(o), iz(c))
                mm.s.add(t >= -(1 << 31), t < 1 << 31)
                out.append(IV(t, -(1 << 31), (1 << 31) - 1))
            return Struct(out)
        h = m.hooks
        # what else H3 may be asked about a cell
        C = "(" + H3 + "Cell)."
        I = z3.IntSort()
        for n in ("IsPentagon", "IsValid", "IsResClassIII"):
            h[C + n] = (lambda f: lambda mm, a: f(iz(a[0])))(z3.Function(n, I, z3.BoolSort()))

        def resolution(mm, a):
            t = RESOL(iz(a[0]))
            mm.s.add(t >= 0, t <= 15)
            return IV(t, 0, 15)
        h[C + "Resolution"] = resolution

        def other(f):
            def g(mm, a):
                t = f(*[iz(x) for x in a])
                mm.s.add(t >= 1, t < 1 << 63)
                return IV(t, 1, (1 << 63) - 1)
            return g
        for n in ("Parent", "CenterChild"):
            h[C + n] = other(z3.Function(n, I, I, I))
        for n in ("ImmediateParent",):
            h[C + n] = other(z3.Function(n, I, I))
        h[H3 + "NewLatLng"] = lambda mm, a: Struct([a[0], a[1]])
        h[H3 + "LatLngToCell"] = lambda mm, a: cell(mm, a[0], a[1])
        h["(" + H3 + "LatLng).Cell"] = lambda mm, a: cell(mm, a[0], a[1])
        h[H3 + "CellToLocalIJ"] = lambda mm, a: local(mm, a[0], a[1])
        q = conv.Query(m, [res, org])

        def run():
            i, j = m.call(full, [lat, lng, res, org])
            c = CELL(la, ln, iz(res))
            alts = [iz(i) != LI(iz(org), c), iz(j) != LJ(iz(org), c)]
            return q.ask("other coordinates", z3.Or(alts), None)
        return conv.guarded(m, q.args, run)
    return go


GO = """package util

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/uber/h3-go/v4"
)

func TestZzVerif(t *testing.T) {
	r := rand.New(rand.NewSource(5))
	for n := 0; n < 4000; n++ {
		lat, lng := r.Float64()*170-85, r.Float64()*360-180
		res := r.Intn(16)
		o := h3.NewLatLng(lat+r.Float64()*1e-3, lng+r.Float64()*1e-3)
		ores := res
		if n%8 == 7 {
			ores = r.Intn(16)
		}
		if n%16 == 3 {
			// at a pentagon
			c := h3.Pentagons(res)[r.Intn(12)]
			o = c.LatLng()
			lat, lng = o.Lat, o.Lng
			if r.Intn(2) == 0 {
				lat += r.Float64() * 1e-3
			}
		}
		origin := h3.LatLngToCell(o, ores)
		if n%16 == 3 {
			if d := origin.GridDisk(1); len(d) > 0 {
				origin = d[r.Intn(len(d))]
			}
		}
		want := h3.CellToLocalIJ(origin, h3.LatLngToCell(h3.NewLatLng(lat, lng), res))
		i, j := LatLngToIJ(lat, lng, res, origin)
		if i != want.I || j != want.J {
			fmt.Printf("VERIF %v %v %d %d: (%d, %d) instead of (%d, %d)\\n", lat, lng, res, int64(origin), i, j, want.I, want.J)
		}
	}
	fmt.Println("VERIF done")
}
"""


def confirm_ij(cex):
    d = tempfile.mkdtemp(prefix="verif_u05_")
    try:
        src, ov = os.path.join(d, "t.go"), os.path.join(d, "o.json")
        open(src, "w").write(GO)
        json.dump(dict(Replace={os.path.join(vrec.REPO, "util", "zz_verif_test.go"): src}), open(ov, "w"))
        r = subprocess.run(["go", "test", "-overlay", ov, "-run", "TestZzVerif", "-count=1", "-v", "-vet=off", "./util"], cwd=vrec.REPO, env=vrec.goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        s = r.stdout.decode(errors="replace")
        ls = [l[6:] for l in s.splitlines() if l.startswith("VERIF ")]
        if not ls:
            if "panic" in s:
                return "LatLngToIJ panics", dict(function="LatLngToIJ", output=s[-500:])
            raise vrec.BuildError(s[-2000:])
        bad = [l for l in ls if l != "done"]
        if bad:
            return "LatLngToIJ at (latitude, longitude, resolution, origin) %s" % bad[0], dict(function="LatLngToIJ", case=bad[0])
        return None
    finally:
        subprocess.run(["rm", "-rf", d])


def u05(ck, run):
    prog = ssa.program(("./util",))
    st = Stats()
    c = run.cov
    c["functions_encoded"] = []
    c["obligations"] += 1
    full = prog.find("util", "LatLngToIJ")
    if full is None:
        run.undecided("LatLngToIJ is not in the repository any more")
        return
    r = ssa.explore(prog, ij_body(full), timeout=20000, stats=st, budget=60)
    ck_outcome(run, r, "local coordinates", confirm_ij, "local")
    ck.account(run, st)
