"""Functions of the location packages against H3's algorithms (L01-L05)."""
import math
import re
from fractions import Fraction
import mpmath
import z3
import fl
import ssa
from fl import FL, Task, ite, I, vz
from mathfn import num, run_body, w
from ref import F32, F64
from ssa import Struct, Array, Unsupported

mpmath.mp.prec = 200

# H3 (h3_faceijk.c, h3_constants.h)
GEO = """0.803582649718989942 1.248397419617396099  1.307747883455638156 2.536945009877921159  1.054751253523952054 -1.347517358900396623
0.600191595538186799 -0.450603909469755746  0.491715428198773866 0.401988202911306943  0.172745327415618701 1.678146885280433686
0.605929321571350690 2.953923329812411617  0.427370518328979641 -1.888876200336285401  -0.079066118549212831 -0.733429513380867741
-0.230961644455383637 0.506495587332349035  0.079066118549212831 2.408163140208925497  0.230961644455383637 -2.635097066257444203
-0.172745327415618701 -1.463445768309359553  -0.605929321571350690 -0.187669323777381622  -0.427370518328979641 1.252716453253507838
-0.600191595538186799 2.690988744120037492  -0.491715428198773866 -2.739604450678486295  -0.803582649718989942 -1.893195233972397139
-1.307747883455638156 -0.604647643711872080  -1.054751253523952054 1.794075294689396615""".split()
POINT = """0.2199307791404606 0.6583691780274996 0.7198475378926182  -0.2139234834501421 0.1478171829550703 0.9656017935214205
0.1092625278784797 -0.4811951572873210 0.8697775121287253  0.7428567301586791 -0.3593941678278028 0.5648005936517033
0.8112534709140969 0.3448953237639384 0.4721387736413930  -0.1055498149613921 0.9794457296411413 0.1718874610009365
-0.8075407579970092 0.1533552485898818 0.5695261994882688  -0.2846148069787907 -0.8644080972654206 0.4144792552473539
0.7405621473854482 -0.6673299564565524 -0.0789837646326737  0.8512303986474293 0.4722343788582681 -0.2289137388687808
-0.7405621473854481 0.6673299564565524 0.0789837646326737  -0.8512303986474292 -0.4722343788582682 0.2289137388687808
0.1055498149613919 -0.9794457296411413 -0.1718874610009365  0.8075407579970092 -0.1533552485898819 -0.5695261994882688
0.2846148069787908 0.8644080972654204 -0.4144792552473539  -0.7428567301586791 0.3593941678278027 -0.5648005936517033
-0.8112534709140971 -0.3448953237639382 -0.4721387736413930  -0.2199307791404607 -0.6583691780274996 -0.7198475378926182
0.2139234834501420 -0.1478171829550704 -0.9656017935214205  -0.1092625278784796 0.4811951572873210 -0.8697775121287253""".split()
AZ = """5.619958268523939882 5.760339081714187279 0.780213654393430055 0.430469363979999913 6.130269123335111400 2.692877706530642877
2.982963003477243874 3.532912002790141181 3.494305004259568154 3.003214169499538391 5.930472956509811562 0.138378484090254847
0.448714947059150361 0.158629650112549365 5.891865957979238535 2.711123289609793325 3.294508837434268316 3.804819692245439833
3.664438879055192436 2.361378999196363184""".split()
GEO = [(mpmath.mpf(GEO[2 * i]), mpmath.mpf(GEO[2 * i + 1])) for i in range(20)]
POINT = [[Fraction(x) for x in POINT[3 * i:3 * i + 3]] for i in range(20)]
AZ = [mpmath.mpf(x) for x in AZ]
ROT = mpmath.asin(mpmath.sqrt(mpmath.mpf(3) / 28))          # M_AP7_ROT_RADS
RES0 = Fraction("0.38196601125010500003")                  # RES0_U_GNOMONIC
SIN60 = Fraction("0.8660254037844386467637231707529361834714")


def frac(x):
    """exact value of an mpf"""
    x = mpmath.mpf(x)
    s, m, e, _ = x._mpf_
    return Fraction((-1) ** s * int(m)) * (Fraction(2) ** e)


def mp(fm, c):
    v = fm.value(c)
    return mpmath.mpf(v.numerator) / v.denominator


def pkg(fm):
    return "loc2index%d" % w(fm)


def tol(fm):
    """what the tables may differ from H3's by"""
    return Fraction(1, 1 << (fm.M - 4))


def bounds(fm, x):
    """smallest and largest float within the tolerance of x"""
    x, d = frac(x), tol(fm)
    return fm.round(x - d), fm.round(x + d)


def data(i):
    la, lo = GEO[i]
    return [mpmath.sin(la), mpmath.cos(la), mpmath.sin(lo), mpmath.cos(lo), mpmath.sin(AZ[i]), mpmath.cos(AZ[i]),
            mpmath.sin(AZ[i] - ROT), mpmath.cos(AZ[i] - ROT)]


def floats(wd, m, r):
    """an array of FloatVars"""
    r = list(r.items() if hasattr(r, "items") else r)
    return [("f", wd.fl(m, x)) for x in r]


def ints(wd, m, r):
    r = list(r.items() if hasattr(r, "items") else r)
    return [("v", vz(wd.val(m, x))) for x in r]


def cval(v):
    """fixed resolution as a constant"""
    return v.lo if v.lo == v.hi else v


# ---------------------------------------------------------------- L01

def face(fm):
    t = Task("closestFaceCalculations (binary%d)" % w(fm), fm, "l_face")
    t.inputs = [("x", "f"), ("y", "f"), ("z", "f")]

    def dists(th, T):
        r = []
        for i in range(20):
            s = []
            for a, n in enumerate("xyz"):
                d = th.sub(num(th, POINT[i][a]), T[n])
                s.append(th.mul(d, d))
            r.append(th.add(th.add(s[0], s[1]), s[2]))
        return r
    t.domain = lambda th, T: [th.finite(T[n]) for n in "xyz"] + [z3.Or([th.lt(d, num(th, 5)) for d in dists(th, T)])]
    t.body = run_body(pkg(fm), "closestFaceCalculations",
                      lambda wd, m, T: [wd.context(m)] + [wd.floatvar(T[n]) for n in "xyz"] + [wd.floatvar(T["x"])], floats)

    def spec(th, T):
        cur, best = num(th, 5), I(-1)
        for i, d in enumerate(dists(th, T)):
            c = th.lt(d, cur)
            cur, best = ite(c, d, cur), ite(c, I(i), best)
        r = [[cur]]
        for j in range(8):
            def bad(z, j=j):
                l = []
                for i in range(20):
                    lo, hi = (th.const(x) for x in bounds(fm, data(i)[j]))
                    l.append(z3.And(best == i, z3.Not(z3.And(th.le(lo, z), th.le(z, hi)))))
                return z3.Or(l)
            r.append(bad)
        return r
    t.spec = spec

    def judge(env, outs):
        pt = [env[n] for n in "xyz"]
        dd = []
        for i in range(20):
            s = [fm.sub(fm.round(POINT[i][a]), pt[a]) for a in range(3)]
            s = [fm.mul(x, x) for x in s]
            dd.append(fm.add(fm.add(s[0], s[1]), s[2]))
        val = [fm.value(d) if fm.cls(d) in ("zero", "fin") else None for d in dd]
        b = None
        for i in range(20):
            if val[i] is not None and val[i] < 5 and (b is None or val[i] < val[b]):
                b = i

        def member(i, slack):
            for j in range(8):
                if fm.cls(outs[1 + j]) not in ("zero", "fin") or abs(fm.value(outs[1 + j]) - frac(data(i)[j])) > slack * tol(fm):
                    return j
            return None
        if outs[0] == dd[b]:
            if member(b, 1) is None:
                return None
            return "the data of face %d are wrong or another face's" % b
        # the distance was computed differently: only what no rounding explains
        sc = 16 * tol(fm) * max([1] + [abs(fm.value(c)) ** 2 for c in pt])
        ex = [sum((POINT[i][a] - fm.value(pt[a])) ** 2 for a in range(3)) for i in range(20)]
        if fm.cls(outs[0]) not in ("zero", "fin") or abs(fm.value(outs[0]) - min(ex)) > sc:
            return "the distance is not that of the closest face %d" % b
        if not any(ex[i] <= min(ex) + sc and member(i, 4) is None for i in range(20)):
            return "the data are not those of the closest face %d" % b
        return None
    t.judge = judge

    def gen(t, rg):
        k = rg.random()
        i, j = rg.randrange(20), rg.randrange(20)
        if k < .08:
            p = [Fraction(0)] * 3
        elif k < .3:
            p = POINT[i]
        elif k < .6:
            p = [(POINT[i][a] + POINT[j][a]) / 2 for a in range(3)]
        else:
            a, b = mpmath.asin(rg.uniform(-1, 1)), rg.uniform(-math.pi, math.pi)
            p = [frac(mpmath.cos(a) * mpmath.cos(b)), frac(mpmath.cos(a) * mpmath.sin(b)), frac(mpmath.sin(a))]
        if rg.random() < .3:
            p = [x + Fraction(rg.randint(-3, 3), 1 << fm.M) for x in p]
        return {n: fm.round(x) if x else fm.zero(rg.randint(0, 1)) for n, x in zip("xyz", p)}
    t.gen = gen
    return t


# ---------------------------------------------------------------- L02

def ijk(fm):
    t = Task("hex2dToCoordIJK (binary%d)" % w(fm), fm, "l_ijk")
    t.inputs = [("x", "f"), ("y", "f")]
    lim = 23 if fm is F32 else 27
    t.domain = lambda th, T: [z3.And(th.finite(T[n]), FL.fE(T[n]) < lim) for n in "xy"]
    t.body = run_body(pkg(fm), "hex2dToCoordIJK", lambda wd, m, T: [wd.context(m), wd.floatvar(T["x"]), wd.floatvar(T["y"])], ints)

    def spec(th, T):
        x, y = T["x"], T["y"]
        n = lambda v: num(th, v)
        x2 = th.div(th.abs(y), n(SIN60))
        x1 = th.add(th.abs(x), th.div(x2, n(2)))
        f1, f2 = th.app("floor", x1), th.app("floor", x2)
        m1, m2 = th.app("toint", f1), th.app("toint", f2)
        r1, r2 = th.sub(x1, f1), th.sub(x2, f2)
        om = th.sub(n(1), r1)
        tw = th.add(r1, r1)
        lt, le, If = th.lt, th.le, z3.If
        third, two3 = n(Fraction(1, 3)), n(Fraction(2, 3))
        jm = If(lt(r2, om), m2, m2 + 1)
        i = If(lt(r1, n(Fraction(1, 2))),
               If(lt(r1, third), m1, If(z3.And(le(om, r2), lt(r2, tw)), m1 + 1, m1)),
               If(lt(r1, two3), If(z3.And(lt(th.sub(tw, n(1)), r2), lt(r2, om)), m1, m1 + 1), m1 + 1))
        j = If(lt(r1, n(Fraction(1, 2))),
               If(lt(r1, third), If(lt(r2, th.div(th.add(n(1), r1), n(2))), m2, m2 + 1), jm),
               If(lt(r1, two3), jm, If(lt(r2, th.div(r1, n(2))), m2, m2 + 1)))
        # fold across the axes: i - 2(i - j/2) for even j, i - (2(i - (j+1)/2) + 1) for odd j, which is j - i
        xneg = z3.And(FL.fS(x) == 1, FL.fM(x) != 0)
        yneg = z3.And(FL.fS(y) == 1, FL.fM(y) != 0)
        i = If(xneg, j - i, i)
        i, j = If(yneg, i - j, i), If(yneg, -j, j)
        mn = If(i < j, i, j)
        mn = If(mn < 0, mn, I(0))
        return [[i - mn], [j - mn], [-mn]]
    t.spec = spec

    def gen(t, rg):
        k = rg.random()
        if k < .5:
            # near a corner or edge of a hexagon
            a, b = rg.randint(0, 40), rg.randint(0, 40)
            r1 = rg.choice([Fraction(0), Fraction(1, 3), Fraction(1, 2), Fraction(2, 3), Fraction(rg.random())])
            r2 = rg.choice([Fraction(0), (1 + r1) / 2, 1 - r1, abs(2 * r1 - 1), r1 / 2, min(2 * r1, Fraction(1)), Fraction(rg.random())])
            y = (b + r2) * SIN60
            x = a + r1 - (b + r2) / 2
            s = [fm.round(v) if v else fm.zero(0) for v in (x, y)]
            v = dict(x=s[0], y=s[1])
            for n in "xy":
                if rg.random() < .5:
                    v[n] = (1 - v[n][0],) + v[n][1:]
            return v
        return dict(x=fl.anyfloat(fm, rg, -3, lim - 1), y=fl.anyfloat(fm, rg, -3, lim - 1))
    t.gen = gen
    return t


# ---------------------------------------------------------------- L03

def norm(fm):
    t = Task("NormalizeIJK (package %s)" % pkg(fm), fm, "l_norm")
    t.inputs = [("sa", "b"), ("a", "v"), ("sb", "b"), ("b", "v"), ("sc", "b"), ("c", "v")]
    t.rng = {n: (0, (1 << 30) - 1) for n in "abc"}
    t.body = run_body(pkg(fm), "NormalizeIJK", lambda wd, m, T: [wd.context(m)] + [T[n] for n, _ in t.inputs], ints)

    def spec(th, T):
        v = [z3.If(T["s" + n].z == 1, -T[n].z, T[n].z) for n in "abc"]
        mn = z3.If(v[0] < v[1], v[0], v[1])
        mn = z3.If(mn < v[2], mn, v[2])
        return [[x - mn] for x in v]
    t.spec = spec
    return t


# ---------------------------------------------------------------- L04

def near(fm, x, n):
    """the floats within n units in the last place of x"""
    c = fm.round(x)
    u = Fraction(2) ** (c[1] - fm.M)
    return [fm.round(fm.value(c) + k * u) for k in [0] + [s * j for j in range(1, n + 1) for s in (1, -1)]]


def power7(k):
    return mpmath.sqrt(mpmath.mpf(7)) ** k


def gnomonic(th, d):
    n = lambda v: num(th, v)
    return th.div(th.div(th.sqrt(th.mul(th.sub(n(4), d), d)), th.sub(n(2), d)), n(RES0))


def scale(fm, k, r_):
    """calculateR (r_) or scaleR at resolution k"""
    nm = "calculateR" if r_ else "scaleR"
    t = Task("%s at resolution %d (binary%d)" % (nm, k, w(fm)), fm, "l_r" if r_ else "l_scale")
    t.inputs = [("d", "f"), ("res", "v")]
    t.rng = {"res": (k, k)}
    if r_:
        t.domain = lambda th, T: [th.finite(T["d"]), th.le(num(th, 0), T["d"]), th.lt(T["d"], num(th, 2))]
    else:
        t.domain = lambda th, T: [th.finite(T["d"])]
    t.body = run_body(pkg(fm), nm, lambda wd, m, T: [wd.context(m), wd.floatvar(T["d"]), cval(T["res"])], lambda wd, m, r: floats(wd, m, [r]))

    def spec(th, T):
        r = gnomonic(th, T["d"]) if r_ else T["d"]
        return [[th.mul(r, th.const(c)) for c in near(fm, frac(power7(k)), 8)] + ([r] if k == 0 else [])]
    t.spec = spec

    def judge(env, outs):
        d, o = env["d"], outs[0]
        lo = mpmath.mpf(2) ** (fm.EMIN // 2)
        if fm.cls(d) not in ("zero", "fin"):
            return None
        D = mp(fm, d)
        v = D * power7(k)
        if r_:
            v = mpmath.sqrt((4 - D) * D) / (2 - D) / mpmath.mpf(RES0.numerator) * RES0.denominator * power7(k)
        if abs(v) > mpmath.mpf(2) ** (fm.EMAX - 2):
            return None
        if fm.cls(o) not in ("zero", "fin") or abs(mp(fm, o) - v) > abs(v) * mpmath.mpf(2) ** (6 - fm.M) + lo:
            return "the result %s is not the formula's %s" % (outs[0], mpmath.nstr(v, 18))
        return None
    t.judge = judge

    def gen(t, rg):
        if r_:
            v = fm.round(Fraction(rg.choice([rg.random() * 0.4, rg.random() * 2, rg.random() ** 20, 0, 1.999])))
            return dict(d=(0,) + v[1:], res=k)
        return dict(d=fl.anyfloat(fm, rg), res=k)
    t.gen = gen
    return t


def rejects(fm, r_):
    """which resolutions are accepted at all"""
    nm = "calculateR" if r_ else "scaleR"
    t = Task("%s, resolutions accepted (binary%d)" % (nm, w(fm)), fm, "l_r" if r_ else "l_scale")
    t.inputs = [("d", "f"), ("res", "v")]
    t.rng = {"res": (-(1 << 250), 1 << 250)}
    t.domain = lambda th, T: [th.finite(T["d"]), th.le(num(th, 0), T["d"]), th.lt(T["d"], num(th, 2))]
    t.body = run_body(pkg(fm), nm, lambda wd, m, T: [wd.context(m), wd.floatvar(T["d"]), T["res"]], lambda wd, m, r: floats(wd, m, [r]))
    t.spec = lambda th, T: [[T["d"]]]
    t.only = []
    t.judge = lambda env, outs: None
    t.accept = lambda th, T: z3.And(T["res"].z >= 0, T["res"].z <= 15)

    def gen(t, rg):
        v = fm.round(Fraction(rg.random()))
        return dict(d=(0,) + v[1:], res=rg.choice([0, 15, 16, 17, 31, 32, -1, rg.randint(-40, 40), 1 << 249]))
    t.gen = gen
    return t


# ---------------------------------------------------------------- L05

HEX = ["sinLat", "cosLat", "sinLng", "cosLng", "sinFaceLat", "cosFaceLat", "sinFaceLng", "cosFaceLng",
       "sinAz", "cosAz", "sinAzRot", "cosAzRot", "r"]


def hex2d(fm):
    t = Task("calculateHex2d (binary%d)" % w(fm), fm, "l_hex2d")
    t.inputs = [(n, "f") for n in HEX] + [("res", "v")]
    t.rng = {"res": (-(1 << 250), 1 << 250)}
    t.accept = lambda th, T: z3.And(T["res"].z >= 0, T["res"].z <= 15)
    t.domain = lambda th, T: [z3.And(th.finite(T[n]), FL.fE(T[n]) <= (40 if n == "r" else 0)) for n in HEX]
    t.body = run_body(pkg(fm), "calculateHex2d", lambda wd, m, T: [wd.context(m)] + [wd.floatvar(T[n]) for n in HEX] + [T["res"]], floats)

    def spec(th, T):
        sla, cla, slo, clo, sfa, cfa, sfo, cfo, sa, ca, sar, car, r = [T[n] for n in HEX]
        y = th.mul(cla, th.sub(th.mul(slo, cfo), th.mul(clo, sfo)))
        x = th.sub(th.mul(cfa, sla), th.mul(th.mul(sfa, cla), th.add(th.mul(clo, cfo), th.mul(slo, sfo))))
        odd = T["res"].z % 2 == 1
        s, c = ite(odd, sar, sa), ite(odd, car, ca)
        z = th.sqrt(th.add(th.mul(x, x), th.mul(y, y)))
        at0 = th.zero(z)
        # at the face centre the point is (0, 0)
        z = ite(at0, num(th, 1), z)
        sp, cp = th.div(y, z), th.div(x, z)
        so = th.mul(th.sub(th.mul(s, cp), th.mul(c, sp)), r)
        co = th.mul(th.add(th.mul(c, cp), th.mul(s, sp)), r)
        p, n = (th.const(fm.zero(b)) for b in (0, 1))
        return [[v, ite(at0, p, v), ite(at0, n, v)] for v in (co, so)]
    t.spec = spec

    def judge(env, outs):
        v = {n: mp(fm, env[n]) for n in HEX}
        odd = env["res"] % 2
        ty = [v["cosLat"] * v["sinLng"] * v["cosFaceLng"], -v["cosLat"] * v["cosLng"] * v["sinFaceLng"]]
        tx = [v["cosFaceLat"] * v["sinLat"], -v["sinFaceLat"] * v["cosLat"] * v["cosLng"] * v["cosFaceLng"],
              -v["sinFaceLat"] * v["cosLat"] * v["sinLng"] * v["sinFaceLng"]]
        x, y = sum(tx), sum(ty)
        mag = sum(map(abs, tx)) + sum(map(abs, ty))
        z = mpmath.sqrt(x * x + y * y)
        eps = mpmath.mpf(2) ** (5 - fm.M)
        if any(fm.cls(o) not in ("zero", "fin") for o in outs):
            return "the result is not finite"
        o = [mp(fm, c) for c in outs]
        s, c = (v["sinAzRot"], v["cosAzRot"]) if odd else (v["sinAz"], v["cosAz"])
        # rounding may turn the direction by about mag*eps/z
        if z <= mag * eps * 64 or z < mpmath.mpf(2) ** (fm.EMIN // 4):
            if mag == 0 and any(o):
                return "not the origin at the face centre"
            return None
        e = eps * (1 + mag / z) * abs(v["r"]) * (abs(s) + abs(c)) + mpmath.mpf(2) ** (fm.EMIN // 2)
        for nm, got, want in (("x", o[0], (c * x + s * y) / z * v["r"]), ("y", o[1], (s * x - c * y) / z * v["r"])):
            if abs(got - want) > e:
                return "%s is %s instead of %s" % (nm, mpmath.nstr(got, 12), mpmath.nstr(want, 12))
        return None
    t.judge = judge

    def gen(t, rg):
        i = rg.randrange(20)
        la, lo = mpmath.asin(rg.uniform(-1, 1)), mpmath.mpf(rg.uniform(-math.pi, math.pi))
        if rg.random() < .3:
            la, lo = GEO[i]
        sa = [mpmath.sin(la), mpmath.cos(la), mpmath.sin(lo), mpmath.cos(lo)] + data(i)
        e = {n: fm.round(frac(x)) for n, x in zip(HEX, sa)}
        if rg.random() < .4:
            # simple directions, no cancellation
            for n in HEX[:12]:
                k = rg.random()
                e[n] = fm.zero(0) if k < .25 else fm.round(Fraction(rg.choice([1, -1]))) if k < .6 else fl.anyfloat(fm, rg, -fm.M, 0)
        e["r"] = fm.round(Fraction(rg.random() * 100))
        e["res"] = rg.choice(list(range(16)) + [16, 17, 33])
        return e
    t.gen = gen
    return t


def tasks(pid, deep):
    f = (F32, F64)
    if pid == "L01":
        return [face(x) for x in f]
    if pid == "L02":
        return [ijk(x) for x in f]
    if pid == "L03":
        return [norm(x) for x in f]
    if pid == "L04":
        return [rejects(x, b) for x in f for b in (0, 1)] + [scale(x, k, b) for x in f for b in (0, 1) for k in range(16)]
    return [hex2d(x) for x in f]
