"""Symbolic IEEE-754 specifications, case by case, over the engine's integer terms.

Each specification is functional: for the operands of a case it states the one result
IEEE-754 prescribes, so a circuit is sound exactly when "constraints and result differs"
is unsatisfiable.
"""
import itertools
import z3
from engine import Val, Form, con, fadd, fscale, Dead, Inconclusive
from ref import Fmt, same

I = z3.IntVal


class Spec:
    """operation `op` in format fm"""

    def __init__(self, op, fm, args=()):
        self.op, self.fm, self.args = op, fm, list(args)

    # ---- operands ----
    BIN = ("add", "sub", "mul", "div", "lt", "le", "gt", "ge", "asserteq", "ulp1", "ulpx")
    UN = ("sqrt", "trunc", "floor", "ceil", "toint", "fabs", "fneg")

    def cases(self):
        cl = ("fin", "zero", "inf", "nan")
        if self.op == "newfloat":
            return [dict(k="bits")]
        if self.op in self.UN:
            return [dict(x=c) for c in cl]
        r = []
        for a, b in itertools.product(cl, cl):
            if self.op in ("add", "sub", "ulpx") and a == b == "fin":
                T = self.fm.M + 4
                for D in range(-T, T + 1):
                    r.append(dict(x=a, y=b, D=D))
            elif self.op == "fselect":
                r.append(dict(x=a, y=b))
            else:
                r.append(dict(x=a, y=b))
        return r

    def operand(self, c, cls, name, E=None):
        f = self.fm
        S = c.bool_fresh(name + "S")
        if cls == "zero":
            return [S, con(f.EMIN), con(0), con(0)]
        if cls == "inf":
            return [S, con(f.EMAX), con(1 << f.M), con(1)]
        if cls == "nan":
            return [S, con(f.EMAX), con(0), con(1)]
        if E is None:
            E = c.int_val(name + "E", f.EMIN + 1, f.EMAX - 1)
        M = c.int_val(name + "M", 1 << f.M, (2 << f.M) - 1)
        return [S, E, M, con(0)]

    def subnormal(self, c, x):
        """the facts that make a subnormal operand well-formed (added only when a model
        needs them): the low ENM-E bits of its significand are zero"""
        f = self.fm
        if x[2].isconst() or x[3].f.c == 1:
            return []
        out = []
        e, m = c.z(x[1]), c.z(x[2])
        for j in range(1, f.M + 1):
            a = z3.Int(c.fresh("sub"))
            out.append(z3.Implies(e == f.ENM - j, m == a * (1 << j)))
        return out

    def setup(self, c, case):
        f = self.fm
        if self.op == "newfloat":
            return [None]
        if self.op == "sqrt" and case["x"] == "fin":
            h = c.int_val("h", (f.EMIN + 1) // 2, (f.EMAX - 1) // 2)
            b = c.bool_fresh("b")
            self.h, self.b = h, b
            E = c.add(c.add(h, h), b)
            c.s.add(c.z(E) >= f.EMIN + 1, c.z(E) <= f.EMAX - 1)
            self.x = self.operand(c, "fin", "x", E)
            return list(self.x)
        ins = self.operands(c, case)
        if self.op == "fselect":
            self.sel = c.bool_fresh("sel")
            ins = [self.sel] + ins
        return ins

    def operands(self, c, case):
        f = self.fm
        if "D" in case:
            D, T = case["D"], f.M + 4
            lo, hi = f.EMIN + 1, f.EMAX - 1
            if abs(D) < T:
                e = c.int_val("e", lo, hi - abs(D))
                big = c.add(e, con(abs(D)))
            else:
                e = c.int_val("e", lo, hi - T)
                d = c.int_val("d", T, hi - lo)
                big = c.add(e, d)
                c.s.add(c.z(big) <= hi)
            ex, ey = (big, e) if D >= 0 else (e, big)
            self.x, self.y = self.operand(c, "fin", "x", ex), self.operand(c, "fin", "y", ey)
            return self.x + self.y
        self.x = self.operand(c, case["x"], "x")
        ins = list(self.x)
        if "y" in case:
            self.y = self.operand(c, case["y"], "y")
            ins += self.y
        return ins

    def wellformed(self, c):
        r = []
        for n in ("x", "y"):
            if hasattr(self, n):
                r += self.subnormal(c, getattr(self, n))
        return r

    def concrete(self, ints):
        """field inputs -> operand tuples (centred integers)"""
        if self.op == "fselect":
            ints = ints[1:]
        return [tuple(ints[i:i + 4]) for i in range(0, len(ints), 4)]

    # ---- helpers ----
    def bl(self, c, z, lo, hi, what):
        """decides the bit length of z, known to be in [lo,hi]"""
        def e():
            return z3.Sum([I(lo)] + [z3.If(z >= (1 << i), I(1), I(0)) for i in range(lo, hi)])

        def given(v):
            a = []
            if v > lo:
                a.append(z >= (1 << (v - 1)))
            if v < hi:
                a.append(z < (1 << v))
            return z3.And(a) if len(a) > 1 else a[0]
        return c.decide(e, what, cap=600, given=given)

    def rne(self, c, V, L, j, e):
        """round V (bit length L constant), whose top bit has exponent e, to M+1-j bits;
        returns (E, M, A) as z3 terms"""
        f = self.fm
        drop = L - (f.M + 1) + j
        if drop <= 0:
            R = V * (1 << -drop)
        else:
            R0, rem, h, b = (z3.Int(c.fresh(n)) for n in ("R0", "rem", "h", "b"))
            c.s.add(V == R0 * (1 << drop) + rem, rem >= 0, rem < (1 << drop))
            c.s.add(R0 == 2 * h + b, b >= 0, b <= 1)
            half = 1 << (drop - 1)
            up = z3.Or(rem > half, z3.And(rem == half, b == 1))
            R = R0 + z3.If(up, I(1), I(0))
        m = R * (1 << j) if j else R
        carry = m == (2 << f.M)
        E = z3.If(carry, e + 1, e)
        M = z3.If(carry, I(1 << f.M), m)
        ov = E >= f.EMAX
        zero = m == 0
        return (z3.If(ov, I(f.EMAX), z3.If(zero, I(f.EMIN), E)),
                z3.If(ov, I(1 << f.M), M), z3.If(ov, I(1), I(0)))

    def expected(self, c, case):
        """(S, E, M, A) as z3 terms, None = unconstrained"""
        f, op = self.fm, self.op
        x = self.x
        cx = case["x"]
        Z = c.z
        zero = lambda s: (s, I(f.EMIN), I(0), I(0))
        inf = lambda s: (s, I(f.EMAX), I(1 << f.M), I(1))
        nan = (None, I(f.EMAX), I(0), I(1))
        same_ = lambda v: tuple(Z(t) for t in v)
        if op in ("add", "sub"):
            y = list(self.y)
            cy = case["y"]
            if op == "sub":
                y[0] = c.sub(con(1), y[0])
            sx, sy = c.as_bool(x[0]), c.as_bool(y[0])
            if "nan" in (cx, cy):
                return nan
            if cx == "inf" and cy == "inf":
                return ("nanif", sx != sy, inf(Z(x[0])))
            if cx == "inf" or cy == "zero" and cx != "zero":
                return same_(x)
            if cy == "inf" or cx == "zero" and cy != "zero":
                return same_(y)
            if cx == "zero":
                return zero(z3.If(z3.And(sx, sy), I(1), I(0)))
            D = case["D"]
            if abs(D) >= f.M + 4:
                return same_(x if D > 0 else y)
            a, b = (x, y) if D >= 0 else (y, x)
            D = abs(D)
            va = Z(a[2]) * (1 << D)
            vb = Z(b[2])
            sa, sb = c.as_bool(a[0]), c.as_bool(b[0])
            V = z3.Int(c.fresh("V"))
            c.s.add(V == z3.If(sa, -va, va) + z3.If(sb, -vb, vb))
            W = z3.Int(c.fresh("W"))
            c.s.add(W == z3.If(V < 0, -V, V))
            L = self.bl(c, W, 0, f.M + 2 + D, "bit length of the exact sum")
            if L == 0:
                return zero(I(0))
            # a sum with a subnormal exponent is exact, so rounding to M+1 bits is right there too
            r = self.rne(c, W, L, 0, Z(b[1]) + (L - 1 - f.M))
            return (z3.If(V < 0, I(1), I(0)),) + r
        if op in ("mul", "div"):
            y, cy = self.y, case["y"]
            sx, sy = c.as_bool(x[0]), c.as_bool(y[0])
            s = z3.If(z3.Xor(sx, sy), I(1), I(0))
            if op == "mul":
                if "nan" in (cx, cy) or {cx, cy} == {"inf", "zero"}:
                    return nan
                if "inf" in (cx, cy):
                    return inf(s)
                if "zero" in (cx, cy):
                    return zero(s)
                P = c.mul(x[2], y[2])
                V = Z(P)
                L = self.bl(c, V, 2 * f.M + 1, 2 * f.M + 2, "bit length of the product")
                e = Z(x[1]) + Z(y[1]) + (L - 1 - 2 * f.M)
            else:
                if "nan" in (cx, cy) or cx == cy and cx in ("inf", "zero"):
                    return nan
                if cx == "inf" or cy == "zero":
                    return inf(s)
                if cy == "inf" or cx == "zero":
                    return zero(s)
                k = f.M + 2
                Q = c.int_val("Q", 0, (1 << (k + 1)) - 1)
                P = c.mul(Q, y[2])
                N = Z(x[2]) * (1 << k)
                c.s.add(Z(P) <= N, N < Z(P) + Z(y[2]))
                V = 2 * Z(Q) + z3.If(Z(P) == N, I(0), I(1))
                L = self.bl(c, Z(Q), k, k + 1, "bit length of the quotient")
                e = Z(x[1]) - Z(y[1]) + (L - 1 - k)
                L += 1
            d = f.ENM - e
            j = c.decide(z3.If(d <= 0, I(0), z3.If(d >= f.M + 2, I(f.M + 2), d)), "denormalisation")
            return (s,) + self.rne(c, V, L, j, e)
        if op == "sqrt":
            if cx == "zero":
                return same_(x)
            if cx == "nan":
                return nan
            if cx == "inf":
                return ("nanif", c.as_bool(x[0]), inf(I(0)))
            sg = c.as_bool(x[0])
            k = f.M + 4
            b = c.as_bool(self.b)
            m = Z(x[2])
            X = z3.If(b, 2 * m, m) * (1 << k)
            S = c.int_val("S", 1 << (f.M + 2), (1 << (f.M + 3)) - 1)
            SS = Z(c.mul(S, S))
            c.s.add(SS <= X, X <= SS + 2 * Z(S))
            V = 2 * Z(S) + z3.If(SS == X, I(0), I(1))
            r = self.rne(c, V, f.M + 4, 0, Z(self.h))
            return ("nanif", sg, (I(0),) + r)
        if op in ("trunc", "floor", "ceil"):
            if cx != "fin":
                return same_(x)
            e = Z(x[1])
            k = c.decide(z3.If(e < 0, I(-1), z3.If(e >= f.M, I(f.M), e)), "exponent")
            if k == f.M:
                return same_(x)
            s = c.as_bool(x[0])
            away = s if op == "floor" else z3.Not(s) if op == "ceil" else z3.BoolVal(False)
            if k < 0:
                o = z3.If(away, I(1), I(0))
                return (Z(x[0]), z3.If(away, I(0), I(f.EMIN)), z3.If(away, I(1 << f.M), I(0)), I(0))
            q, r = z3.Int(c.fresh("iq")), z3.Int(c.fresh("ir"))
            w = f.M - k
            c.s.add(Z(x[2]) == q * (1 << w) + r, r >= 0, r < (1 << w))
            n = q + z3.If(z3.And(away, r > 0), I(1), I(0))
            carry = n == (2 << k)
            return (Z(x[0]), z3.If(carry, I(k + 1), I(k)), z3.If(carry, I(1 << f.M), n * (1 << w)), I(0))
        if op == "fabs":
            return (I(0),) + same_(x)[1:]
        if op == "fneg":
            return (1 - Z(x[0]),) + same_(x)[1:]
        if op == "fselect":
            y = self.y
            s = c.as_bool(self.sel)
            return tuple(z3.If(s, a, b) for a, b in zip(same_(x), same_(y)))
        raise KeyError(op)

    def order(self, c, case):
        """z3 Bools (x<y, x==y) for non-NaN operands"""
        x, y = self.x, self.y
        Z = c.z
        ex, mx, ey, my = Z(x[1]), Z(x[2]), Z(y[1]), Z(y[2])
        sx, sy = c.as_bool(x[0]), c.as_bool(y[0])
        mlt = z3.Or(ex < ey, z3.And(ex == ey, mx < my))
        mgt = z3.Or(ex > ey, z3.And(ex == ey, mx > my))
        meq = z3.And(ex == ey, mx == my)
        bz = z3.And(mx == 0, my == 0)
        eq = z3.Or(bz, z3.And(meq, sx == sy))
        lt = z3.And(z3.Not(bz), z3.If(sx == sy, z3.If(sx, mgt, mlt), sx))
        return lt, eq

    def accept(self, c, case):
        """z3 Bool: should the assertion hold?"""
        x, y, f, op = self.x, self.y, self.fm, self.op
        cx, cy = case["x"], case["y"]
        if "nan" in (cx, cy):
            return z3.BoolVal(cx == cy)
        Z = c.z
        ss = c.as_bool(x[0]) == c.as_bool(y[0])
        ident = z3.And(Z(x[1]) == Z(y[1]), Z(x[2]) == Z(y[2]), Z(x[3]) == Z(y[3]))
        if op == "asserteq":
            return z3.And(ss, ident)
        if op == "ulp1":
            alts = [ident]
            for a, b in ((x, y), (y, x)):
                alts.append(z3.And(Z(a[1]) == Z(b[1]), Z(a[3]) == Z(b[3]), Z(a[2]) == Z(b[2]) + 1))
                alts.append(z3.And(Z(a[1]) == Z(b[1]) + 1, Z(a[2]) == (1 << f.M), Z(b[2]) == (2 << f.M) - 1))
            return z3.And(ss, z3.Or(alts))
        if op == "ulpx":
            tol = f.decode(self.args[0] % (1 << (f.E + f.M + 1)))
            sub = Spec("sub", f)
            sub.x, sub.y = self.x, self.y
            d = sub.expected(c, case)
            if isinstance(d[0], str):
                isn, d = d[1], d[2]
            else:
                isn = z3.BoolVal(d[0] is None)
            if f.cls(tol) == "nan" or tol[0]:
                small = z3.And(z3.BoolVal(f.cls(tol) == "zero"), d[2] == 0)
            else:
                small = z3.Or(d[1] < tol[1], z3.And(d[1] == tol[1], d[2] <= tol[2]))
            return z3.And(ss, z3.Or(ident, z3.And(z3.Not(isn), small)))
        raise KeyError(op)

    def differs(self, c, outs, exp):
        """z3 Bool: the outputs are not the expected float"""
        alts = []
        guard = None
        if isinstance(exp[0], str):
            _, isnan, other = exp
            f = self.fm
            n = self.differs(c, outs, (None, I(f.EMAX), I(0), I(1)))
            o = self.differs(c, outs, other)
            return z3.If(isnan, n, o)
        for o, e in zip(outs, exp):
            if e is None:
                continue
            alts.append(self.neq(c, o, e))
        return z3.Or(alts)

    def neq(self, c, o, e):
        """output value o (Val) differs from the small integer term e"""
        e = z3.simplify(e) if z3.is_expr(e) else I(e)
        B = 1 << 300 if self.op == "toint" else 1 << 200
        lo, hi = c.interval(o.f)
        if -c.p // 2 < lo and hi < c.p // 2 and o.k < 100:
            return c.z(o.f) != e * (1 << o.k)
        # via an auxiliary integer for e
        i = c.int_atom("exp", -(c.p // 4), c.p // 4)
        c.s.add(c.atoms[i].z == e)
        return z3.Not(c.eq0(c.sub(o, Val(Form(0, {i: 1})))))

    def violated(self, c, case, outs, ins=None):
        """z3 Bool: the accepted outputs contradict IEEE-754"""
        f, op = self.fm, self.op
        if op in ("asserteq", "ulp1", "ulpx"):
            return z3.Not(self.accept(c, case))
        if op in ("lt", "le", "gt", "ge"):
            if "nan" in (case["x"], case["y"]):
                want = z3.BoolVal(False)
            else:
                lt, eq = self.order(c, case)
                want = {"lt": lt, "le": z3.Or(lt, eq), "gt": z3.Not(z3.Or(lt, eq)), "ge": z3.Not(lt)}[op]
            return self.neq(c, outs[0], z3.If(want, I(1), I(0)))
        if op == "toint":
            cx, x = case["x"], self.x
            if cx == "zero":
                return self.neq(c, outs[0], I(0))
            if cx != "fin":
                return z3.BoolVal(True)
            e = c.z(x[1])
            c.s.add(e >= 0)
            k = c.decide(z3.If(e > 250 - f.M, I(251 - f.M), e), "exponent")
            m = c.z(x[2])
            if k < f.M:
                q = c.int_val("iq", 0, (2 << k) - 1)
                c.s.add(m == c.z(q) * (1 << (f.M - k)))
            elif k <= 250 - f.M:
                q = c.scale(x[2], 1 << (k - f.M))
            else:
                return z3.BoolVal(True)
            s = c.ite(x[0], c.neg(q), q)
            return z3.Not(c.eq0(c.sub(outs[0], s)))
        if op == "newfloat":
            v = ins[0]
            if v.k:
                i = c.int_atom("v", 0, c.p - 1)
                c.assert_eq0(c.sub(v, Val(Form(0, {i: 1}))))
                v = Val(Form(0, {i: 1}))
            lo, hi = c.interval(v.f)
            z = c.z(v.f)
            if not (lo > -c.p and hi < c.p):
                q = z3.Int(c.fresh("q"))
                c.s.add(q * c.p <= z, z < (q + 1) * c.p)
                z = z - q * c.p
            elif lo < 0:
                z = z3.If(z < 0, z + c.p, z)
            n = f.E + f.M + 1
            fits = c.decide(z3.If(z < (1 << n), I(1), I(0)), "encoding fits")
            if not fits:
                return z3.BoolVal(True)
            s, e, m = (z3.Int(c.fresh(t)) for t in "sem")
            c.s.add(z == s * (1 << (n - 1)) + e * (1 << f.M) + m, s >= 0, s <= 1, e >= 0, e < (1 << f.E), m >= 0, m < (1 << f.M))
            k = c.decide(z3.If(e == 0, I(0), z3.If(e == (1 << f.E) - 1, I(2), I(1))), "class")
            if k == 2:
                exp = (s, I(f.EMAX), z3.If(m == 0, I(1 << f.M), I(0)), I(1))
            elif k == 1:
                exp = (s, e + (1 - f.EMAX), m + (1 << f.M), I(0))
            else:
                L = self.bl(c, m, 0, f.M, "bit length")
                if L == 0:
                    exp = (s, I(f.EMIN), I(0), I(0))
                else:
                    exp = (s, I(f.ENM - (f.M + 1 - L)), m * (1 << (f.M + 1 - L)), I(0))
            return self.differs(c, outs, exp)
        exp = self.expected(c, case)
        return self.differs(c, outs, exp)

    # ---- concrete judgement, by exact rational arithmetic ----
    def judge(self, ins, outs, p):
        """ins, outs: field elements of an accepted run.  True: fine, False: violation,
        None: the operands are not well-formed"""
        f, op = self.fm, self.op
        cen = lambda v: v - p if v > p // 2 else v
        if op == "newfloat":
            d = f.decode(ins[0])
            return d is not None and same(outs, d, p)
        ops_ = self.concrete([cen(v) for v in ins])
        if not all(f.wf(o) for o in ops_):
            return None
        x = ops_[0]
        y = ops_[1] if len(ops_) > 1 else None
        if op in ("asserteq", "ulp1"):
            return {"asserteq": f.eq, "ulp1": f.ulp1}[op](x, y)
        if op == "ulpx":
            return f.ulpx(x, y, f.decode(self.args[0] % (1 << (f.E + f.M + 1))))
        if op in ("lt", "le", "gt", "ge"):
            a, b = (x, y) if op in ("lt", "le") else (y, x)
            return outs[0] == f.lt(a, b, op in ("le", "ge"))
        if op == "toint":
            if f.cls(x) in ("inf", "nan"):
                return False
            if not f.isint(x):
                return None
            return (outs[0] - int(f.value(x))) % p == 0 and abs(f.value(x)) < p // 2
        if op == "fselect":
            return same(outs, x if ins[0] else y, p) if ins[0] in (0, 1) else None
        want = {"add": lambda: f.add(x, y), "sub": lambda: f.sub(x, y), "mul": lambda: f.mul(x, y), "div": lambda: f.div(x, y),
                "sqrt": lambda: f.sqrt(x), "trunc": lambda: f.integral(x, "trunc"), "floor": lambda: f.integral(x, "floor"),
                "ceil": lambda: f.integral(x, "ceil"), "fabs": lambda: (0,) + x[1:], "fneg": lambda: f.neg(x)}[op]()
        return same(outs, want, p)

    def want(self, ins, p):
        """the acceptance IEEE-754 semantics asks for an honest prover: True / None"""
        return None


class HSpec(Spec):
    """the same operands, restricted to what an honest prover must be able to prove"""

    def cases(self):
        if self.op == "toint":
            return [dict(x="fin"), dict(x="zero")]
        cs = super().cases()
        if self.op in ("asserteq", "ulp1", "ulpx"):
            cs = [c for c in cs if (c["x"] == "nan") == (c["y"] == "nan")]
        return cs

    def setup(self, c, case):
        f = self.fm
        if self.op == "newfloat":
            return [c.int_val("v", 0, (1 << (f.E + f.M + 1)) - 1)]
        ins = super().setup(c, case)
        if self.op == "toint" and case["x"] == "fin":
            e, m = c.z(self.x[1]), c.z(self.x[2])
            c.s.add(e >= 0, e <= f.E + f.M)
            for j in range(f.M):
                a = z3.Int(c.fresh("int"))
                c.s.add(z3.Implies(e == j, m == a * (1 << (f.M - j))))
        if self.op in ("asserteq", "ulp1", "ulpx"):
            c.s.add(self.accept(c, case))
        return ins

    def provable(self, ins, p):
        """concrete: must an honest prover succeed?  None: not a valid input"""
        f, op = self.fm, self.op
        cen = lambda v: v - p if v > p // 2 else v
        if op == "newfloat":
            return True if ins[0] < 1 << (f.E + f.M + 1) else None
        ops_ = self.concrete([cen(v) for v in ins])
        if not all(f.wf(o) for o in ops_):
            return None
        if op == "fselect" and ins[0] not in (0, 1):
            return None
        x = ops_[0]
        if op == "toint":
            return True if f.cls(x) == "zero" or f.cls(x) == "fin" and f.isint(x) and x[1] <= f.E + f.M else None
        if op in ("asserteq", "ulp1", "ulpx"):
            return True if self.judge(ins, [], p) else None
        return True


class Pin:
    """an operand of a binary operation is a constant of the circuit (pin "x" or "y", the
    bit pattern bits), or both operands are the same variables (pin "same")"""

    def __init__(self, op, fm, args=(), pin="same", bits=0):
        super().__init__(op, fm, args)
        self.pin = pin
        self.const = fm.decode(bits) if pin != "same" else None

    def cases(self):
        f, out = self.fm, []
        T, lo, hi = f.M + 4, f.EMIN + 1, f.EMAX - 1
        for c in super().cases():
            if self.pin == "same":
                if c["x"] != c["y"] or c.get("D"):
                    continue
            else:
                if c[self.pin] != f.cls(self.const):
                    continue
                if "D" in c:
                    d = c["D"] if self.pin == "y" else -c["D"]
                    o = self.const[1] + d
                    if not lo <= o <= hi:
                        continue
            out.append(c)
        return out

    def operands(self, c, case):
        f = self.fm
        T, lo, hi = f.M + 4, f.EMIN + 1, f.EMAX - 1
        if self.pin == "same":
            self.x = self.y = self.operand(c, case["x"], "x")
            return list(self.x)
        fixed = [con(v) for v in self.const]
        E = None
        if "D" in case:
            d = case["D"] if self.pin == "y" else -case["D"]
            o = self.const[1] + d
            if abs(d) < T:
                E = con(o)
            else:
                E = c.int_val("e", o, hi) if d > 0 else c.int_val("e", lo, o)
        free = self.operand(c, case["x" if self.pin == "y" else "y"], "x", E)
        self.x, self.y = (free, fixed) if self.pin == "y" else (fixed, free)
        return list(free)

    def full(self, ins, p):
        ins = list(ins)
        h, r = (ins[:1], ins[1:]) if self.op == "fselect" else ([], ins)
        k = r if self.pin == "same" else [v % p for v in self.const]
        return h + (k + r if self.pin == "x" else r + k)

    def judge(self, ins, outs, p):
        return super().judge(self.full(ins, p), outs, p)


class PSpec(Pin, Spec):
    pass


class HPSpec(Pin, HSpec):
    def judge(self, ins, outs, p):
        # reached from provable with operands already complete
        return super(Pin, self).judge(ins, outs, p)

    def provable(self, ins, p):
        return super().provable(self.full(ins, p), p)


class HQSpec(HSpec):
    """after another operation in the same context, whose operands are 1.0"""

    def setup(self, c, case):
        f = self.fm
        return super().setup(c, case) + [con(v) for v in (0, 0, 1 << f.M, 0) * 2]

    def provable(self, ins, p):
        return super().provable(ins[:-8], p)
