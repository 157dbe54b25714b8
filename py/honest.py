"""Completeness: the circuit is run with the values the hint functions compute (their
contracts, which the hint check establishes for the real Go code), and every constraint
becomes a goal."""
import z3
from engine import Ctx, Exec, Val, Form, con, fscale, fadd, Inconclusive, Dead

I = z3.IntVal


class Contracts:
    """values of the hint functions, by name; `c` the context, `a` argument values"""

    def __init__(self, c, actual=None):
        self.c = c
        self.actual = actual or {}

    def int_(self, v, what):
        """v as an integer value with a small interval"""
        c = self.c
        if v.k:
            e = v.k
            lo, hi = c.interval(v.f)
            T = c.int_atom("int", lo >> e, (hi >> e) + 1)
            d = c.int_val("rest", 0, (1 << e) - 1)
            c.s.add(c.z(v.f) == c.atoms[T].z * (1 << e) + c.z(d))
            if not c.entails(c.z(d) == 0):
                raise Inconclusive("%s may not be an integer" % what)
            v = Val(Form(0, {T: 1}))
        return v

    def nonneg(self, v, what, bits=300):
        c = self.c
        v = self.int_(v, what)
        lo, hi = c.interval(v.f)
        if hi >> bits or lo < -(1 << bits):
            raise Inconclusive("%s too large" % what)
        if lo < 0:
            # the hint sees the residue: only non-negative values are modelled
            if not c.entails(c.z(v.f) >= 0):
                raise Inconclusive("%s may be negative" % what)
        return v

    def const(self, v, what):
        if not v.isconst() or v.k:
            raise Inconclusive("%s is not a constant" % what)
        return v.f.c

    def qr(self, z, lo, hi, n, name):
        """z = q*2^n + r"""
        c = self.c
        q = c.int_val(name + "q", lo >> n, hi >> n)
        r = c.int_val(name + "r", 0, (1 << n) - 1)
        c.s.add(z == c.z(q) * (1 << n) + c.z(r))
        return q, r

    def bitlen(self, z, lo, hi, what):
        c = self.c

        def e():
            return z3.Sum([I(lo)] + [z3.If(z >= (1 << i), I(1), I(0)) for i in range(lo, hi)])

        def given(v):
            a = []
            if v > lo:
                a.append(z >= (1 << (v - 1)))
            if v < hi:
                a.append(z < (1 << v))
            return z3.And(a) if a else z3.BoolVal(True)
        return c.decide(e, what, cap=600, given=given)

    def call(self, ex, name, a):
        self.ex = ex
        c = self.c
        n = name.split(".")[-1]
        if n == "AbsHint":
            v = self.int_(a[0], "argument of AbsHint")
            lo, hi = c.interval(v.f)
            if lo <= -(c.p // 2) or hi >= c.p // 2:
                raise Inconclusive("argument of AbsHint too large")
            if lo >= 0:
                return [con(1), v]
            if hi < 0:
                return [con(0), c.neg(v)]
            b = c.from_bool(c.z(v.f) >= 0)
            return [b, c.ite(b, v, c.neg(v))]
        if n == "DecodeFloatHint":
            v = self.nonneg(a[0], "encoding")
            E, M = self.const(a[1], "E"), self.const(a[2], "M")
            if c.interval(v.f)[1] >= 1 << (E + M + 1):
                raise Inconclusive("encoding too large")
            s = c.bool_fresh("hs")
            e = c.int_val("he", 0, (1 << E) - 1)
            m = c.int_val("hm", 0, (1 << M) - 1)
            c.s.add(c.z(v.f) == c.z(s) * (1 << (E + M)) + c.z(e) * (1 << M) + c.z(m))
            return [s, e]
        if n == "NthBitHint":
            v, k = self.nonneg(a[0], "argument of NthBit"), self.const(a[1], "bit index")
            lo, hi = c.interval(v.f)
            lo = max(lo, 0)
            if hi < (2 << k):
                if hi < (1 << k):
                    return [con(0)]
                return [c.from_bool(c.z(v.f) >= (1 << k))]
            q, r = self.qr(c.z(v.f), lo, hi, k + 1, "nb")
            return [c.from_bool(c.z(r) >= (1 << k))]
        if n == "PowerOfTwoHint":
            v = self.int_(a[0], "exponent")
            lo, hi = c.interval(v.f)
            if not v.isconst():
                x = c.decide(c.z(v.f), "exponent of a power of two")
            else:
                x = v.f.c
            if not 0 <= x < 4096:
                raise Inconclusive("power of two with exponent %d" % x)
            ex.known[v.key()] = x
            return [con(1 << x)]
        if n == "DecomposeMantissaForRoundingHint":
            m = self.nonneg(a[0], "mantissa")
            t = a[1]
            sm, pi, qi, ri = (self.const(x, "index") for x in a[2:6])
            t = self.const(t, "2^shift")
            if t <= 0:
                raise Inconclusive("division by %d" % t)
            lo, hi = c.interval(m.f)
            lo = max(lo, 0)
            if (1 << sm) % t == 0:
                v = c.scale(m, (1 << sm) // t)
            else:
                v = c.int_val("dv", (lo << sm) // t, (hi << sm) // t)
                c.s.add(c.z(v) * t <= c.z(m.f) * (1 << sm), c.z(m.f) * (1 << sm) < c.z(v) * t + t)
            if not (pi == qi + 1 and qi == ri + 1):
                raise Inconclusive("indices of the rounding decomposition")
            lo, hi = c.interval(v.f)
            lo = max(lo, 0)
            p = c.int_val("dp", lo >> pi, hi >> pi)
            q, r = c.bool_fresh("dq"), c.bool_fresh("dr")
            s = c.int_val("ds", 0, (1 << ri) - 1)
            c.s.add(c.z(v) == c.z(p) * (1 << pi) + c.z(q) * (1 << qi) + c.z(r) * (1 << ri) + c.z(s))
            return [p, q, r, s]
        if n == "NormalizeHint":
            m, ln = self.nonneg(a[0], "mantissa"), self.const(a[1], "bit length")
            lo, hi = c.interval(m.f)
            if hi >= 1 << ln and not c.entails(c.z(m.f) < (1 << ln)):
                raise Inconclusive("mantissa longer than declared")
            L = self.bitlen(c.z(m.f), 0, ln, "bit length of a mantissa")
            return [con(0 if L == 0 else ln - L)]
        if n == "DivHint":
            x, y, Q = self.nonneg(a[0], "dividend"), self.nonneg(a[1], "divisor"), self.const(a[2], "shift")
            ly, hy = c.interval(y.f)
            lx, hx = c.interval(x.f)
            if ly < 1:
                if not c.entails(c.z(y.f) >= 1):
                    raise Inconclusive("divisor may be zero")
                ly = 1
            q = c.int_val("hq", (max(lx, 0) << Q) // hy, (hx << Q) // ly)
            P = c.mul(q, y)
            X = c.z(x.f) * (1 << Q)
            c.s.add(c.z(P) <= X, X < c.z(P) + c.z(y.f))
            return [q]
        if n == "SqrtHint":
            from math import isqrt
            x = self.nonneg(a[0], "radicand")
            lo, hi = c.interval(x.f)
            q = c.int_val("hr", isqrt(max(lo, 0)), isqrt(hi))
            P = c.mul(q, q)
            c.s.add(c.z(P) <= c.z(x.f), c.z(x.f) <= c.z(P) + 2 * c.z(q))
            return [q]
        if n in ("TruncHint", "FloorHint"):
            x, sh = self.nonneg(a[0], "mantissa"), self.const(a[1], "shift")
            lo, hi = c.interval(x.f)
            q, r = self.qr(c.z(x.f), max(lo, 0), hi, sh, "tr")
            if n == "TruncHint":
                return [q]
            s = c.as_bool(a[2])
            if s is None:
                raise Inconclusive("sign of FloorHint")
            up = c.from_bool(z3.And(s, c.z(r) != 0))
            return [c.add(q, up)]
        if n == "DecomposeHint":
            # not a plain range check: the table or the composition is another one
            w, k = self.const(a[1], "limb width"), self.const(a[3], "scale")
            x = self.nonneg(a[2], "decomposed value")
            v = c.scale(x, k)
            lo, hi = c.interval(v.f)
            nl = max(-(-self.const(a[0], "bit length") // w), 1)
            out = [c.int_val("dl", 0, (1 << w) - 1) for _ in range(nl)]
            top = c.int_val("dt", 0, max(hi, 0) >> (w * nl))
            c.s.add(c.z(v.f) == z3.Sum([c.z(o) * (1 << (w * i)) for i, o in enumerate(out)] + [c.z(top) * (1 << (w * nl))]))
            return out
        raise Inconclusive("no contract for the hint %s" % name)


class Honest(Exec):
    """evaluates with honest witness values, collecting goals"""

    def __init__(self, ctx, g, inputs, contracts=None, fails=None):
        super().__init__(ctx, g, inputs, claims=[])
        self.con = contracts or Contracts(ctx)
        self.goals = []
        self.known = {}
        self.fails = fails or {}    # call shape -> conditions on arg0.. under which the real hint misbehaves
        self.nfail = 0

    def lin(self, l, skip=None):
        v = super().lin(l, skip)
        # values fixed by a case split
        x = self.known.get(v.key()) if self.known and not v.isconst() else None
        return con(x) if x is not None else v

    def divide(self, num, den):
        c = self.c
        if den.isconst() and den.f.c % c.p == 0:
            self.goals.append(("division by zero", z3.BoolVal(False)))
            return con(0)
        return super().divide(num, den)

    def run(self):
        c, g = self.c, self.g
        for i in range(1, len(g.wires)):
            if i in self.vals:
                continue
            op, args, h, o = g.wires[i]
            if op == "hint":
                hh = g.hints[h]
                a = [self.lin(x) for x in hh["inputs"]]
                if self.fails:
                    self.misbehaves((hh["name"].split("/")[-1], tuple(None if x.t else x.c % c.p for x in hh["inputs"]), len(hh["outs"])), a)
                outs = self.con.call(self, hh["name"], a)
                for w, v in zip(hh["outs"], outs):
                    self.vals[w] = v
                continue
            if op == "input":
                raise Inconclusive("input without a value")
            self.vals[i] = self.op(i)
        for kind, args in g.cons:
            a = [self.lin(x) for x in args]
            if kind == "eq":
                self.goal("equality", c.eq0(c.sub(a[0], a[1])))
            elif kind in ("bool", "selbool"):
                if c.as_bool(a[0]) is None:
                    self.goal("boolean", z3.Or(c.eq0(a[0]), c.eq0(c.sub(a[0], con(1)))))
            elif kind == "ne":
                self.goal("inequality", z3.Not(c.eq0(c.sub(a[0], a[1]))))
            else:
                raise Inconclusive("constraint %s" % kind)
        for v, t, n in g.tight:
            x = self.lin(v)
            self.goal("range check below %d" % (n >> t), c.in_range(x, 0, n >> t))
        if self.fails:
            for shape, a in getattr(g, "decomp", ()):
                n = shape[0].split("/")[-1]
                if (n,) + shape[1:] in self.fails:
                    self.misbehaves((n,) + shape[1:], [self.lin(x) for x in a])
        for rows, qs in g.lookups:
            for q in qs:
                alts = self.row_alts(rows, q)
                self.goal("lookup", z3.Or(alts) if alts else z3.BoolVal(False))
            if not qs:
                self.goal("lookup argument without queries", z3.BoolVal(False))

    def misbehaves(self, shape, a):
        """adds the goal that the real hint function is right on these arguments"""
        c = self.c
        for cond in self.fails.get(shape, ()):
            self.nfail += 1
            sub, eqs = [], []
            for z in free_consts(cond):
                n = z.decl().name()
                if n.startswith("arg") and n[3:].isdigit():
                    v = self.con.int_(a[int(n[3:])], "argument of a hint")
                    r = z3.Int("%s!f%d" % (n, self.nfail))
                    eqs.append(r == c.z(v.f) if c.interval(v.f)[0] >= 0 else r == z3.If(c.z(v.f) < 0, c.z(v.f) + c.p, c.z(v.f)))
                else:
                    r = z3.Const("%s!f%d" % (n, self.nfail), z.sort())
                sub.append((z, r))
            self.goals.append(("the hint %s" % shape[0], z3.Not(z3.And([z3.substitute(cond, *sub)] + eqs))))

    def goal(self, what, e):
        e = z3.simplify(e)
        if not z3.is_true(e):
            self.goals.append((what, e))


def free_consts(e):
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out
