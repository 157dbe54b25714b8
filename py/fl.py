"""Composed circuits (math, loc2index): their Go code is executed from go/ssa with the float
operations as uninterpreted functions over floats (sign, exponent, mantissa, abnormality).

The operations' own properties (F03-F10, F13, F14) say that each returns the IEEE-754 result of its
operands as long as these are in normal form; that every operand is in normal form is an
obligation here.  Comparisons, negation, selection and all integer work are interpreted exactly.
z3 decides equality with the reference term for all inputs; a model is made concrete (facts about
the operations at its values are added until it is consistent) and replayed on the real circuit.
"""
import json
import math
import random
import struct
import time
import z3
import ssa
import vrec
from engine import Stats
from ref import F32, F64
from ssa import IV, Big, Ptr, Slice, Iface, Struct, Array, GoPanic, Unsupported, Infeasible, I

P254 = 21888242871839275222246405745257275088548364400416034343698204186575808495617

_D = z3.Datatype("Fl")
_D.declare("mk", ("fS", z3.IntSort()), ("fE", z3.IntSort()), ("fM", z3.IntSort()), ("fA", z3.IntSort()))
FL = _D.create()
B = z3.BoolVal
ACC = [FL.fS, FL.fE, FL.fM, FL.fA]


class Var:
    """a circuit variable: an integer term with bounds"""
    __slots__ = ("z", "lo", "hi")

    def __init__(self, z, lo, hi):
        self.z, self.lo, self.hi = z, lo, hi


def vlo(v):
    return v.lo if isinstance(v, Var) else v


def vhi(v):
    return v.hi if isinstance(v, Var) else v


def vz(v):
    return v.z if isinstance(v, Var) else I(v)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class Theory:
    """terms over floats of one format"""

    def __init__(self, fm):
        self.fm = fm
        n = fm.E + fm.M + 1
        self.fn = {}
        self.byargs = {}        # operation and ids of the arguments -> term
        self.apps = {}          # id of term -> (op, args, term)
        for op, k in (("add", 2), ("mul", 2), ("div", 2), ("sqrt", 1), ("floor", 1), ("trunc", 1), ("ceil", 1)):
            self.fn[op] = z3.Function("%s%d" % (op, n), *([FL] * (k + 1)))
        self.fn["toint"] = z3.Function("toint%d" % n, FL, z3.IntSort())
        self.subok = z3.Function("subok%d" % n, z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.cc = {}

    # ---- terms ----
    def const(self, c):
        return FL.mk(*[I(x) for x in c])

    def num(self, x):
        """constant from a python number (exactly representable, or rounded)"""
        from fractions import Fraction
        return self.const(self.fm.round(Fraction(x)))

    def cval(self, t):
        """components if t is a constant"""
        if t.decl().eq(FL.mk) and all(z3.is_int_value(a) for a in t.children()):
            return tuple(a.as_long() for a in t.children())
        return None

    def eta(self, t):
        """mk(S(t), E(t), M(t), A(t)) is t"""
        t = z3.simplify(t)
        if t.decl().eq(FL.mk):
            c = t.children()
            if all(z.num_args() == 1 and z.decl().eq(f) for z, f in zip(c, ACC)) and all(z.arg(0).eq(c[0].arg(0)) for z in c):
                return c[0].arg(0)
        return t

    def app(self, op, *a):
        a = [self.eta(x) for x in a]
        cs = [self.cval(x) for x in a]
        if all(c is not None for c in cs):
            r = concrete(self.fm, op, cs)
            return I(r) if op == "toint" else self.const(r)
        key = (op,) + tuple(x.get_id() for x in a)
        if op in ("add", "mul"):
            if key not in self.byargs and (op, key[2], key[1]) in self.byargs:
                return self.byargs[(op, key[2], key[1])]
            if op == "add" and key not in self.byargs:
                r = self.turned(a)
                if r is not None:
                    return r
            if op == "mul" and key[1] == key[2]:
                a = [self.eta(self.abs(x)) for x in a]
                key = (op,) + tuple(x.get_id() for x in a)
        t = self.fn[op](*a)
        self.byargs.setdefault(key, t)
        self.apps.setdefault(t.get_id(), (op, tuple(a), t))
        return t

    def turned(self, a):
        """x + y from (-x) + (-y), if that is there already: the negative of it, but for an exact cancellation"""
        n = [self.eta(self.neg(x)) for x in a]
        for k in ((0, 1), (1, 0)):
            t = self.byargs.get(("add", n[k[0]].get_id(), n[k[1]].get_id()))
            if t is not None:
                cancel = z3.And(self.zero(t), FL.fS(a[0]) != FL.fS(a[1]))
                return FL.mk(z3.If(cancel, I(0), 1 - FL.fS(t)), FL.fE(t), FL.fM(t), FL.fA(t))
        return None

    def add(self, a, b):
        return self.app("add", a, b)

    def sub(self, a, b):
        return self.app("add", a, self.neg(b))

    def mul(self, a, b):
        return self.app("mul", a, b)

    def div(self, a, b):
        return self.app("div", a, b)

    def sqrt(self, a):
        return self.app("sqrt", a)

    def neg(self, a):
        return FL.mk(1 - FL.fS(a), FL.fE(a), FL.fM(a), FL.fA(a))

    def abs(self, a):
        return FL.mk(I(0), FL.fE(a), FL.fM(a), FL.fA(a))

    def withsign(self, s, a):
        return FL.mk(s, FL.fE(a), FL.fM(a), FL.fA(a))

    def nan(self, a):
        return z3.And(FL.fA(a) == 1, FL.fM(a) == 0)

    def zero(self, a):
        return z3.And(FL.fA(a) == 0, FL.fM(a) == 0)

    def finite(self, a):
        return FL.fA(a) == 0

    def order(self, a, b, eq):
        """a < b (or a <= b) for floats in normal form"""
        Sa, Ea, Ma = FL.fS(a), FL.fE(a), FL.fM(a)
        Sb, Eb, Mb = FL.fS(b), FL.fE(b), FL.fM(b)

        def mag(x1, m1, x2, m2, eq):
            return z3.Or(x1 < x2, z3.And(x1 == x2, m1 <= m2 if eq else m1 < m2))
        bothz = z3.And(self.zero(a), self.zero(b))
        r = z3.If(bothz, B(eq), z3.If(Sa != Sb, Sa == 1, z3.If(Sa == 0, mag(Ea, Ma, Eb, Mb, eq), mag(Eb, Mb, Ea, Ma, eq))))
        return z3.And(z3.Not(self.nan(a)), z3.Not(self.nan(b)), r)

    def lt(self, a, b):
        return z3.simplify(self.order(a, b, False))

    def le(self, a, b):
        return z3.simplify(self.order(a, b, True))

    def wf(self, a):
        fm = self.fm
        S, E, M, A = FL.fS(a), FL.fE(a), FL.fM(a), FL.fA(a)
        fin = z3.Or(z3.And(M == 0, E == fm.EMIN),
                    z3.And(M >= (1 << fm.M), M < (2 << fm.M), E > fm.EMIN, E < fm.EMAX, z3.Or(E >= fm.ENM, self.subok(E, M))))
        ab = z3.And(E == fm.EMAX, z3.Or(M == 0, M == (1 << fm.M)))
        return z3.And(z3.Or(S == 0, S == 1), z3.Or(z3.And(A == 0, fin), z3.And(A == 1, ab)))

    def input(self, name):
        return z3.Const(name, FL)

    # ---- axioms about the applications ----
    def axioms(self, rounds=2):
        fm = self.fm
        done = set()
        ax = []
        for _ in range(rounds):
            todo = [x for i, x in list(self.apps.items()) if i not in done]
            if not todo:
                break
            for op, a, t in todo:
                done.add(t.get_id())
                ax += self.instance(op, a, t, _ == 0)
        for op, a, t in [x for i, x in self.apps.items() if i not in done]:
            if op != "toint":
                ax.append(self.wf(t))
        # negating every operand of a sum, or any of a product or quotient, changes at most the sign
        seen = {}
        for op, a, t in list(self.apps.values()):
            if op not in ("add", "mul", "div"):
                continue
            if op == "add":
                keys = [tuple(a), tuple(self.eta(self.neg(x)) for x in a)]
            else:
                keys = [tuple(self.eta(self.abs(x)) for x in a)]
            ks = [(op,) + tuple(x.get_id() for x in k) for k in keys]
            if op != "div":
                ks += [(k[0], k[2], k[1]) for k in ks]
            o = next((seen[k] for k in ks if k in seen), None)
            if o is None:
                seen.update((k, (t, keys)) for k in ks)
            elif not o[0].eq(t):
                o = o[0]
                ax += [FL.fE(o) == FL.fE(t), FL.fM(o) == FL.fM(t), FL.fA(o) == FL.fA(t)]
        return ax

    def instance(self, op, a, t, deep):
        fm = self.fm
        ax = []
        fS, fE, fM, fA = FL.fS, FL.fE, FL.fM, FL.fA
        mx = lambda x, y: z3.If(x >= y, x, y)
        if op == "toint":
            x = a[0]
            # an integral float: its magnitude is below 2^(E+1)
            ax.append(z3.Implies(z3.Or(fS(x) == 0, fM(x) == 0), t >= 0))
            ax.append(z3.Implies(z3.And(fS(x) == 1, fM(x) != 0), t <= 0))
            ax.append(z3.Implies(fM(x) == 0, t == 0))
            for k in (30, 31, 32):
                ax.append(z3.Implies(z3.And(fA(x) == 0, fE(x) < k), z3.And(t < (1 << k), t > -(1 << k))))
            return ax
        ax.append(self.wf(t))
        if op == "add":
            x, y = a
            u = self.fn[op](y, x)
            ax.append(t == u)
            ax.append(z3.Implies(z3.And(fS(x) == fS(y), z3.Not(self.nan(t))), fS(t) == fS(x)))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, mx(fE(x), fE(y)) + 1 < fm.EMAX),
                                 z3.And(fA(t) == 0, z3.Or(fE(t) <= mx(fE(x), fE(y)) + 1, fE(t) <= fm.ENM))))
            ax.append(z3.Implies(z3.And(self.zero(y), z3.Not(self.zero(x)), z3.Not(self.nan(x))), t == x))
            ax.append(z3.Implies(z3.And(self.zero(x), z3.Not(self.zero(y)), z3.Not(self.nan(y))), t == y))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, fE(x) == fE(y), fM(x) == fM(y)),
                                 z3.If(fS(x) == fS(y), z3.Implies(self.zero(x), t == x), t == self.const(fm.zero(0)))))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, z3.Or(fE(x) != fE(y), fM(x) != fM(y))), fM(t) != 0))
            for p, q in ((x, y), (y, x)):
                # a sum of like signs is at least as large as each operand
                ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, fS(x) == fS(y)), z3.Or(fE(t) > fE(p), z3.And(fE(t) == fE(p), fM(t) >= fM(p)))))
                # the larger operand gives the sign
                ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, z3.Or(fE(p) > fE(q), z3.And(fE(p) == fE(q), fM(p) > fM(q)))), fS(t) == fS(p)))
                # x - floor(x), x - trunc(x) for x >= 0: exact, below 1
                n = self.eta(self.neg(q))
                o = self.apps.get(n.get_id())
                if o is not None and o[0] in ("floor", "trunc") and o[1][0].eq(p):
                    ax.append(z3.Implies(z3.And(fA(p) == 0, z3.Or(fS(p) == 0, fM(p) == 0)), z3.And(z3.Or(fS(t) == 0, fM(t) == 0), fA(t) == 0, fE(t) < 0)))
            ax.append(z3.Implies(z3.Or(self.nan(x), self.nan(y)), self.nan(t)))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0), z3.Not(self.nan(t))))
            if deep:
                ax.append(z3.Implies(x == y, t == self.mul(x, self.num(2))))
        elif op == "mul":
            x, y = a
            ax.append(t == self.fn[op](y, x))
            ax.append(z3.Implies(z3.Not(self.nan(t)), fS(t) == z3.If(fS(x) == fS(y), I(0), I(1))))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, fE(x) + fE(y) + 1 < fm.EMAX),
                                 z3.And(fA(t) == 0, z3.Or(fE(t) <= fE(x) + fE(y) + 1, fE(t) <= fm.ENM))))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, z3.Or(fM(x) == 0, fM(y) == 0)), self.zero(t)))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, fM(x) != 0, fM(y) != 0, fE(x) + fE(y) >= fm.ENM), z3.And(fM(t) != 0, fE(t) >= fE(x) + fE(y))))
            ax.append(z3.Implies(z3.Or(self.nan(x), self.nan(y)), self.nan(t)))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0), z3.Not(self.nan(t))))
            one, two = self.num(1), self.num(2)
            for p, q in ((x, y), (y, x)):
                ax.append(z3.Implies(z3.And(p == one, z3.Not(self.nan(q))), t == q))
                c = self.cval(p)
                if deep and c == self.cval(two):
                    ax.append(t == self.add(q, q))
        elif op == "div":
            x, y = a
            ax.append(z3.Implies(z3.Not(self.nan(t)), fS(t) == z3.If(fS(x) == fS(y), I(0), I(1))))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, fM(y) != 0, fE(x) - fE(y) + 1 < fm.EMAX),
                                 z3.And(fA(t) == 0, z3.Or(fE(t) <= fE(x) - fE(y) + 1, fE(t) <= fm.ENM))))
            ax.append(z3.Implies(z3.And(self.zero(x), fA(y) == 0, fM(y) != 0), self.zero(t)))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 0, fM(x) != 0, fM(y) != 0, fE(x) - fE(y) - 1 >= fm.ENM),
                                 z3.And(fM(t) != 0, fE(t) >= fE(x) - fE(y) - 1)))
            ax.append(z3.Implies(z3.And(fA(x) == 0, fA(y) == 1, fM(y) != 0), self.zero(t)))
            ax.append(z3.Implies(z3.And(fA(x) == 0, z3.Not(self.nan(y)), z3.Not(z3.And(fM(x) == 0, fM(y) == 0))), z3.Not(self.nan(t))))
            ax.append(z3.Implies(z3.Or(self.nan(x), self.nan(y)), self.nan(t)))
            c = self.cval(y)
            if c is not None and c[3] == 0 and c[2] == 1 << fm.M and abs(c[1]) < 20:
                if deep:
                    ax.append(t == self.mul(x, self.const((c[0], -c[1], c[2], 0))))
        elif op == "sqrt":
            x, = a
            ax.append(z3.Implies(self.zero(x), t == x))
            ax.append(z3.Implies(z3.And(fS(x) == 0, z3.Not(self.nan(x))), z3.And(fS(t) == 0, fA(t) == fA(x), z3.Implies(fM(x) != 0, fM(t) != 0),
                                                                              z3.Implies(fA(x) == 0, fE(t) <= mx(fE(x), I(0))))))
            ax.append(z3.Implies(z3.And(fS(x) == 1, z3.Not(self.zero(x))), self.nan(t)))
        else:
            x, = a
            ax.append(z3.Implies(fA(x) == 1, t == x))
            ax.append(z3.Implies(fA(x) == 0, z3.And(fA(t) == 0, fS(t) == fS(x))))
            if op in ("floor", "trunc"):
                ax.append(z3.Implies(z3.And(fA(x) == 0, fS(x) == 0), z3.And(z3.Or(fE(t) == fE(x), fM(t) == 0), self.order(t, x, True))))
            else:
                ax.append(z3.Implies(fA(x) == 0, fE(t) <= mx(fE(x), I(-1)) + 1))
        return ax


def concrete(fm, op, a):
    """the operation on concrete components"""
    if op == "add":
        r = fm.add(*a)
    elif op == "mul":
        r = fm.mul(*a)
    elif op == "div":
        r = fm.div(*a)
    elif op == "sqrt":
        r = fm.sqrt(*a)
    elif op in ("floor", "trunc", "ceil"):
        r = fm.integral(a[0], op)
    elif op == "toint":
        if fm.cls(a[0]) not in ("zero", "fin"):
            return 0
        v = fm.value(a[0])
        return int(v) if v.denominator == 1 else 0
    else:
        raise Unsupported(op)
    return tuple(0 if x is None else x for x in r)


# ---------------------------------------------------------------- concrete evaluation of terms

class Eval:
    """evaluates terms; env maps names of constants to values (floats as 4-tuples)"""

    def __init__(self, th, env):
        self.th, self.env, self.c = th, env, {}
        self.inv = {f.name(): op for op, f in th.fn.items()}
        self.facts = []

    def __call__(self, root):
        st = [root]
        c = self.c
        while st:
            t = st[-1]
            i = t.get_id()
            if i in c:
                st.pop()
                continue
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                k = t.arg(0)
                if k.get_id() not in c:
                    st.append(k)
                    continue
                b = t.arg(1) if c[k.get_id()] else t.arg(2)
                if b.get_id() not in c:
                    st.append(b)
                    continue
                c[i] = c[b.get_id()]
                st.pop()
                continue
            need = [a for a in t.children() if a.get_id() not in c]
            if need:
                st += need
                continue
            c[i] = self.one(t, [c[a.get_id()] for a in t.children()])
            st.pop()
        return c[root.get_id()]

    def one(self, t, a):
        k = t.decl().kind()
        n = t.decl().name()
        if z3.is_int_value(t):
            return t.as_long()
        if n == "mk":
            return tuple(a)
        if n in ("fS", "fE", "fM", "fA"):
            return a[0]["SEMA".index(n[1])]
        if n in self.inv:
            r = concrete(self.th.fm, self.inv[n], a)
            self.facts.append((t, a, r))
            return r
        if t.decl().eq(self.th.subok):
            return subok(self.th.fm, *a)
        if k == z3.Z3_OP_UNINTERPRETED:
            if n in self.env:
                return self.env[n]
            raise Unsupported("value of %s" % n)
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in a:
                r *= x
            return r
        if k == z3.Z3_OP_AND:
            return all(a)
        if k == z3.Z3_OP_OR:
            return any(a)
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if k == z3.Z3_OP_IMPLIES:
            return (not a[0]) or a[1]
        if k == z3.Z3_OP_MOD:
            return a[0] % a[1]
        if k == z3.Z3_OP_IDIV:
            return a[0] // a[1]
        raise Unsupported("evaluation of %s" % t.decl())


def subok(fm, E, M):
    return E >= fm.ENM or (E > fm.EMIN and M % (1 << (fm.ENM - E)) == 0)


# ---------------------------------------------------------------- the machine's view of the library

F = ssa.PKG + "float.Context)."


class World:
    """hooks for one execution; collects obligations and acceptance conditions"""

    def __init__(self, prog, fm, mathfn):
        self.prog, self.fm, self.th = prog, fm, Theory(fm)
        self.oblig = []         # (what, Bool): must hold for the contracts to apply
        self.accept = []        # Bool: the circuit's assertions
        self.wide = 0           # the longest length declared for a sign, where the field leaves it open
        self.mathfn = mathfn

    # ---- values ----
    def val(self, m, v):
        """a circuit value: python int or Var"""
        if isinstance(v, Iface):
            return self.val(m, v.v)
        if isinstance(v, Ptr):
            return self.val(m, m.bigv(v))
        if isinstance(v, Big):
            return self.val(m, v.v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Var)):
            return v
        if isinstance(v, Struct) and len(v) == 4:
            raise Unsupported("a float used as a circuit value")
        raise Unsupported("circuit value %r" % (v,))

    def fl(self, m, s):
        """float term of a FloatVar"""
        c = [self.val(m, x) for x in s]
        return self.th.eta(FL.mk(*[vz(x) for x in c]))

    def floatvar(self, t):
        fm = self.fm
        t = z3.simplify(t)
        c = self.th.cval(t)
        if c is not None:
            return Struct(c)
        return Struct([Var(z3.simplify(FL.fS(t)), 0, 1), Var(z3.simplify(FL.fE(t)), fm.EMIN, fm.EMAX),
                       Var(z3.simplify(FL.fM(t)), 0, (2 << fm.M) - 1), Var(z3.simplify(FL.fA(t)), 0, 1)])

    def mkvar(self, z, lo, hi):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        if max(abs(lo), abs(hi)) >= P254 // 2:
            raise Unsupported("circuit value beyond the field")
        return Var(z, lo, hi)

    def bit(self, cond):
        return self.mkvar(z3.If(cond, I(1), I(0)), 0, 1)

    def isone(self, m, v, what):
        """a boolean circuit value as a condition"""
        v = self.val(m, v)
        if isinstance(v, int):
            if v not in (0, 1):
                self.oblig.append((what, B(False)))
            return B(v == 1)
        if v.lo < 0 or v.hi > 1:
            self.oblig.append((what, z3.Or(v.z == 0, v.z == 1)))
        z = v.z
        if z3.is_app_of(z, z3.Z3_OP_ITE) and z.arg(1).eq(I(1)) and z.arg(2).eq(I(0)):
            return z.arg(0)
        return z == 1

    def operand(self, t, what):
        if self.th.cval(t) is not None:
            if not self.fm.wf(self.th.cval(t)):
                self.oblig.append((what, B(False)))
        elif t.get_id() not in self.th.apps and not (t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            self.oblig.append((what, self.th.wf(t)))

    def install(self, m):
        th, fm = self.th, self.fm

        def op(name, n, f):
            def hook(mm, a):
                ts = [self.fl(mm, x) for x in a[1:1 + n]]
                for t in ts:
                    self.operand(t, "operand of %s not in normal form" % name)
                return f(*ts)
            m.hooks["(*" + F + name] = hook
        fv = self.floatvar
        op("Add", 2, lambda a, b: fv(th.add(a, b)))
        op("Sub", 2, lambda a, b: fv(th.sub(a, b)))
        op("Mul", 2, lambda a, b: fv(th.mul(a, b)))
        op("Div", 2, lambda a, b: fv(th.div(a, b)))
        op("Sqrt", 1, lambda a: fv(th.sqrt(a)))
        op("Floor", 1, lambda a: fv(th.app("floor", a)))
        op("Ceil", 1, lambda a: fv(th.app("ceil", a)))
        op("Trunc", 1, lambda a: fv(th.app("trunc", a)))
        op("Neg", 1, lambda a: fv(th.neg(a)))
        op("Abs", 1, lambda a: fv(th.abs(a)))
        op("IsLt", 2, lambda a, b: self.bit(th.lt(a, b)))
        op("IsLe", 2, lambda a, b: self.bit(th.le(a, b)))
        op("IsGt", 2, lambda a, b: self.bit(th.lt(b, a)))
        op("IsGe", 2, lambda a, b: self.bit(th.le(b, a)))

        def toint(mm, a):
            t = self.fl(mm, a[1])
            self.operand(t, "operand of ToInt not in normal form")
            # accepted: finite, integral and small; integrality is an obligation
            self.accept.append(z3.And(FL.fA(t) == 0, FL.fE(t) <= fm.E + fm.M))
            integral = any(t.eq(x[2]) and x[0] in ("floor", "ceil", "trunc") for x in th.apps.values())
            c = th.cval(t)
            if not integral and not (c is not None and fm.isint(c)):
                self.oblig.append(("operand of ToInt not integral", B(False)))
            h = 1 << (fm.E + fm.M + 1)
            return self.mkvar(th.app("toint", t), -h, h)
        m.hooks["(*" + F + "ToInt"] = toint

        def fselect(mm, a):
            c = self.isone(mm, a[1], "selector not a bit")
            x, y = self.fl(mm, a[2]), self.fl(mm, a[3])
            return fv(ite(c, x, y))
        m.hooks["(*" + F + "Select"] = fselect

        def feq(mm, a):
            x, y = self.fl(mm, a[1]), self.fl(mm, a[2])
            self.accept.append(z3.Or(x == y, z3.And(th.nan(x), th.nan(y))))
            return None
        m.hooks["(*" + F + "AssertIsEqual"] = feq
        G = "(*" + ssa.PKG + "gadget.IntGadget)."

        def small(mm, v, ln, what):
            if isinstance(ln, IV):
                raise Unsupported("symbolic declared length")
            v = self.val(mm, v)
            if ln > 250:
                # as long as the field: the sign is not determined
                self.wide = max(self.wide, ln)
            if vlo(v) < -(1 << ln) or vhi(v) >= (1 << ln):
                self.oblig.append((what, z3.And(vz(v) > -(1 << ln), vz(v) < (1 << ln))))
            return v

        def ispos(mm, a):
            v = small(mm, a[1], a[2], "argument of IsPositive too large")
            return self.bit(vz(v) >= 0)
        m.hooks[G + "IsPositive"] = ispos

        def gabs(mm, a):
            v = small(mm, a[1], a[2], "argument of Abs too large")
            h = max(abs(vlo(v)), abs(vhi(v)))
            return (self.mkvar(z3.If(vz(v) >= 0, vz(v), -vz(v)), 0, h), self.bit(vz(v) >= 0))
        m.hooks[G + "Abs"] = gabs

        def mxmn(mx):
            def f(mm, a):
                x, y = self.val(mm, a[1]), self.val(mm, a[2])
                small(mm, self.sub_(x, y), a[3], "difference in Max or Min too large")
                c = vz(x) >= vz(y)
                return self.mkvar(z3.If(c, vz(x), vz(y)) if mx else z3.If(c, vz(y), vz(x)), min(vlo(x), vlo(y)), max(vhi(x), vhi(y)))
            return f
        m.hooks[G + "Max"], m.hooks[G + "Min"] = mxmn(True), mxmn(False)
        m.hooks[G + "IsEq"] = lambda mm, a: self.bit(vz(self.val(mm, a[1])) == vz(self.val(mm, a[2])))

        def abl(mm, a):
            v, n = self.val(mm, a[1]), a[2]
            if a[3] not in (0, 1, 2):
                raise Unsupported("range check mode")
            # exact in the tight mode; in the others the checked value must fit anyway for the honest prover
            self.accept.append(z3.And(vz(v) >= 0, vz(v) < (1 << n)))
            if a[3] != 0:
                raise Unsupported("loose range check outside the float operations")
            return None
        m.hooks[G + "AssertBitLength"] = abl
        # ---- frontend.API ----
        inv = m.invokes
        rest = lambda s: [] if s is None else s.items()

        def isel(mm, r, a):
            c = self.isone(mm, a[0], "selector not a bit")
            x, y = self.val(mm, a[1]), self.val(mm, a[2])
            return self.mkvar(ite(c, vz(x), vz(y)), min(vlo(x), vlo(y)), max(vhi(x), vhi(y)))
        inv["Select"] = isel

        def iadd(mm, r, a):
            v = self.val(mm, a[0])
            for x in [a[1]] + rest(a[2]):
                x = self.val(mm, x)
                v = self.mkvar(vz(v) + vz(x), vlo(v) + vlo(x), vhi(v) + vhi(x))
            return v
        inv["Add"] = iadd

        def isub(mm, r, a):
            v = self.val(mm, a[0])
            for x in [a[1]] + rest(a[2]):
                v = self.sub_(v, self.val(mm, x))
            return v
        inv["Sub"] = isub
        inv["Neg"] = lambda mm, r, a: self.sub_(0, self.val(mm, a[0]))

        def imul(mm, r, a):
            v = self.val(mm, a[0])
            for x in [a[1]] + rest(a[2]):
                x = self.val(mm, x)
                c = [p * q for p in (vlo(v), vhi(v)) for q in (vlo(x), vhi(x))]
                # a product with a bit is a selection
                for p, q in ((v, x), (x, v)):
                    if isinstance(p, Var) and p.lo >= 0 and p.hi <= 1:
                        v = self.mkvar(ite(self.isone(mm, p, ""), vz(q), I(0)), min(c), max(c))
                        break
                else:
                    v = self.mkvar(vz(v) * vz(x), min(c), max(c))
            return v
        inv["Mul"] = imul
        inv["MulAcc"] = lambda mm, r, a: iadd(mm, r, [a[0], imul(mm, r, [a[1], a[2], None]), None])

        def lookup2(mm, r, a):
            # the first bit is the low one
            x = isel(mm, r, [a[0], a[3], a[2]])
            return isel(mm, r, [a[1], isel(mm, r, [a[0], a[5], a[4]]), x])
        inv["Lookup2"] = lookup2
        one = lambda mm, v: self.isone(mm, v, "operand not a bit")
        inv["And"] = lambda mm, r, a: self.bit(z3.And(one(mm, a[0]), one(mm, a[1])))
        inv["Or"] = lambda mm, r, a: self.bit(z3.Or(one(mm, a[0]), one(mm, a[1])))
        inv["Xor"] = lambda mm, r, a: self.bit(z3.Xor(one(mm, a[0]), one(mm, a[1])))
        inv["IsZero"] = lambda mm, r, a: self.bit(vz(self.val(mm, a[0])) == 0)

        def tobin(mm, r, a):
            v = self.val(mm, a[0])
            n = rest(a[1])
            n = self.val(mm, n[0]) if n else 254
            if n > 64:
                raise Unsupported("bits of a whole field element")
            self.accept.append(z3.And(vz(v) >= 0, vz(v) < (1 << n)))
            # on accepted values the bits are the integer's bits
            bits = [self.mkvar((vz(v) / (1 << i)) % 2, 0, 1) for i in range(n)]
            return Slice(bits, 0, n, n)
        inv["ToBinary"] = tobin

        def frombin(mm, r, a):
            v = 0
            for i, x in enumerate(rest(a[0])):
                x = self.val(mm, x)
                v = self.mkvar(vz(v) + vz(x) * (1 << i), vlo(v) + (vlo(x) << i), vhi(v) + (vhi(x) << i))
            return v
        inv["FromBinary"] = frombin

        def aeq(mm, r, a):
            self.accept.append(vz(self.val(mm, a[0])) == vz(self.val(mm, a[1])))
        inv["AssertIsEqual"] = aeq

        def abool(mm, r, a):
            v = vz(self.val(mm, a[0]))
            self.accept.append(z3.Or(v == 0, v == 1))
        inv["AssertIsBoolean"] = abool

        def adiff(mm, r, a):
            self.accept.append(vz(self.val(mm, a[0])) != vz(self.val(mm, a[1])))
        inv["AssertIsDifferent"] = adiff

        def ale(mm, r, a):
            self.accept.append(vz(self.val(mm, a[0])) <= vz(self.val(mm, a[1])))
        inv["AssertIsLessOrEqual"] = ale
        inv["Compiler"] = lambda mm, r, a: "compiler"
        inv["MarkBoolean"] = lambda mm, r, a: None
        inv["Println"] = lambda mm, r, a: None
        for f in ("Sin", "Cos", "Tan", "Atan", "Sqrt"):
            m.hooks["math." + f] = (lambda f: lambda mm, a: self.mathfn(f, a[0]))(f)

    def sub_(self, x, y):
        return self.mkvar(vz(x) - vz(y), vlo(x) - vhi(y), vhi(x) - vlo(y))

    def context(self, m):
        new = self.prog.find("float", "NewContext")
        if new is None:
            raise Unsupported("NewContext is missing")
        g = self.prog.find("gadget", "New")
        m.hooks[g] = lambda mm, a: Ptr([Struct()], 0)
        return Ptr([m.call(new, ["api", 0, self.fm.E, self.fm.M])], 0)


def mathfn(v):
    cache = {}

    def f(name, x):
        k = (name, struct.pack("<d", x))
        if k not in cache:
            b = struct.unpack("<Q", k[1])[0]
            r = v.run([dict(kind="util", name="math", text2=name, inputs=[str(b)])])[0]
            if r.get("err"):
                raise Unsupported("math.%s: %s" % (name, r["err"]))
            cache[k] = struct.unpack("<d", struct.pack("<Q", int(r["outs"][0])))[0]
        return cache[k]
    return f


# ---------------------------------------------------------------- one function against its reference

class Task:
    """what is checked about one function; fm, op and args select it in the real library"""

    def __init__(self, name, fm, op, args=()):
        self.name, self.fm, self.op, self.args = name, fm, op, list(args)
        self.inputs = []        # (name, kind): f float, b bit, v integer
        self.rng = {}           # ranges of integers
        self.domain = []        # Bool
        self.body = None        # (world, machine, terms) -> list of ("f", term) or ("v", z3 int)
        self.spec = None        # (theory, terms) -> list of lists of alternatives
        self.accept = None      # (theory, terms) -> Bool; default: every input of the domain
        self.gen = None         # rng -> env, candidate inputs for the concrete search
        self.judge = None       # (env, real outputs) -> reason or None; overrides the comparison with the reference
        self.only = None        # indices of outputs compared


def spec_ints(fm, env, inputs, p=P254):
    r = []
    for n, k in inputs:
        v = env[n]
        r += [str(x % p) for x in (v if k == "f" else (v,))]
    return r


def same_out(kind, got, want):
    if kind == "f":
        if got[3] == 1 and got[2] == 0 and want[3] == 1 and want[2] == 0:
            return got[1] == want[1]
        return tuple(got) == tuple(want)
    return got == want


class Checker:
    def __init__(self, run, v, prog, mf, timeout=20000):
        self.run, self.v, self.prog, self.mf, self.timeout = run, v, prog, mf, timeout
        self.stats = Stats()
        self.called = set()
        self.glob = {}
        self.points = 0
        for pkg in ("util",):
            f = prog.find(pkg, "init")
            if f:
                m = ssa.Machine(prog, globals_=self.glob)
                m.hooks.update({n: (lambda mm, a: None) for n in prog.funcs if n.endswith(".init") and n != f})
                g = m.globalptr
                try:
                    m.call(f, [])
                except (Unsupported, GoPanic):
                    pass
                self.initdone = True

    # ---- the real circuit ----
    def real(self, t, envs):
        """outputs of the honest prover on the recorded circuit: list of (outs or None, bad)"""
        spec = dict(op=t.op, e=t.fm.E, m=t.fm.M, base=0, args=t.args)
        r = self.v.run([dict(kind="compute", spec=spec, many=[spec_ints(t.fm, e, t.inputs) for e in envs])], timeout=600)[0]
        if r.get("err"):
            raise Unsupported(r["err"])
        out = []
        for c in r.get("computed") or []:
            out.append((self.parse(t, c["outs"]) if c.get("outs") else None, c.get("bad") or []))
        return out

    def parse(self, t, outs):
        z = [int(x) for x in outs]
        z = [x - P254 if x > P254 // 2 else x for x in z]
        r, o = [], 0
        for k in t.kinds:
            if k == "f":
                r.append(tuple(z[o:o + 4]))
                o += 4
            else:
                r.append(z[o])
                o += 1
        return r

    def confirm(self, t, env):
        """the real R1CS and SCS systems on these inputs; -> (reason, job) or None"""
        spec = dict(op=t.op, e=t.fm.E, m=t.fm.M, base=0, args=t.args)
        job = dict(kind="replay", spec=spec, inputs=spec_ints(t.fm, env, t.inputs))
        r = self.v.run([job], timeout=600)[0]
        if vrec.MISSING in str(r):
            raise Unsupported(vrec.MISSING)
        ok = r.get("r1cs") == "ok" and r.get("scs") == "ok"
        outs = self.parse(t, r["outs"]) if r.get("outs") else None
        why = self.differs(t, env, outs, [] if ok else [r.get("r1cs") or r.get("err") or "?"])
        if why is None:
            return None
        return why, job, r

    def flipped(self, t, env, ln):
        """a prover that turns one sign, in the real systems"""
        spec = dict(op=t.op, e=t.fm.E, m=t.fm.M, base=0, args=t.args)
        job = dict(kind="flip", spec=spec, inputs=spec_ints(t.fm, env, t.inputs))
        r = self.v.run([job], timeout=600)[0]
        if not r.get("outs") or not (r.get("r1cs") == "ok" and r.get("scs") == "ok") or not self.indomain(t, env):
            return False
        why = self.differs(t, env, self.parse(t, r["outs"]), [])
        if why is None:
            return False
        why = "with the sign of a value turned (declared with %d bits) it is still accepted: %s" % (ln, why)
        self.run.violation("%s on %s: %s" % (t.name, self.show(t, env), why), dict(kind="function", job=job, result=r, why=why, solver="declared length"),
                           key="%s:sign" % t.name)
        return True

    def differs(self, t, env, outs, bad):
        ev = Eval(t.th, env)
        accepted = not bad and outs is not None
        want_acc = all(ev(z3.simplify(a)) for a in t.acc)
        if accepted != want_acc:
            if accepted:
                return "accepted although it should be rejected"
            return "rejected: %s" % (bad[0] if bad else "no outputs")
        if not accepted:
            return None
        if t.judge:
            return t.judge(env, outs)
        for i, alts in enumerate(t.want):
            if t.only is not None and i not in t.only:
                continue
            ws = [ev(a) for a in alts]
            if not any(same_out(t.kinds[i], outs[i], w) for w in ws):
                return "output %d is %s instead of %s" % (i, outs[i], ws[0])
        return None

    def indomain(self, t, env):
        try:
            for n, k in t.inputs:
                if k == "f" and not t.fm.wf(env[n]):
                    return False
                if k == "b" and env[n] not in (0, 1):
                    return False
                if k == "v" and not (t.rng[n][0] <= env[n] <= t.rng[n][1]):
                    return False
            ev = Eval(t.th, env)
            return all(ev(z3.simplify(d)) for d in t.dom)
        except Unsupported:
            return False

    # ---- one task ----
    def check(self, t):
        run = self.run
        c = run.cov
        m = ssa.Machine(self.prog, (), self.timeout, self.stats, globals_=self.glob)
        w = World(self.prog, t.fm, self.mf)
        w.install(m)
        th = w.th
        t.th = th
        terms = {}
        for n, k in t.inputs:
            if k == "f":
                terms[n] = th.input(n)
            else:
                lo, hi = (0, 1) if k == "b" else t.rng[n]
                terms[n] = Var(z3.Int(n), lo, hi)
        t.dom = list(t.domain(th, terms)) if callable(t.domain) else list(t.domain)
        dom = list(t.dom)
        for n, k in t.inputs:
            if k == "f":
                dom.append(th.wf(terms[n]))
            else:
                dom += [terms[n].z >= terms[n].lo, terms[n].z <= terms[n].hi]
        c["obligations"] += 1
        try:
            outs = t.body(w, m, terms)
            for x in m.alts:
                raise Unsupported("control flow depends on a circuit value")
        except GoPanic as e:
            run.undecided("%s: panics in symbolic execution: %s" % (t.name, e))
            return
        except Unsupported as e:
            run.undecided("%s: %s" % (t.name, e))
            return
        finally:
            self.called |= m.called
        t.kinds = [k for k, _ in outs]
        t.want = t.spec(th, terms)
        t.acc = [t.accept(th, terms)] if t.accept else [B(True)]
        assert len(t.want) == len(outs), (t.name, len(t.want), len(outs))
        s = z3.Solver()
        s.set("timeout", self.timeout)
        code_acc = z3.And(w.accept) if w.accept else B(True)
        spec_acc = z3.And(t.acc)
        goals = [("accepts exactly what it should", code_acc != spec_acc)]
        goals += [(what, z3.And(spec_acc, z3.Not(o))) for what, o in self.dedupe(w.oblig)]
        for i, ((k, z), alts) in enumerate(zip(outs, t.want)):
            if t.only is not None and i not in t.only:
                continue
            if callable(alts):
                bad = alts(z)
            elif k == "f":
                bad = z3.And([z3.And(z != a, z3.Not(z3.And(th.nan(z), th.nan(a)))) for a in alts])
            else:
                bad = z3.And([z != a for a in alts])
            goals.append(("output %d" % i, z3.And(spec_acc, bad)))
        s.add(dom)
        ax = th.axioms()
        s.add(ax)
        c["obligations"] += len(goals) - 1
        # reachability of the domain
        r, md = self.ask(s, spec_acc)
        if r == z3.sat:
            c["reach_witnesses"] += 1
        else:
            run.undecided("%s: no witness for the domain" % t.name)
        if w.wide:
            rg = random.Random(t.name)
            for k in range(25):
                e = (t.gen or self.anyenv)(t, rg) if k or md is None else self.env_of(t, terms, md)
                if self.indomain(t, e) and self.flipped(t, e, w.wide):
                    return
            run.undecided("%s: a sign of a value of up to %d bits" % (t.name, w.wide))
        tried = 0
        for what, g in goals:
            r, md = self.ask(s, g)
            if r == z3.unsat:
                c["obligations_closed"] += 1
                c["leaves_discharged"] += 1
                continue
            tried += 1
            if tried <= 3 and self.refute(t, s, terms, outs, what, g):
                return
            run.undecided("%s: %s: %s" % (t.name, what, "solver gave no answer" if r == z3.unknown else "solver model that no real run shows"))
        self.validate(t, 12)

    def dedupe(self, obl):
        seen, r = set(), []
        for what, o in obl:
            o = z3.simplify(o)
            if z3.is_true(o) or o.get_id() in seen:
                continue
            seen.add(o.get_id())
            r.append((what, o))
        return r

    def ask(self, s, g):
        g = z3.simplify(g)
        if z3.is_false(g):
            self.stats.queries += 1
            return z3.unsat, None
        if self.run.left() < 10:
            return z3.unknown, None
        s.set("timeout", int(min(self.timeout, 1000 * self.run.left())))
        s.push()
        s.add(g)
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dt
        self.stats.maxq = max(self.stats.maxq, dt)
        md = s.model() if r == z3.sat else None
        s.pop()
        return r, md

    def env_of(self, t, terms, md):
        env = {}
        for n, k in t.inputs:
            if k == "f":
                x = md.eval(terms[n], model_completion=True)
                env[n] = tuple(md.eval(f(x), model_completion=True).as_long() for f in (FL.fS, FL.fE, FL.fM, FL.fA))
            else:
                env[n] = md.eval(terms[n].z, model_completion=True).as_long()
        return env

    def report(self, t, env, what):
        r = self.confirm(t, env)
        if r is None:
            return False
        why, job, res = r
        txt = "%s on %s: %s" % (t.name, self.show(t, env), why)
        self.run.violation(txt, dict(kind="function", job=job, result=res, why=why, solver=what), key="%s:%s" % (t.name, why.split(" ")[0]))
        return True

    def show(self, t, env):
        r = []
        for n, k in t.inputs:
            v = env[n]
            if k == "f":
                cl = t.fm.cls(v)
                v = {"nan": "NaN", "inf": "-inf" if v[0] else "inf", "zero": "-0" if v[0] else "0"}.get(cl) or repr(float(t.fm.value(v)))
            r.append("%s=%s" % (n, v))
        return " ".join(r)

    def refute(self, t, s, terms, outs, what, g, rounds=40):
        """makes a model concrete; True if a violation was reported"""
        s.push()
        s.add(g)
        t0 = time.time()
        found = False
        for _ in range(rounds):
            if time.time() - t0 > 60 or self.run.left() < 20:
                break
            r, md = self.ask(s, B(True))
            if r != z3.sat:
                break
            env = self.env_of(t, terms, md)
            if self.indomain(t, env):
                try:
                    (o, bad), = self.real(t, [env])
                    self.points += 1
                    if self.differs(t, env, o, bad) and self.report(t, env, what):
                        found = True
                        break
                except Unsupported as e:
                    self.run.undecided("%s: %s" % (t.name, e))
                    break
            ev = Eval(t.th, env)
            facts = []
            for n, k in t.inputs:
                if k == "f":
                    E, M = env[n][1], env[n][2]
                    facts.append(t.th.subok(E, M) == B(subok(t.fm, E, M)))
            try:
                for k, z in outs:
                    ev(z)
                for al in t.want:
                    for a in () if callable(al) else al:
                        ev(a)
                for a in t.dom:
                    ev(z3.simplify(a))
                for z, a, r_ in ev.facts:
                    pre = z3.And([x == (t.th.const(y) if isinstance(y, tuple) else I(y)) for x, y in zip(z.children(), a)])
                    facts.append(z3.Implies(pre, z == (t.th.const(r_) if isinstance(r_, tuple) else I(r_))))
            except Unsupported:
                pass
            facts.append(z3.Not(z3.And([(terms[n] == t.th.const(env[n])) if k == "f" else (terms[n].z == env[n]) for n, k in t.inputs])))
            s.add(facts)
        s.pop()
        return found or self.validate(t, 400)

    def validate(self, t, n):
        """the encoding's reference against the real circuit on concrete inputs"""
        import random as rnd
        rg = rnd.Random("%s %s" % (t.name, self.run.pid))
        envs = []
        for _ in range(n * 5):
            if len(envs) >= n:
                break
            e = (t.gen or self.anyenv)(t, rg)
            if self.indomain(t, e):
                envs.append(e)
        if not envs:
            return False
        try:
            for e, (o, bad) in zip(envs, self.real(t, envs)):
                self.points += 1
                if self.differs(t, e, o, bad) and self.report(t, e, "concrete search"):
                    return True
        except Unsupported as e:
            self.run.undecided("%s: %s" % (t.name, e))
        return False

    def anyenv(self, t, rg):
        env = {}
        for n, k in t.inputs:
            if k == "f":
                env[n] = anyfloat(t.fm, rg)
            elif k == "b":
                env[n] = rg.randint(0, 1)
            else:
                l, h = t.rng[n]
                env[n] = rg.choice([l, h, rg.randint(l, h), max(l, min(h, rg.randint(-3, 40)))])
        return env

    def finish(self):
        from ssa import Machine
        ck = __import__("sys").modules["__main__"]
        ck.account(self.run, self.stats)
        self.run.cov["functions_encoded"] = sorted(set(self.run.cov.get("functions_encoded", [])) | self.called)
        self.run.cov["validation_points"] = self.run.cov.get("validation_points", 0) + self.points


def anyfloat(fm, rg, elo=None, ehi=None):
    from fractions import Fraction
    k = rg.random()
    s = rg.randint(0, 1)
    if k < 0.08:
        return fm.zero(s)
    if k < 0.3:
        r = fm.round(Fraction(rg.randint(1, 64), rg.choice([1, 2, 3, 4, 6, 8, 10])))
        return (s,) + r[1:]
    lo, hi = (-6, 6) if k < 0.8 else (fm.EMIN + 1, fm.EMAX - 1)
    if elo is not None:
        lo, hi = elo, ehi
    e = rg.randint(lo, hi)
    M = (1 << fm.M) | rg.getrandbits(fm.M)
    if e < fm.ENM:
        M = M >> (fm.ENM - e) << (fm.ENM - e)
    return (s, e, M, 0)
