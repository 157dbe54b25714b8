"""Specifications of the integer gadgets."""
import z3
from engine import Val, Form, con, Inconclusive

I = z3.IntVal


class GSpec:
    """args[0]: declared length, args[1]: mode"""

    def __init__(self, op, fm, args=(), bases=range(2, 18)):
        # rctwo: the checks alternate between two gadgets of the same circuit
        self.op, self.fm, self.args = {"rctwo": "rcmulti"}.get(op, op), fm, list(args)
        self.bases = bases
        self.size = fm.E + fm.M + 1

    def cases(self):
        return [dict(k="all")]

    def wellformed(self, c):
        return []

    def B(self):
        """bound on the magnitudes: far beyond the declared length, far below the field"""
        return 1 << (max(self.args[0] if self.args else self.size, 64) + 40)

    def setup(self, c, case):
        op = self.op
        if op in ("gabs", "gpos"):
            self.v = c.int_val("v", -self.B(), self.B())
            return [self.v]
        if op in ("gmax", "gmin"):
            self.a = c.int_val("a", -self.B(), self.B())
            self.b = c.int_val("b", -self.B(), self.B())
            return [self.a, self.b]
        if op == "geq":
            self.a = c.int_val("a", 0, c.p - 1)
            self.b = c.int_val("b", 0, c.p - 1)
            return [self.a, self.b]
        if op == "pow2":
            # exponents far outside the table, on both sides
            self.v = c.int_val("v", -(1 << 64), 1 << 64)
            return [self.v]
        if op in ("rc", "rcdup"):
            n, mode = self.args[0], self.args[1]
            if mode == 1:
                self.v = c.int_val("v", -(1 << (n + 32)), 1 << (n + 32))
            else:
                self.v = c.int_val("v", 0, c.p - 1)
            return [self.v]
        if op == "rcmulti":
            self.vs = []
            for i in range(0, len(self.args), 2):
                n, mode = self.args[i], self.args[i + 1]
                self.vs.append(c.int_val("v%d" % i, -(1 << (n + 32)), 1 << (n + 32)) if mode == 1 else c.int_val("v%d" % i, 0, c.p - 1))
            return list(self.vs)
        raise KeyError(op)

    def limit(self, n, mode, base):
        """exclusive bound a range check must enforce"""
        if mode == 0:
            return 1 << (-(-n // base) * base)
        return 1 << n

    def bad_range(self, c, v, n, mode):
        base = max(self.curbases)
        lim = max(self.limit(n, mode, b) for b in self.curbases)
        z = c.z(v)
        return z3.Or(z < 0, z >= lim)

    def violated(self, c, case, outs, ins=None):
        op = self.op
        if op in ("gabs", "gpos"):
            z = c.z(self.v)
            n = self.args[0]
            lim = max(self.limit(n, 0, b) for b in self.curbases)
            alts = [z >= lim, z < -lim]
            pos = z3.If(z >= 0, I(1), I(0))
            if op == "gabs":
                alts.append(self.neq(c, outs[0], z3.If(z >= 0, z, -z)))
                alts.append(self.neq(c, outs[1], pos))
            else:
                alts.append(self.neq(c, outs[0], pos))
            return z3.Or(alts)
        if op in ("gmax", "gmin"):
            a, b = c.z(self.a), c.z(self.b)
            lim = max(self.limit(self.args[0], 0, x) for x in self.curbases)
            want = z3.If(a >= b, a, b) if op == "gmax" else z3.If(a >= b, b, a)
            return z3.Or(a - b >= lim, b - a > lim, self.neq(c, outs[0], want))
        if op == "geq":
            return self.neq(c, outs[0], z3.If(c.z(self.a) == c.z(self.b), I(1), I(0)))
        if op == "pow2":
            z = c.z(self.v)
            k = c.decide(z3.If(z < 0, I(-1), z3.If(z >= self.size, I(self.size), z)), "exponent")
            if k < 0 or k >= self.size:
                return z3.BoolVal(True)
            return self.neq(c, outs[0], I(1 << k))
        if op == "rc":
            return self.bad_range(c, self.v, self.args[0], self.args[1])
        if op == "rcmulti":
            return z3.Or([self.bad_range(c, v, self.args[2 * i], self.args[2 * i + 1]) for i, v in enumerate(self.vs)])
        if op == "rcdup":
            return z3.Or([self.bad_range(c, self.v, self.args[2 * i], self.args[2 * i + 1]) for i in range(len(self.args) // 2)])
        raise KeyError(op)

    def neq(self, c, o, e):
        lo, hi = c.interval(o.f)
        if -c.p // 2 < lo and hi < c.p // 2 and o.k < 60:
            return c.z(o.f) != e * (1 << o.k)
        i = c.int_atom("exp", -(c.p // 4), c.p // 4)
        c.s.add(c.atoms[i].z == e)
        return z3.Not(c.eq0(c.sub(o, Val(Form(0, {i: 1})))))

    def judge(self, ins, outs, p, base=None):
        """accepted run: True fine, False violation"""
        cen = lambda v: v - p if v > p // 2 else v
        op = self.op
        base = base or max(self.bases)
        if op in ("gabs", "gpos"):
            v = cen(ins[0])
            lim = self.limit(self.args[0], 0, base)
            if not -lim <= v < lim:
                return False
            if op == "gabs":
                return outs == [abs(v), int(v >= 0)]
            return outs == [int(v >= 0)]
        if op in ("gmax", "gmin"):
            a, b = cen(ins[0]), cen(ins[1])
            lim = self.limit(self.args[0], 0, base)
            if not -lim <= a - b < lim:
                return False
            return (outs[0] - (max(a, b) if op == "gmax" else min(a, b))) % p == 0
        if op == "geq":
            return outs == [int(ins[0] == ins[1])]
        if op == "pow2":
            v = cen(ins[0])
            return 0 <= v < self.size and outs == [1 << v]
        lims = []
        for i in range(len(self.args) // 2):
            n, mode = self.args[2 * i], self.args[2 * i + 1]
            v = ins[i] if op == "rcmulti" else ins[0]
            if mode == 1 and not -(1 << (n + 32)) <= cen(v) <= 1 << (n + 32):
                return None
            lims.append(0 <= cen(v) < self.limit(n, mode, base) or (mode != 1 and v < self.limit(n, mode, base)))
        return all(lims)

    curbases = (17,)


class HGSpec(GSpec):
    def setup(self, c, case):
        op = self.op
        if op in ("gabs", "gpos"):
            n = 1 << self.args[0]
            self.v = c.int_val("v", -n + 1, n - 1)
            return [self.v]
        if op in ("gmax", "gmin"):
            n = 1 << self.args[0]
            self.a = c.int_val("a", -self.B(), self.B())
            self.b = c.add(self.a, c.int_val("d", -n + 1, n - 1))
            return [self.a, self.b]
        if op == "pow2":
            self.v = c.int_val("v", 0, self.size - 1)
            return [self.v]
        if op == "rc":
            return [c.int_val("v", 0, (1 << self.args[0]) - 1)]
        if op == "rcdup":
            return [c.int_val("v", 0, (1 << min(self.args[0::2])) - 1)]
        if op == "rcmulti":
            return [c.int_val("v%d" % i, 0, (1 << n) - 1) for i, n in enumerate(self.args[0::2])]
        if op == "mixed":
            return [c.int_val("e%d" % i, 0, self.size - 1) for i in range(2)] + \
                [c.int_val("v%d" % i, 0, (1 << n) - 1) for i, n in enumerate(self.args[0::2])]
        if op == "empty":
            return [c.int_val("v", 0, c.p - 1)]
        return super().setup(c, case)

    def provable(self, ins, p):
        cen = lambda v: v - p if v > p // 2 else v
        op, a = self.op, self.args
        if op in ("gabs", "gpos"):
            ok = abs(cen(ins[0])) < 1 << a[0]
        elif op in ("gmax", "gmin"):
            ok = abs(cen(ins[0]) - cen(ins[1])) < 1 << a[0]
        elif op == "pow2":
            ok = ins[0] < self.size
        elif op == "rc":
            ok = ins[0] < 1 << a[0]
        elif op == "rcdup":
            ok = ins[0] < 1 << min(a[0::2])
        elif op == "rcmulti":
            ok = all(v < 1 << n for v, n in zip(ins, a[0::2]))
        elif op == "mixed":
            ok = all(v < self.size for v in ins[:2]) and all(v < 1 << n for v, n in zip(ins[2:], a[0::2]))
        else:
            ok = True
        return True if ok else None


# ---------------------------------------------------------------- several gadget calls in one circuit

OPS = ["gabs", "gpos", "gmax", "gmin", "geq", "pow2", "rc"]
CONST = 5


def steps(args):
    for i in range(0, len(args), 3):
        yield OPS[args[i]], args[i + 1], args[i + 2]


def two(op):
    return op in ("gmax", "gmin", "geq")


def arity(op, mode):
    return 1 if mode == 3 else (2 if two(op) else 1) - (mode != 0)


def nouts(op):
    return 2 if op == "gabs" else 0 if op == "rc" else 1


class GMulti(GSpec):
    """args: (opcode, length, mode) for each call, see MultiConst in go/ops. A case looks at one call, with
    all values of its operands; the operands of the others are 0 there."""
    sub = GSpec

    def __init__(self, op, fm, args=(), bases=range(2, 18)):
        super().__init__(op, fm, args, bases)
        self.steps = list(steps(self.args))

    def cases(self):
        return [dict(k="call %d" % i, i=i) for i, (op, n, m) in enumerate(self.steps) if arity(op, m)]

    def one(self, i):
        op, n, mode = self.steps[i]
        s = self.sub(op, self.fm, [n, 2], self.bases)
        s.curbases = self.curbases
        return s

    def setup(self, c, case):
        ins = []
        for i, (op, n, mode) in enumerate(self.steps):
            k = arity(op, mode)
            if i != case["i"]:
                ins += [con(0)] * k
                continue
            s = self.s = self.one(i)
            if not two(op):
                vs = s.setup(c, case)
            elif mode == 0:
                vs = s.setup(c, case)
            else:
                vs = [self.single(c, op, n, mode)]
                full = {1: [con(CONST)] + vs, 2: vs + [con(CONST)], 3: vs * 2}[mode]
                s.a, s.b = full
            ins += vs
        return ins

    def single(self, c, op, n, mode):
        B = self.one(0).B()
        return c.int_val("a", 0, c.p - 1) if op == "geq" else c.int_val("a", -B, B)

    def violated(self, c, case, outs, ins=None):
        o = 0
        for i, (op, n, mode) in enumerate(self.steps):
            k = nouts(op)
            if i == case["i"]:
                return self.s.violated(c, case, outs[o:o + k])
            o += k

    def split(self, ins, outs):
        a = o = 0
        for i, (op, n, mode) in enumerate(self.steps):
            k = arity(op, mode)
            vs = ins[a:a + k]
            a += k
            if mode:
                vs = [CONST] if not two(op) else {1: [CONST] + vs, 2: vs + [CONST], 3: vs * 2}[mode]
            yield i, vs, outs[o:o + nouts(op)]
            o += nouts(op)

    def judge(self, ins, outs, p, base=None):
        r = [self.one(i).judge(vs, os, p, base) for i, vs, os in self.split(ins, outs)]
        return False if False in r else None if None in r else True


class HGMulti(GMulti):
    sub = HGSpec

    def single(self, c, op, n, mode):
        if op == "geq":
            return c.int_val("a", 0, c.p - 1)
        if mode == 3:
            return c.int_val("a", -self.one(0).B(), self.one(0).B())
        return c.int_val("a", CONST - (1 << n) + 1, CONST + (1 << n) - 1)

    def provable(self, ins, p):
        return True if all(self.one(i).provable(vs, p) is True for i, vs, _ in self.split(ins, [0] * 99)) else None
