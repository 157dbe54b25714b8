"""Symbolic execution of Go SSA (dumped by gossa from /repo's current tree) with z3.

Machine integers and big integers are mathematical integers with intervals; machine
operations wrap explicitly, so the semantics is exact.  Branches on symbolic conditions
fork; paths are re-executed from the start with a prefix of decisions.
"""
import json
import math
import os
import struct
import subprocess
import time
import traceback
from fractions import Fraction
import z3
import vrec
from engine import Stats

I = z3.IntVal
PKG = "github.com/tumberger/zk-Location/"


class Unsupported(Exception):
    """the code is outside what the executor encodes"""


class GoPanic(Exception):
    pass


class Infeasible(Exception):
    pass


class IV:
    """integer term with an interval; c and t give it as a linear combination of atoms
    (t: term id -> (term, coefficient, lo, hi))"""
    __slots__ = ("z", "lo", "hi", "c", "t")

    def __init__(self, z, lo, hi, c=0, t=None):
        self.z, self.lo, self.hi, self.c = z, lo, hi, c
        self.t = t if t is not None else {z.get_id(): (z, 1, lo, hi)}

    def __repr__(self):
        return "IV[%s..%s]" % (self.lo, self.hi)


def iz(a):
    return a.z if isinstance(a, IV) else z3.IntVal(a)


def lo(a):
    return a.lo if isinstance(a, IV) else a


def hi(a):
    return a.hi if isinstance(a, IV) else a


def linear(c, t, l=None, h=None):
    """the integer c + sum of t, within [l, h] if known"""
    if not t:
        return c
    a = b = c
    for _, k, x, y in t.values():
        if k > 0:
            a, b = a + k * x, b + k * y
        else:
            a, b = a + k * y, b + k * x
    if l is not None:
        a, b = max(a, l), min(b, h)
    es = [z if k == 1 else k * z for z, k, _, _ in t.values()]
    if c or not es:
        es.append(z3.IntVal(c))
    return IV(es[0] if len(es) == 1 else z3.Sum(es), a, b, c, t)


def combine(a, ka, b, kb):
    """ka*a + kb*b"""
    c = 0
    t = {}
    for v, k in ((a, ka), (b, kb)):
        if isinstance(v, int):
            c += k * v
            continue
        c += k * v.c
        for i, (z, q, l, h) in v.t.items():
            o = t.get(i)
            if o is None:
                t[i] = (z, k * q, l, h)
            elif o[1] + k * q:
                t[i] = (z, o[1] + k * q, max(l, o[2]), min(h, o[3]))
            else:
                del t[i]
    return c, t


def isint(a):
    return isinstance(a, (int, IV)) and not isinstance(a, bool)


class Big:
    """the contents of a big.Int"""
    __slots__ = ("v",)

    def __init__(self, v=0):
        self.v = v


class FBits:
    """a float given by its bit pattern"""
    __slots__ = ("b", "n")

    def __init__(self, b, n):
        self.b, self.n = b, n


class Ptr:
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.c is o.c and self.i == o.i

    def __hash__(self):
        return hash((id(self.c), self.i))


class Slice:
    __slots__ = ("a", "off", "n", "cap")

    def __init__(self, a, off, n, cap):
        self.a, self.off, self.n, self.cap = a, off, n, cap

    def items(self):
        return self.a[self.off:self.off + self.n]


class Iface:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Func:
    __slots__ = ("n", "bind")

    def __init__(self, n, bind=()):
        self.n, self.bind = n, bind


class Struct(list):
    pass


class Array(list):
    pass


def copyv(v):
    if isinstance(v, Struct):
        return Struct(copyv(x) for x in v)
    if isinstance(v, Array):
        return Array(copyv(x) for x in v)
    return v


INTS = {"int": (64, 1), "int8": (8, 1), "int16": (16, 1), "int32": (32, 1), "int64": (64, 1), "uint": (64, 0), "uint8": (8, 0),
        "uint16": (16, 0), "uint32": (32, 0), "uint64": (64, 0), "uintptr": (64, 0), "byte": (8, 0), "rune": (32, 1)}


class Program:
    def __init__(self, d):
        self.types = d["types"]
        self.funcs = {f["name"]: f for f in d["funcs"]}
        self.byname = {}
        for f in d["funcs"]:
            f["hot"] = None

    def find(self, pkg, name):
        """function `name` (or method "T.m") of a package of the repository"""
        p = PKG + pkg
        for cand in (p + "." + name, "(*%s.%s)" % (p, name.split(".")[0]) + "." + name.split(".")[-1],
                     "(%s.%s)" % (p, name.split(".")[0]) + "." + name.split(".")[-1]):
            if cand in self.funcs:
                return cand
        return None


_cache = {}


def program(pkgs=("./hint", "./gadget", "./util", "./float", "./math", "./loc2index32", "./loc2index64"), extra=()):
    """builds gossa and dumps the packages"""
    key = tuple(pkgs) + tuple(extra)
    if key in _cache:
        return _cache[key]
    out = os.path.join(vrec.BUILD, "gossa.%d" % os.getpid())
    os.makedirs(vrec.BUILD, exist_ok=True)
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(vrec.VERIF, "gossa"), env=vrec.goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        raise vrec.BuildError("gossa: " + r.stdout.decode(errors="replace")[-2000:])
    try:
        r = subprocess.run([out, vrec.REPO] + list(key), env=vrec.goenv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    finally:
        os.remove(out)
    if r.returncode:
        raise vrec.BuildError("gossa: " + r.stderr.decode(errors="replace")[-2000:])
    p = Program(json.loads(r.stdout))
    _cache[key] = p
    return p


class Machine:
    """one path"""
    MAXSTEPS = 4000000

    def __init__(self, prog, path=(), timeout=20000, stats=None, globals_=None):
        self.p = prog
        self.T = prog.types
        self.path = list(path)
        self.pos = 0
        self.alts = []
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.stats = stats or Stats()
        self.n = 0
        self.steps = 0
        self.memo = {}
        self.glob = globals_ if globals_ is not None else {}
        self.hooks = {}         # function name -> python callable(machine, args)
        self.fops = None        # operations on unknown floats (FV)
        self.invokes = {}       # interface method -> callable(machine, recv, args)
        self.called = set()
        self.depth = 0
        self.bounds = {}        # term id -> (lo, hi, term), from the branches taken

    # ---- solver ----
    def fresh(self, name, l, h):
        self.n += 1
        z = z3.Int("%s!%d" % (name, self.n))
        self.s.add(z >= l, z <= h)
        return IV(z, l, h)

    def check(self, *a):
        t = time.time()
        r = self.s.check(*a)
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.time += dt
        self.stats.maxq = max(self.stats.maxq, dt)
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def assume(self, e):
        if e is True:
            return
        if e is False:
            raise Infeasible()
        self.s.add(e)

    def entails(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self.check(z3.Not(e)) == z3.unsat

    def branch(self, c):
        """decides a symbolic condition on this path"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.path):
            v = self.path[self.pos]
            self.pos += 1
            self.s.add(c if v else z3.Not(c))
            self.learn(c, v)
            return v
        a, b = self.check(c), self.check(z3.Not(c))
        if a == z3.unsat and b == z3.unsat:
            raise Infeasible()
        if b == z3.unsat:
            self.path.append(True)
            self.pos += 1
            self.learn(c, True)
            return True
        if a == z3.unsat:
            self.path.append(False)
            self.pos += 1
            self.learn(c, False)
            return False
        self.alts.append(self.path + [False])
        self.path.append(True)
        self.pos += 1
        self.s.add(c)
        self.learn(c, True)
        return True

    def learn(self, c, v):
        """interval facts from a decided condition"""
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.learn(c.arg(0), not v)
        if k == z3.Z3_OP_AND and v or k == z3.Z3_OP_OR and not v:
            for x in c.children():
                self.learn(x, v)
            return
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ):
            return
        x, y = c.arg(0), c.arg(1)
        if not z3.is_int(x) or not z3.is_int_value(y):
            return
        n = y.as_long()
        if k == z3.Z3_OP_EQ:
            if v:
                self.bound_term(x, n, n)
            return
        le = k == z3.Z3_OP_LE
        if v:
            self.bound_term(x, None if le else n, n if le else None)
        else:
            self.bound_term(x, n + 1 if le else None, None if le else n - 1)

    def bound_term(self, x, l, h):
        i = x.get_id()
        if i in self.bounds:
            a, b, _ = self.bounds[i]
        else:
            a, b = None, None
        if l is not None and (a is None or l > a):
            a = l
        if h is not None and (b is None or h < b):
            b = h
        self.bounds[i] = (a, b, x)

    def tighten(self, v):
        if not isinstance(v, IV):
            return v
        t = self.bounds.get(v.z.get_id())
        if t is None:
            return v
        l, h = v.lo if t[0] is None else max(v.lo, t[0]), v.hi if t[1] is None else min(v.hi, t[1])
        if l == h:
            return l
        if l > h:
            raise Infeasible()
        return IV(v.z, l, h, v.c, v.t)

    def concretize(self, v, what="value", cap=300):
        """forks over the possible values of an integer"""
        if not isinstance(v, IV):
            return v
        if v.lo == v.hi:
            return v.lo
        if self.pos < len(self.path):
            x = self.path[self.pos]
            self.pos += 1
            self.s.add(v.z == x)
            return x
        vals = []
        self.s.push()
        while True:
            r = self.check()
            if r == z3.unknown:
                self.s.pop()
                raise Unsupported("no answer while enumerating %s" % what)
            if r == z3.unsat:
                break
            x = self.s.model().eval(v.z, model_completion=True).as_long()
            vals.append(x)
            if len(vals) > cap:
                self.s.pop()
                raise Unsupported("more than %d values of %s" % (cap, what))
            self.s.add(v.z != x)
        self.s.pop()
        if not vals:
            raise Infeasible()
        for x in vals[1:]:
            self.alts.append(self.path + [x])
        self.path.append(vals[0])
        self.pos += 1
        self.s.add(v.z == vals[0])
        return vals[0]

    # ---- integers ----
    def norm(self, v):
        if isinstance(v, IV) and v.lo == v.hi:
            return v.lo
        return v

    def add(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return linear(*combine(a, 1, b, 1), lo(a) + lo(b), hi(a) + hi(b))

    def sub(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a - b
        return linear(*combine(a, 1, b, -1), lo(a) - hi(b), hi(a) - lo(b))

    def neg(self, a):
        return self.sub(0, a)

    def mul(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        if isinstance(a, IV) and isinstance(b, IV):
            for (op, x, y), r in list(self.memo.items()):
                if op == "mul" and (self.same(x, a) and self.same(y, b) or self.same(x, b) and self.same(y, a)):
                    return r
            c = [p * q for p in (a.lo, a.hi) for q in (b.lo, b.hi)]
            r = self.fresh("mul", min(c), max(c))
            self.memo[("mul", a, b)] = r
            return r
        if isinstance(a, IV):
            a, b = b, a
        if a == 0:
            return 0
        c = (a * b.lo, a * b.hi)
        return linear(*combine(b, a, 0, 0), min(c), max(c))

    def same(self, a, b):
        """semantically equal on this path?"""
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if hi(a) < lo(b) or hi(b) < lo(a):
            return False
        za, zb = iz(a), iz(b)
        if za.eq(zb):
            return True
        return self.entails(za == zb)

    def fdiv(self, a, k):
        """floor division by a positive constant"""
        a = self.tighten(a)
        if isinstance(a, int):
            return a // k
        if k == 1:
            return a
        hs, r = self.split(a, k)
        if hs is not None and lo(r) >= 0 and hi(r) < k:
            return hs
        if a.z.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(a.z.arg(1)) and a.z.arg(1).as_long() > 0:
            # nested floor divisions
            return self.norm(IV(a.z.arg(0) / (a.z.arg(1).as_long() * k), a.lo // k, a.hi // k))
        return self.norm(IV(a.z / k, a.lo // k, a.hi // k))

    def split(self, a, k):
        """a = k*q + r with linear q and r, r made of the terms that k does not divide"""
        if not any(q % k == 0 for _, q, _, _ in a.t.values()) and abs(a.c) < k:
            return None, a
        qt = {i: (z, q // k, l, h) for i, (z, q, l, h) in a.t.items() if q % k == 0}
        rt = {i: v for i, v in a.t.items() if v[1] % k}
        r = linear(a.c % k, {i: self.tbound(v) for i, v in rt.items()})
        return linear(a.c // k, qt, a.lo // k, a.hi // k), r

    def tbound(self, v):
        z, q, l, h = v
        t = self.bounds.get(z.get_id())
        if t is not None:
            l, h = l if t[0] is None else max(l, t[0]), h if t[1] is None else min(h, t[1])
        return (z, q, l, h)

    def mod(self, a, k):
        """a mod k in [0,k) for a positive constant"""
        a = self.tighten(a)
        if isinstance(a, int):
            return a % k
        if a.lo >= 0 and a.hi < k:
            return a
        if a.lo // k == a.hi // k:
            return self.sub(a, a.lo // k * k)
        _, r = self.split(a, k)
        if lo(r) >= 0 and hi(r) < k:
            return r
        if isinstance(r, int):
            return r % k
        return IV(r.z % k, 0, k - 1)

    def wrap(self, v, bits, signed):
        if isinstance(v, int):
            v &= (1 << bits) - 1
            return v - (1 << bits) if signed and v >> (bits - 1) else v
        m = -(1 << (bits - 1)) if signed else 0
        if v.lo >= m and v.hi < m + (1 << bits):
            return v
        return self.add(self.mod(self.sub(v, m), 1 << bits), m)

    def andc(self, a, mask):
        """a & mask for a >= 0 and a constant mask >= 0"""
        if isinstance(a, int):
            return a & mask
        r = 0
        i = 0
        while mask >> i:
            if not (mask >> i) & 1:
                i += 1
                continue
            j = i
            while (mask >> j) & 1:
                j += 1
            piece = self.mul(self.mod(self.fdiv(a, 1 << i), 1 << (j - i)), 1 << i)
            r = self.add(r, piece)
            i = j
        return r

    def bitop(self, o, a, b):
        """on non-negative values"""
        if isinstance(a, int) and isinstance(b, int):
            return {"&": a & b, "|": a | b, "^": a ^ b, "&^": a & ~b}[o]
        if isinstance(a, int) and o != "&^":
            a, b = b, a
        if isinstance(b, int) and b >= 0 and lo(a) >= 0:
            m = self.andc(a, b)
            return {"&": lambda: m, "|": lambda: self.sub(self.add(a, b), m), "^": lambda: self.sub(self.add(a, b), self.mul(m, 2)),
                    "&^": lambda: self.sub(a, m)}[o]()
        if o in ("|", "^") and lo(a) >= 0 and lo(b) >= 0:
            # disjoint ranges: one a multiple of a power of two above the other
            for x, y in ((a, b), (b, a)):
                k = hi(y).bit_length()
                if self.entails(iz(self.mod(x, 1 << k)) == 0):
                    return self.add(x, y)
        raise Unsupported("bitwise %s of two unknowns" % o)

    def cmp(self, o, a, b):
        a, b = self.tighten(a), self.tighten(b)
        if isinstance(a, int) and isinstance(b, int):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if o in (">", ">="):
            a, b, o = b, a, {">": "<", ">=": "<="}[o]
        if o == "<":
            if hi(a) < lo(b):
                return True
            if lo(a) >= hi(b):
                return False
            return iz(a) < iz(b)
        if o == "<=":
            if hi(a) <= lo(b):
                return True
            if lo(a) > hi(b):
                return False
            return iz(a) <= iz(b)
        if hi(a) < lo(b) or hi(b) < lo(a):
            return o == "!="
        e = iz(a) == iz(b)
        return e if o == "==" else z3.Not(e)

    def shl(self, a, n):
        if isinstance(n, IV):
            n = self.concretize(n, "a shift")
        if n < 0:
            raise GoPanic("negative shift")
        if n > 5000:
            raise Unsupported("shift by %d" % n)
        return self.mul(a, 1 << n)

    def shr(self, a, n):
        if isinstance(n, IV):
            n = self.concretize(n, "a shift")
        if n < 0:
            raise GoPanic("negative shift")
        if n > 5000:
            return -1 if isinstance(a, int) and a < 0 else self.fdiv(a, 1 << 5000)
        return self.fdiv(a, 1 << n)

    def divterm(self, a, b):
        """floor(a/b) for a >= 0, b > 0"""
        if isinstance(b, int):
            return self.fdiv(a, b)
        for (op, x, y), r in list(self.memo.items()):
            if op == "div" and self.same(x, a) and self.same(y, b):
                return r
        r = self.fresh("div", lo(a) // max(1, hi(b)), hi(a) // max(1, lo(b)))
        self.memo[("div", a, b)] = r
        P = self.mul(r, b)
        self.s.add(iz(P) <= iz(a), iz(a) < iz(P) + iz(b))
        return r

    def sqrtterm(self, a):
        if isinstance(a, int):
            return math.isqrt(a)
        for (op, x, y), r in list(self.memo.items()):
            if op == "sqrt" and self.same(x, a):
                return r
        r = self.fresh("sqrt", math.isqrt(max(0, a.lo)), math.isqrt(a.hi))
        self.memo[("sqrt", a, 0)] = r
        P = self.mul(r, r)
        self.s.add(iz(P) <= a.z, a.z <= iz(P) + 2 * r.z)
        return r

    def bitlen(self, a):
        a = self.tighten(a)
        if isinstance(a, int):
            return abs(a).bit_length()
        if a.lo < 0:
            raise Unsupported("bit length of a possibly negative integer")
        l, h = a.lo.bit_length(), a.hi.bit_length()
        while l < h:
            m = (l + h) // 2
            # bit length > m iff a >= 2^m
            if self.branch(a.z >= (1 << m)):
                l = m + 1
            else:
                h = m
        return l

    # ---- types ----
    def zero(self, t):
        ty = self.T[t]
        k = ty["kind"]
        if k == "basic":
            n = ty["name"]
            if n in INTS:
                return 0
            if n in ("float64", "float32"):
                return 0.0
            if n == "bool":
                return False
            if n == "string":
                return ""
            return None
        if k == "struct":
            if ty.get("named") == "Int" and ty.get("pkg") == "math/big":
                return Big(0)
            return Struct(self.zero(f[1]) for f in ty["fields"])
        if k == "array":
            return Array(self.zero(ty["elem"]) for _ in range(ty["len"]))
        if k == "tuple":
            return tuple(self.zero(e) for e in ty["elems"])
        return None

    def intkind(self, t):
        ty = self.T[t]
        return INTS.get(ty.get("name")) if ty["kind"] == "basic" else None

    def const(self, o):
        if o.get("nil"):
            return self.zero(o["t"])
        ty = self.T[o["t"]]
        v = o["v"]
        if ty["kind"] == "basic":
            n = ty["name"]
            if n in INTS or n in ("untyped int", "untyped rune"):
                return int(v)
            if n in ("float64", "untyped float"):
                return float(Fraction(v))
            if n == "float32":
                return f32(Fraction(v))
            if n in ("bool", "untyped bool"):
                return bool(v)
            if n in ("string", "untyped string"):
                return v
        raise Unsupported("constant of type %s" % ty["str"])

    # ---- execution ----
    def load(self, p):
        if p is None:
            raise GoPanic("nil dereference")
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        return copyv(p.c[p.i])

    def store(self, p, v):
        if p is None:
            raise GoPanic("nil dereference")
        if isinstance(p.c[p.i], Big) and isinstance(v, Big):
            p.c[p.i] = Big(v.v)
        else:
            p.c[p.i] = copyv(v)

    def newbig(self, v):
        return Ptr([Big(v)], 0)

    def bigv(self, p):
        if p is None:
            raise GoPanic("nil big.Int")
        return p.c[p.i].v

    def call(self, name, args, free=()):
        if name in self.hooks:
            return self.hooks[name](self, args)
        f = self.p.funcs.get(name)
        if f is None and name.endswith("$bound"):
            return self.call(name[:-6], list(free) + list(args))
        if f is None and name.endswith("$thunk"):
            return self.call(name[:-6], args)
        if f is None or not f["blocks"]:
            return external(self, name, args)
        self.called.add(name)
        self.depth += 1
        if self.depth > 200:
            raise Unsupported("recursion")
        try:
            return self.run(f, args, free)
        finally:
            self.depth -= 1

    def run(self, f, args, free):
        R = {}
        for (n, _), a in zip(f["params"] or (), args):
            R[n] = copyv(a)
        for n, a in zip(f["free"] or (), free):
            R[n] = a
        bi, prev = 0, None
        T = self.T

        def V(o):
            k = o["k"]
            if k == "reg":
                return R[o["n"]]
            if k == "const":
                c = o.get("c", V)
                if c is V:
                    c = self.const(o)
                    if not isinstance(c, (Struct, Array, Big)):
                        o["c"] = c
                    return c
                return c
            if k == "func":
                return Func(o["n"])
            if k == "global":
                return self.globalptr(o)
            if k == "builtin":
                return o["n"]
            raise Unsupported("operand %s" % k)
        defers = []
        while True:
            b = f["blocks"][bi]
            phis = []
            nxt = None
            for i in b["i"]:
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Unsupported("too many steps")
                op = i["op"]
                if op == "phi":
                    phis.append((i["r"], V(i["edges"][b["p"].index(prev)])))
                    continue
                if phis:
                    for r, v in phis:
                        R[r] = v
                    phis = []
                if op == "binop":
                    R[i["r"]] = self.binop(i, V(i["x"]), V(i["y"]))
                elif op == "unop":
                    R[i["r"]] = self.unop(i, V(i["x"]))
                elif op == "call":
                    R[i["r"]] = self.docall(i, V)
                elif op == "defer":
                    fn = V(i["fn"]) if "fn" in i else None
                    defers.append((fn, [V(a) for a in i["args"] or ()]))
                elif op == "rundefers":
                    for fn, a in reversed(defers):
                        self.callv(fn, a)
                    defers = []
                elif op == "if":
                    nxt = b["s"][0] if self.branch(self.truth(V(i["x"]))) else b["s"][1]
                elif op == "jump":
                    nxt = b["s"][0]
                elif op == "return":
                    r = [copyv(V(x)) for x in i["res"] or ()]
                    return r[0] if len(r) == 1 else tuple(r)
                elif op == "panic":
                    raise GoPanic("panic at line %s" % i.get("line"))
                elif op == "store":
                    self.store(V(i["addr"]), V(i["x"]))
                elif op == "alloc":
                    R[i["r"]] = Ptr([self.zero(T[i["t"]]["elem"])], 0)
                elif op == "indexaddr":
                    x, ix = V(i["x"]), V(i["i"])
                    R[i["r"]] = self.indexaddr(x, ix)
                elif op == "index":
                    x, ix = V(i["x"]), V(i["i"])
                    if isinstance(x, str):
                        R[i["r"]] = self.strindex(x, ix)
                    elif isinstance(x, (list,)):
                        ix = self.concretize(ix, "an index")
                        self.bound(ix, len(x))
                        R[i["r"]] = x[ix]
                    else:
                        R[i["r"]] = self.strindex(x, ix)
                elif op == "fieldaddr":
                    p = V(i["x"])
                    if p is None:
                        raise GoPanic("nil dereference")
                    s = p.c[p.i]
                    if not isinstance(s, Struct):
                        raise Unsupported("field of %r" % (s,))
                    R[i["r"]] = Ptr(s, i["f"])
                elif op == "field":
                    R[i["r"]] = V(i["x"])[i["f"]]
                elif op == "slice":
                    R[i["r"]] = self.doslice(V(i["x"]), *[None if i[k] is None else V(i[k]) for k in ("lo", "hi", "max")])
                elif op == "makeslice":
                    n = self.concretize(V(i["len"]), "a length")
                    if n < 0:
                        raise GoPanic("negative length")
                    el = T[i["t"]]["elem"]
                    a = [self.zero(el) for _ in range(n)]
                    R[i["r"]] = Slice(a, 0, n, n)
                elif op == "mkiface":
                    R[i["r"]] = Iface(i["xt"], copyv(V(i["x"])))
                elif op == "convert":
                    R[i["r"]] = self.convert(V(i["x"]), i["xt"], i["t"])
                elif op == "changetype":
                    R[i["r"]] = V(i["x"])
                elif op == "typeassert":
                    R[i["r"]] = self.typeassert(V(i["x"]), i["at"], i["commaok"])
                elif op == "extract":
                    R[i["r"]] = V(i["x"])[i["i"]]
                elif op == "closure":
                    R[i["r"]] = Func(V(i["fn"]).n, [V(x) for x in i["bind"]])
                elif op == "makemap":
                    R[i["r"]] = {}
                elif op == "mapupdate":
                    k = V(i["key"])
                    R_ = V(i["x"])
                    if isinstance(k, IV):
                        k = self.concretize(k, "a map key")
                    R_[self.mapkey(k)] = V(i["v"])
                elif op == "lookup":
                    x, k = V(i["x"]), V(i["i"])
                    if isinstance(x, dict) or x is None:
                        k = self.mapkey(self.concretize(k) if isinstance(k, IV) else k)
                        ok = x is not None and k in x
                        v = x[k] if ok else self.zero(T[i["t"]]["elems"][0] if i["commaok"] else i["t"])
                        R[i["r"]] = (v, ok) if i["commaok"] else v
                    else:
                        R[i["r"]] = self.strindex(x, k)
                elif op == "range":
                    x = V(i["x"])
                    if isinstance(x, str) and x.isascii():
                        x = tuple(x.encode())
                    elif isinstance(x, (str, SymStr)):
                        x = symbytes(x)
                    else:
                        raise Unsupported("range over %r" % (x,))
                    R[i["r"]] = [x, 0]
                elif op == "next":
                    it = V(i["x"])
                    if it[1] >= len(it[0]):
                        R[i["r"]] = (False, 0, 0)
                    else:
                        c, k = self.rune(it[0], it[1])
                        R[i["r"]] = (True, it[1], c)
                        it[1] += k
                else:
                    raise Unsupported("instruction %s" % op)
            for r, v in phis:
                R[r] = v
            prev, bi = bi, nxt

    def rune(self, s, k):
        """the character of a text at byte k, and how many bytes it takes"""
        b = [c for c in s[k:k + 4]]
        if any(not isinstance(c, (int, IV)) for c in b):
            raise Unsupported("characters of a formatted unknown")
        c = b[0]
        if hi(c) < 128 or self.branch(iz(c) < 128):
            return c, 1
        cont = lambda x, l=0x80, h=0xbf: z3.And(iz(x) >= l, iz(x) <= h)
        if len(b) > 1 and self.branch(z3.And(iz(c) >= 0xc2, iz(c) <= 0xdf, cont(b[1]))):
            return self.add(self.mul(self.sub(c, 0xc0), 64), self.sub(b[1], 0x80)), 2
        if len(b) > 2 and self.branch(z3.And(iz(c) >= 0xe0, iz(c) <= 0xef, cont(b[1]), cont(b[2]),
                                             z3.Implies(iz(c) == 0xe0, iz(b[1]) >= 0xa0), z3.Implies(iz(c) == 0xed, iz(b[1]) <= 0x9f))):
            v = self.add(self.mul(self.sub(c, 0xe0), 64), self.sub(b[1], 0x80))
            return self.add(self.mul(v, 64), self.sub(b[2], 0x80)), 3
        if len(b) > 3 and self.branch(z3.And(iz(c) >= 0xf0, iz(c) <= 0xf4, cont(b[1]), cont(b[2]), cont(b[3]),
                                             z3.Implies(iz(c) == 0xf0, iz(b[1]) >= 0x90), z3.Implies(iz(c) == 0xf4, iz(b[1]) <= 0x8f))):
            v = self.add(self.mul(self.sub(c, 0xf0), 64), self.sub(b[1], 0x80))
            v = self.add(self.mul(v, 64), self.sub(b[2], 0x80))
            return self.add(self.mul(v, 64), self.sub(b[3], 0x80)), 4
        return 0xfffd, 1

    def mapkey(self, k):
        return k

    def truth(self, v):
        return v

    def bound(self, i, n):
        if not 0 <= i < n:
            raise GoPanic("index %d out of range %d" % (i, n))

    def strindex(self, x, i):
        bs = x if isinstance(x, (tuple, SymStr)) else x.encode("latin-1") if isinstance(x, str) else x
        n = len(bs)
        if isinstance(i, IV):
            if not self.branch(z3.And(i.z >= 0, i.z < n)):
                raise GoPanic("index out of range")
            if isinstance(bs, bytes):
                e = z3.IntVal(bs[n - 1])
                for k in range(n - 2, -1, -1):
                    e = z3.If(i.z == k, z3.IntVal(bs[k]), e)
                # group equal values to keep the term small
                return IV(e, min(bs), max(bs))
            i = self.concretize(i, "an index")
        self.bound(i, n)
        return bs[i]

    def indexaddr(self, x, ix):
        if isinstance(ix, IV):
            ix = self.concretize(ix, "an index")
        if isinstance(x, Slice):
            self.bound(ix, x.n)
            return Ptr(x.a, x.off + ix)
        if isinstance(x, Ptr):
            a = x.c[x.i]
            self.bound(ix, len(a))
            return Ptr(a, ix)
        if x is None:
            raise GoPanic("index of a nil slice")
        raise Unsupported("index of %r" % (x,))

    def doslice(self, x, l, h, m):
        l, h, m = [self.concretize(v, "a slice bound") if isinstance(v, IV) else v for v in (l, h, m)]
        l = l or 0
        if isinstance(x, str):
            h = len(x) if h is None else h
            if not 0 <= l <= h <= len(x):
                raise GoPanic("slice bounds")
            return x[l:h]
        if isinstance(x, SymStr):
            h = len(x) if h is None else h
            if not 0 <= l <= h <= len(x):
                raise GoPanic("slice bounds")
            return SymStr(x[l:h])
        if x is None:
            if l or h:
                raise GoPanic("slice bounds")
            return None
        if isinstance(x, Ptr):
            a = x.c[x.i]
            x = Slice(a, 0, len(a), len(a))
        h = x.n if h is None else h
        m = x.cap if m is None else m
        if not 0 <= l <= h <= m <= x.cap:
            raise GoPanic("slice bounds")
        # a slice beyond the filled part: extend the backing list
        while len(x.a) < x.off + m:
            x.a.append(copyv(x.a[-1]) if x.a else None)
        return Slice(x.a, x.off + l, h - l, m - l)

    def typeassert(self, v, t, commaok):
        ty = self.T[t]
        ok = False
        r = None
        if isinstance(v, Iface):
            if ty["kind"] == "iface":
                raise Unsupported("assertion to the interface %s" % ty["str"])
            ok = v.t == t
            r = v.v
        elif v is None:
            ok = False
        else:
            return self.opaque_assert(v, t, commaok)
        if commaok:
            return (copyv(r) if ok else self.zero(t), ok)
        if not ok:
            raise GoPanic("type assertion")
        return copyv(r)

    def opaque_assert(self, v, t, commaok):
        raise Unsupported("type assertion of %r" % (v,))

    def globalptr(self, o):
        n = o["n"]
        if n not in self.glob:
            t = self.T[o["t"]]["elem"]
            self.glob[n] = [self.zero(t)]
        return Ptr(self.glob[n], 0)

    def docall(self, i, V):
        args = [V(a) for a in i["args"] or ()]
        if "invoke" in i:
            recv = V(i["recv"])
            m = i["invoke"]
            if m in self.invokes:
                return self.invokes[m](self, recv, args)
            raise Unsupported("interface method %s" % m)
        if "builtin" in i:
            return self.builtin(i["builtin"], args, i)
        if "callee" in i:
            fn = V(i["fn"])
            return self.call(i["callee"], args, fn.bind if isinstance(fn, Func) else ())
        return self.callv(V(i["fn"]), args)

    def callv(self, fn, args):
        if isinstance(fn, Func):
            return self.call(fn.n, args, fn.bind)
        if callable(fn):
            return fn(self, args)
        raise Unsupported("call of %r" % (fn,))

    def builtin(self, n, a, i):
        if n == "len":
            x = a[0]
            if x is None:
                return 0
            if isinstance(x, Slice):
                return x.n
            if isinstance(x, Ptr):
                return len(x.c[x.i])
            return len(x)
        if n == "cap":
            return a[0].cap if a[0] is not None else 0
        if n == "append":
            s, t = a
            if t is None:
                return s
            items = list(t.encode("latin-1")) if isinstance(t, str) else list(t) if isinstance(t, SymStr) else [copyv(v) for v in t.items()]
            if s is None:
                s = Slice([], 0, 0, 0)
            if s.n + len(items) <= s.cap and len(s.a) >= s.off + s.n:
                # room in place
                for k, v in enumerate(items):
                    j = s.off + s.n + k
                    if j < len(s.a):
                        s.a[j] = v
                    else:
                        s.a.append(v)
                return Slice(s.a, s.off, s.n + len(items), s.cap)
            arr = [copyv(v) for v in s.items()] + items
            return Slice(arr, 0, len(arr), len(arr))
        if n == "copy":
            d, s = a
            src = list(s.encode("latin-1")) if isinstance(s, str) else list(s) if isinstance(s, SymStr) else ([] if s is None else s.items())
            k = min(d.n if d else 0, len(src))
            for j in range(k):
                d.a[d.off + j] = copyv(src[j])
            return k
        if n in ("min", "max") and any(isinstance(x, (FV, FBits)) for x in a) and self.fops:
            r = a[0]
            for x in a[1:]:
                r = self.fops.call(self, "math.Min" if n == "min" else "math.Max", [r, x])
            return r
        if n in ("min", "max"):
            r = a[0]
            for x in a[1:]:
                r = (r if self.branch(self.cmp("<=" if n == "min" else ">=", r, x)) else x)
            return r
        if n == "panic":
            raise GoPanic("panic")
        if n == "ssa:wrapnilchk":
            return a[0]
        if n in ("print", "println"):
            return None
        raise Unsupported("builtin %s" % n)

    def unop(self, i, x):
        o = i["o"]
        if o == "*":
            return self.load(x)
        if o == "-":
            if isinstance(x, float):
                return -x
            if isinstance(x, FV) or self.fops and isinstance(x, FBits):
                return self.fops.neg(x)
            b = self.intkind(i["t"])
            return self.wrap(self.neg(x), *b)
        if o == "!":
            return (not x) if isinstance(x, bool) else z3.Not(x)
        if o == "^":
            b = self.intkind(i["t"])
            return self.wrap(self.sub(-1, x), *b)
        raise Unsupported("operator %s" % o)

    def binop(self, i, x, y):
        o = i["o"]
        if isint(x) and isint(y):
            if o in ("==", "!=", "<", "<=", ">", ">="):
                return self.cmp(o, x, y)
            k = self.intkind(i["t"])
            if k is None:
                raise Unsupported("integer type")
            bits, sg = k
            if o == "+":
                return self.wrap(self.add(x, y), bits, sg)
            if o == "-":
                return self.wrap(self.sub(x, y), bits, sg)
            if o == "*":
                return self.wrap(self.mul(x, y), bits, sg)
            if o == "<<":
                if hi(y) >= bits:
                    if isinstance(y, IV):
                        y = self.concretize(y, "a shift")
                    if y >= bits:
                        return 0
                return self.wrap(self.shl(x, y), bits, sg)
            if o == ">>":
                if isinstance(y, IV):
                    y = self.concretize(y, "a shift")
                return self.shr(x, min(y, bits))
            if o in ("/", "%"):
                if isinstance(y, IV):
                    if self.branch(y.z == 0):
                        raise GoPanic("division by zero")
                    if lo(x) >= 0 and self.entails(y.z > 0):
                        q = self.divterm(x, IV(y.z, max(1, y.lo), y.hi, y.c, y.t))
                        return q if o == "/" else self.sub(x, self.mul(q, y))
                    raise Unsupported("division by an unknown")
                if y == 0:
                    raise GoPanic("division by zero")
                if isinstance(x, int):
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return self.wrap(q, bits, sg) if o == "/" else x - q * y
                if y < 0:
                    raise Unsupported("division by a negative constant")
                if lo(x) >= 0 or self.entails(x.z >= 0):
                    x = IV(x.z, max(0, x.lo), x.hi, x.c, x.t) if isinstance(x, IV) else x
                    return self.fdiv(x, y) if o == "/" else self.mod(x, y)
                e = z3.If(x.z >= 0, x.z / y, -((-x.z) / y))
                c = (-((-x.lo) // y) if x.lo < 0 else x.lo // y, x.hi // y if x.hi >= 0 else -((-x.hi) // y))
                q = IV(e, min(c), max(c))
                return q if o == "/" else IV(x.z - e * y, -(y - 1), y - 1)
            if o in ("&", "|", "^", "&^"):
                if sg and (lo(x) < 0 or lo(y) < 0):
                    if isinstance(x, int) and isinstance(y, int):
                        return {"&": x & y, "|": x | y, "^": x ^ y, "&^": x & ~y}[o]
                    x = self.wrap(x, bits, 0)
                    y = self.wrap(y, bits, 0)
                    return self.wrap(self.bitop(o, x, y), bits, 1)
                return self.wrap(self.bitop(o, x, y), bits, sg)
            raise Unsupported("operator %s" % o)
        if isinstance(x, FV) or isinstance(y, FV) or self.fops and (isinstance(x, FBits) or isinstance(y, FBits)):
            return self.fops.binop(self, o, x, y)
        if isinstance(x, float) and isinstance(y, float):
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: fdiv_(x, y), "<": lambda: x < y, "<=": lambda: x <= y,
                 ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[o]()
            if isinstance(r, float) and self.T[i["t"]]["name"] == "float32":
                r = f32(r)
            return r
        isb = lambda v: isinstance(v, bool) or z3.is_bool(v)
        if isb(x) and isb(y):
            if isinstance(x, bool) and isinstance(y, bool):
                return (x == y) if o == "==" else (x != y)
            x = z3.BoolVal(x) if isinstance(x, bool) else x
            y = z3.BoolVal(y) if isinstance(y, bool) else y
            return (x == y) if o == "==" else z3.Xor(x, y)
        if isinstance(x, str) and isinstance(y, str):
            return {"+": lambda: x + y, "==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y}[o]()
        if isinstance(x, SymStr) or isinstance(y, SymStr):
            if o in ("==", "!="):
                a, b = symbytes(x), symbytes(y)
                if len(a) != len(b):
                    return o == "!="
                e = z3.And([iz(p) == iz(q) for p, q in zip(a, b)] or [z3.BoolVal(True)])
                return e if o == "==" else z3.Not(e)
        if o in ("==", "!="):
            if x is None or y is None:
                r = x is None and y is None
                return r if o == "==" else not r
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return (x == y) if o == "==" else not (x == y)
            if isinstance(x, Iface) and isinstance(y, Iface):
                if x.t != y.t:
                    return o == "!="
                return self.binop(dict(i, o=o), x.v, y.v)
            if isinstance(x, (Array, Struct)) and type(x) is type(y) and len(x) == len(y):
                for p, q in zip(x, y):
                    if not self.branch(self.binop(dict(i, o="=="), p, q)):
                        return o == "!="
                return o == "=="
        raise Unsupported("operator %s on %r, %r" % (o, x, y))

    def convert(self, v, ft, tt):
        k = self.intkind(tt)
        ty = self.T[tt]
        if isint(v):
            if k:
                return self.wrap(v, *k)
            if ty["kind"] == "basic" and ty["name"] in ("float64", "float32"):
                if isinstance(v, IV):
                    if getattr(self.fops, "ints", False):
                        return self.fops.conv(self, v, 64 if ty["name"] == "float64" else 32)
                    raise Unsupported("conversion of an unknown to a float")
                return float(v) if ty["name"] == "float64" else f32(v)
        if isinstance(v, float):
            if k:
                return self.wrap(int(v), *k)
            if ty["name"] == "float32":
                return f32(v)
            return v
        if self.fops and isinstance(v, (FV, FBits)) and ty["kind"] == "basic" and ty["name"] in ("float64", "float32"):
            return self.fops.conv(self, v, 64 if ty["name"] == "float64" else 32)
        if isinstance(v, FBits):
            return self.fconv(v, 32 if ty["name"] == "float32" else 64)
        if ty["kind"] == "slice" and self.T[ty["elem"]].get("name") in ("byte", "uint8"):
            b = symbytes(v)
            return Slice(list(b), 0, len(b), len(b))
        if ty["kind"] == "basic" and ty["name"] == "string":
            if isinstance(v, Slice):
                it = v.items()
                if all(isinstance(x, int) for x in it):
                    return bytes(it).decode("latin-1")
                return SymStr(it)
            if v is None:
                return ""
        raise Unsupported("conversion of %r to %s" % (v, ty["str"]))

    def fconv(self, v, n):
        if v.n == n:
            return v
        raise Unsupported("float width conversion of an unknown")


class SymStr(tuple):
    pass


class FV:
    """an unknown float; what it means is up to the machine's fops"""
    pass


def symbytes(x):
    if isinstance(x, str):
        return tuple(x.encode("latin-1"))
    return tuple(x)


def f32(x):
    """round to float32"""
    from ref import F32
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return x
        if x == 0:
            return x
    fr = Fraction(x)
    if fr == 0:
        return 0.0
    t = F32.round(fr)
    b = F32.encode(t) if hasattr(F32, "encode") else None
    if b is None:
        return struct.unpack("<f", struct.pack("<f", float(x)))[0]
    return struct.unpack("<f", struct.pack("<I", b))[0]


def fdiv_(x, y):
    if y == 0:
        if x == 0 or x != x:
            return math.nan
        return math.copysign(math.inf, x) * math.copysign(1.0, y)
    return x / y


# ---------------------------------------------------------------- what is outside the repository

class ErrVal:
    """an error value"""
    def __init__(self, why=""):
        self.why = why


def external(m, name, a):
    n = name
    if m.fops is not None and n.startswith("math.") and any(isinstance(x, FV) or isinstance(x, FBits) and "bits" not in n for x in a):
        return m.fops.call(m, n, a)
    if n.startswith("(*math/big.Int)."):
        return bigcall(m, n[len("(*math/big.Int)."):], a)
    if n == "math/big.NewInt":
        return m.newbig(a[0])
    if n in ("math.Float64bits", "math.Float32bits"):
        w = 64 if "64" in n else 32
        if isinstance(a[0], FBits):
            return m.fconv(a[0], w).b
        return struct.unpack("<Q", struct.pack("<d", a[0]))[0] if w == 64 else struct.unpack("<I", struct.pack("<f", a[0]))[0]
    if n in ("math.Float64frombits", "math.Float32frombits"):
        w = 64 if "64" in n else 32
        if isinstance(a[0], IV):
            return FBits(a[0], w)
        return struct.unpack("<d", struct.pack("<Q", a[0]))[0] if w == 64 else struct.unpack("<f", struct.pack("<I", a[0]))[0]
    if n in ("math.Sin", "math.Cos", "math.Tan", "math.Sqrt", "math.Atan", "math.Abs", "math.Floor") and isinstance(a[0], float):
        return {"Sin": math.sin, "Cos": math.cos, "Tan": math.tan, "Sqrt": math.sqrt, "Atan": math.atan, "Abs": abs, "Floor": lambda x: float(math.floor(x))}[n[5:]](a[0])
    if n in ("math/bits.TrailingZeros64", "math/bits.LeadingZeros64", "math/bits.Len64", "math/bits.Len", "math/bits.LeadingZeros32", "math/bits.Len32"):
        x = a[0]
        if "Trailing" in n:
            if isinstance(x, int):
                return 64 if x == 0 else (x & -x).bit_length() - 1
            for k in range(64):
                if m.branch(iz(m.mod(x, 2 << k)) != 0):
                    return k
            return 64
        L = m.bitlen(x)
        w = 32 if "32" in n else 64
        return L if ".Len" in n else w - L
    if n in ("fmt.Errorf", "errors.New"):
        return ErrVal(str(a[0]))
    if n in ("fmt.Sprintf", "fmt.Sprint"):
        return "?"
    if n.startswith("fmt.Print"):
        return (0, None)
    if n.endswith(".init") or n.endswith("solver.RegisterHint"):
        return None
    if n == "bytes.Equal":
        pass
    raise Unsupported("call of %s" % n)


def low64(m, v):
    return m.mod(v, 1 << 64)


def bigabs(m, v):
    if lo(v) >= 0:
        return v
    if hi(v) < 0:
        return m.neg(v)
    if m.branch(iz(v) >= 0):
        return IV(v.z, 0, hi(v), v.c, v.t)
    return m.neg(IV(v.z, lo(v), -1, v.c, v.t))


def bigcall(m, n, a):
    r = a[0]
    if r is None:
        raise GoPanic("nil big.Int")

    def b(i):
        return m.bigv(a[i])

    def ret(v):
        r.c[r.i] = Big(m.norm(v))
        return r
    cur = lambda: r.c[r.i].v
    if n == "Set":
        return ret(b(1))
    if n in ("SetUint64", "SetInt64"):
        return ret(a[1])
    if n == "Add":
        return ret(m.add(b(1), b(2)))
    if n == "Sub":
        return ret(m.sub(b(1), b(2)))
    if n == "Mul":
        return ret(m.mul(b(1), b(2)))
    if n == "Neg":
        return ret(m.neg(b(1)))
    if n == "Abs":
        return ret(bigabs(m, b(1)))
    if n == "Lsh":
        return ret(m.shl(b(1), a[2]))
    if n == "Rsh":
        return ret(m.shr(b(1), a[2]))
    if n in ("Div", "Quo", "Mod", "Rem", "DivMod", "QuoRem"):
        x, y = b(1), b(2)
        if isinstance(y, IV):
            if m.branch(y.z == 0):
                raise GoPanic("division by zero")
        elif y == 0:
            raise GoPanic("division by zero")
        trunc = n in ("Quo", "Rem", "QuoRem")
        if isinstance(x, int) and isinstance(y, int):
            if trunc:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            else:
                q = x // y if y > 0 else -(x // -y)
            rr = x - q * y
        else:
            if lo(y) < 1 and not m.entails(iz(y) > 0):
                raise Unsupported("division by a possibly negative integer")
            if lo(x) < 0 and trunc and not m.entails(iz(x) >= 0):
                raise Unsupported("truncated division of a possibly negative integer")
            if isinstance(y, int):
                q = m.fdiv(x, y)
                rr = m.mod(x, y)
            else:
                if lo(x) < 0 and not m.entails(iz(x) >= 0):
                    raise Unsupported("division of a possibly negative integer")
                y = IV(y.z, max(1, y.lo), y.hi, y.c, y.t)
                q = m.divterm(x, y)
                rr = m.sub(x, m.mul(q, y))
                rr = IV(iz(rr), 0, hi(y) - 1)
        if n in ("Div", "Quo"):
            return ret(q)
        if n in ("Mod", "Rem"):
            return ret(rr)
        z, md = a[0], a[3]
        md.c[md.i] = Big(m.norm(rr))
        ret(q)
        return (z, md)
    if n == "Sqrt":
        x = b(1)
        if lo(x) < 0 and not m.entails(iz(x) >= 0):
            raise Unsupported("square root of a possibly negative integer")
        return ret(m.sqrtterm(x))
    if n in ("And", "Or", "Xor", "AndNot"):
        x, y = b(1), b(2)
        if lo(x) < 0 or lo(y) < 0:
            raise Unsupported("bitwise operation on a possibly negative integer")
        return ret(m.bitop({"And": "&", "Or": "|", "Xor": "^", "AndNot": "&^"}[n], x, y))
    if n == "Exp":
        x, y = b(1), b(2)
        if a[3] is None and isinstance(x, int):
            y = m.concretize(y, "an exponent")
            if 0 <= y < 5000:
                return ret(x ** y)
        raise Unsupported("modular exponentiation")
    if n == "SetBit":
        x, i, bit = b(1), m.concretize(a[2], "a bit index"), m.concretize(a[3], "a bit")
        old = m.mod(m.shr(x, i), 2)
        return ret(m.add(x, m.mul(m.sub(bit, old), 1 << i)))
    if n == "Bit":
        i = a[1]
        v = cur()
        if isinstance(i, IV):
            i = m.concretize(i, "a bit index")
        if i < 0:
            raise GoPanic("negative bit index")
        v = m.tighten(v)
        if isinstance(v, IV) and v.lo >= 0 and v.hi < (2 << i):
            # the top bit: a comparison
            return 0 if v.hi < (1 << i) else IV(z3.If(v.z >= (1 << i), I(1), I(0)), 0, 1)
        return m.mod(m.shr(v, i), 2)
    if n == "BitLen":
        return m.bitlen(bigabs(m, cur()))
    if n == "TrailingZeroBits":
        v = bigabs(m, cur())
        if isinstance(v, int):
            return 0 if v == 0 else (v & -v).bit_length() - 1
        if m.branch(v.z == 0):
            return 0
        for k in range(v.hi.bit_length()):
            if m.branch(iz(m.mod(v, 2 << k)) != 0):
                return k
        raise Infeasible()
    if n == "Uint64":
        v = cur()
        return low64(m, bigabs(m, v))
    if n == "Int64":
        return m.wrap(cur(), 64, 1)
    if n == "IsUint64":
        v = cur()
        return m.cmp("<=", 0, v) if hi(v) < 1 << 64 else z3.And(iz(v) >= 0, iz(v) < (1 << 64)) if isinstance(v, IV) else 0 <= v < 1 << 64
    if n == "IsInt64":
        v = cur()
        return z3.And(iz(v) >= -(1 << 63), iz(v) < (1 << 63)) if isinstance(v, IV) else -(1 << 63) <= v < 1 << 63
    if n == "Sign":
        v = cur()
        if isinstance(v, int):
            return (v > 0) - (v < 0)
        if lo(v) > 0:
            return 1
        return IV(z3.If(v.z > 0, 1, z3.If(v.z < 0, -1, 0)), -1 if v.lo < 0 else 0, 1)
    if n in ("Cmp", "CmpAbs"):
        x, y = cur(), b(1)
        if n == "CmpAbs":
            x, y = bigabs(m, x), bigabs(m, y)
        if isinstance(x, int) and isinstance(y, int):
            return (x > y) - (x < y)
        l = -1 if lo(x) < hi(y) else (0 if lo(x) == hi(y) else 1)
        h = 1 if hi(x) > lo(y) else (0 if hi(x) == lo(y) else -1)
        if l == h:
            return l
        zx, zy = iz(x), iz(y)
        return IV(z3.If(zx > zy, z3.IntVal(1), z3.If(zx < zy, z3.IntVal(-1), z3.IntVal(0))), l, h)
    if n in ("String", "Text"):
        return "?"
    if n == "SetString":
        if isinstance(a[1], str) and isinstance(a[2], int):
            try:
                return (ret(int(a[1], a[2] or 0)), True)
            except ValueError:
                return (None, False)
    raise Unsupported("big.Int.%s" % n)


# ---------------------------------------------------------------- exploring paths

def explore(prog, body, timeout=20000, stats=None, budget=120, globals_=None, maxpaths=5000):
    """runs body(machine) on every path; body returns (verdict, payload).  -> summary"""
    st = stats or Stats()
    todo = [[]]
    res = dict(paths=0, infeasible=0, results=[], unsupported=[], pending=0, called=set())
    t0 = time.time()
    while todo:
        if time.time() - t0 > budget or res["paths"] > maxpaths:
            res["pending"] = len(todo)
            break
        path = todo.pop()
        m = Machine(prog, path, timeout, st, globals_=globals_)
        try:
            r = body(m)
            res["paths"] += 1
            if r is not None:
                res["results"].append(r)
        except Infeasible:
            res["infeasible"] += 1
        except Unsupported as e:
            res["unsupported"].append(str(e))
        except z3.Z3Exception as e:
            res["unsupported"].append("z3: %s" % e)
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, RecursionError, OverflowError):
            # an encoding failure is not an answer
            res["unsupported"].append("encoder: %s" % traceback.format_exc(limit=-2).replace("\n", " "))
        res["called"] |= m.called
        todo.extend(m.alts)
        if any(r[0] == "cex" for r in res["results"]) and len(res["results"]) > 20:
            break
    res["stats"] = st
    return res
