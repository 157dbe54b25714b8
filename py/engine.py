"""Symbolic execution of a recorded circuit graph over a prime field, with z3.

Every wire gets a value  F * 2^-k  (mod p), F an integer linear form over atoms with
known intervals.  Constraints become integer constraints: when the interval of a form
cannot reach p the congruence is an equation, otherwise the multiple of p is an explicit
integer unknown.  Witness values chosen by the prover are unknowns restricted only by the
constraints on them.  Lookups into the power-of-two table are case splits whose cases are
enumerated by the solver; products of unknowns are unknowns with sound lemmas.
"""
import time
import z3
from graph import Lin, centre, v2


class Inconclusive(Exception):
    pass


class Fork(Exception):
    def __init__(self, kids):
        self.kids = kids


class Dead(Exception):
    """this path is infeasible"""


class Form:
    __slots__ = ("c", "t", "_k")

    def __init__(self, c, t=None):
        self.c = c
        self.t = t or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted(self.t.items())))
        return self._k

    def isconst(self):
        return not self.t


def fadd(a, b, kb=1):
    t = dict(a.t)
    for x, k in b.t.items():
        n = t.get(x, 0) + k * kb
        if n:
            t[x] = n
        else:
            t.pop(x, None)
    return Form(a.c + b.c * kb, t)


def fscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return Form(0)
    return Form(a.c * k, {x: v * k for x, v in a.t.items()})


class Val:
    """F * 2^-k mod p"""
    __slots__ = ("f", "k")

    def __init__(self, f, k=0):
        if k > 0:
            t = min([v2(abs(x)) for x in f.t.values()] + ([v2(abs(f.c))] if f.c else []) + [k])
            if not f.t and f.c == 0:
                t = k
            if t:
                f = Form(f.c >> t, {x: v >> t for x, v in f.t.items()})
                k -= t
        elif k < 0:
            f = fscale(f, 1 << -k)
            k = 0
        self.f = f
        self.k = k

    def isconst(self):
        return not self.f.t

    def key(self):
        return (self.f.key(), self.k)


def con(c):
    return Val(Form(c))


class Atom:
    __slots__ = ("z", "lo", "hi", "kind", "data", "name")

    def __init__(self, z, lo, hi, kind, data=None, name=""):
        self.z, self.lo, self.hi, self.kind, self.data, self.name = z, lo, hi, kind, data, name


SMALL = 200


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.maxq = 0.0

    def add(self, o):
        self.queries += o["queries"]
        self.time += o["time"]
        self.unknown += o["unknown"]
        self.maxq = max(self.maxq, o["maxq"])

    def dict(self):
        return dict(queries=self.queries, time=self.time, unknown=self.unknown, maxq=self.maxq)


class Ctx:
    def __init__(self, p, path=(), timeout=20000, stats=None, seed=1):
        self.p = p
        self.path = list(path)
        self.pos = 0
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.s.set("random_seed", seed)
        self.timeout = timeout
        self.atoms = []
        self.bools = {}     # z3 ast id -> atom index
        self.keep = []
        self.prods = {}     # (keyA,keyB) -> atom index
        self.prodlist = []  # (atom, formA, formB)
        self.iszs = {}
        self.ites = {}
        self.sqlem = {}
        self.incomplete = []
        self.stats = stats or Stats()
        self.n = 0
        self._dc = {}
        self.nsplit = 0

    # ---- atoms ----
    def fresh(self, name):
        self.n += 1
        return "%s!%d" % (name, self.n)

    def int_atom(self, name, lo, hi, kind="int", data=None):
        z = z3.Int(self.fresh(name))
        self.s.add(z >= lo, z <= hi)
        self.atoms.append(Atom(z, lo, hi, kind, data, name))
        return len(self.atoms) - 1

    def int_val(self, name, lo, hi):
        if lo == hi:
            return con(lo)
        return Val(Form(0, {self.int_atom(name, lo, hi): 1}))

    def bool_fresh(self, name):
        z = z3.Bool(self.fresh(name))
        self.atoms.append(Atom(z, 0, 1, "bool", None, name))
        i = len(self.atoms) - 1
        self.bools[z.get_id()] = i
        self.keep.append(z)
        return Val(Form(0, {i: 1}))

    def from_bool(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return con(1)
        if z3.is_false(e):
            return con(0)
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        i = self.bools.get(e.get_id())
        if i is None:
            if e.num_args() > 0:
                z = z3.Bool(self.fresh("b"))
                self.s.add(z == e)
            else:
                z = e
            self.atoms.append(Atom(z, 0, 1, "bool"))
            i = len(self.atoms) - 1
            self.bools[e.get_id()] = i
            self.bools[z.get_id()] = i
            self.keep += [e, z]
        v = Val(Form(0, {i: 1}))
        return self.sub(con(1), v) if neg else v

    def as_bool(self, v):
        """z3 Bool when the value is provably 0 or 1, else None"""
        if v.k:
            return None
        f = v.f
        if not f.t:
            return z3.BoolVal(f.c == 1) if f.c in (0, 1) else None
        if len(f.t) == 1:
            (i, k), = f.t.items()
            a = self.atoms[i]
            if (f.c, k) == (0, 1):
                if a.kind == "bool":
                    return a.z
                if a.lo >= 0 and a.hi <= 1:
                    return a.z == 1
            if (f.c, k) == (1, -1):
                if a.kind == "bool":
                    return z3.Not(a.z)
                if a.lo >= 0 and a.hi <= 1:
                    return a.z == 0
        else:
            lo, hi = self.interval(f)
            if lo >= 0 and hi <= 1:
                return self.z(f) == 1
        return None

    # ---- forms ----
    def interval(self, f):
        lo = hi = f.c
        for i, k in f.t.items():
            a = self.atoms[i]
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        return lo, hi

    def az(self, i):
        a = self.atoms[i]
        return z3.If(a.z, z3.IntVal(1), z3.IntVal(0)) if a.kind == "bool" else a.z

    def z(self, f):
        if isinstance(f, Val):
            assert f.k == 0
            f = f.f
        ts = [self.az(i) * k if k != 1 else self.az(i) for i, k in sorted(f.t.items())]
        if f.c or not ts:
            ts.append(z3.IntVal(f.c))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def add(self, a, b, kb=1):
        k = max(a.k, b.k)
        return Val(fadd(fscale(a.f, 1 << (k - a.k)), b.f, kb << (k - b.k)), k)

    def sub(self, a, b):
        return self.add(a, b, -1)

    def scale(self, a, c):
        """multiply by a field constant"""
        n, k = self.dec(c)
        return Val(fscale(a.f, n), a.k + k)

    def dec(self, c):
        """field constant -> (n, k): c = n*2^-k with n small"""
        r = self._dc.get(c)
        if r is None:
            c0 = centre(c, self.p)
            r = (c0, 0)
            if abs(c0).bit_length() > SMALL:
                x = c0
                best = r
                for k in range(1, 160):
                    x = centre(x * 2, self.p)
                    if abs(x).bit_length() + k // 2 < abs(best[0]).bit_length() + best[1] // 2 - 40:
                        best = (x, k)
                r = best
            self._dc[c] = r
        return r

    def const(self, c):
        n, k = self.dec(c)
        return Val(Form(n), k)

    def neg(self, a):
        return Val(fscale(a.f, -1), a.k)

    def ite(self, b, x, y):
        """b: Val boolean"""
        if b.isconst():
            return x if b.f.c == 1 else y
        if x.key() == y.key():
            return x
        if x.isconst() and y.isconst():
            d = self.sub(x, y)
            return self.add(Val(fscale(b.f, d.f.c), d.k + b.k), y)
        (i, kk), = b.f.t.items() if len(b.f.t) == 1 else ((None, None),)
        if kk == -1:
            b, x, y = self.sub(con(1), b), y, x
        key = (b.key(), x.key(), y.key())
        if key in self.ites:
            return self.ites[key]
        # 0 and +-v alternatives are kept symbolic all the same
        k = max(x.k, y.k)
        fx, fy = fscale(x.f, 1 << (k - x.k)), fscale(y.f, 1 << (k - y.k))
        lx, hx = self.interval(fx)
        ly, hy = self.interval(fy)
        zb = self.as_bool(b)
        a = self.int_atom("ite", min(lx, ly), max(hx, hy), "ite", (b, Val(fx), Val(fy)))
        z = self.atoms[a].z
        self.s.add(z3.Implies(zb, z == self.z(fx)), z3.Implies(z3.Not(zb), z == self.z(fy)))
        r = Val(Form(0, {a: 1}), k)
        self.ites[key] = r
        return r

    def split_affine(self, v):
        """(c, k, atom) when v has a single atom"""
        if len(v.f.t) == 1:
            (i, k), = v.f.t.items()
            return v.f.c, k, i
        return None

    def mul(self, x, y):
        if x.isconst():
            x, y = y, x
        if y.isconst():
            return Val(fscale(x.f, y.f.c), x.k + y.k)
        for a, b in ((x, y), (y, x)):
            s = self.split_affine(a)
            if s and self.atoms[s[2]].kind == "bool":
                c, k, i = s
                one = Val(fscale(b.f, c + k), a.k + b.k)
                zero = Val(fscale(b.f, c), a.k + b.k)
                return self.ite(Val(Form(0, {i: 1})), one, zero)
        for a, b in ((x, y), (y, x)):
            s = self.split_affine(a)
            if s and self.atoms[s[2]].kind == "ite":
                c, k, i = s
                cond, X, Y = self.atoms[i].data
                X2 = Val(fadd(Form(c), X.f, k), a.k)
                Y2 = Val(fadd(Form(c), Y.f, k), a.k)
                if a is b or x.key() == y.key():
                    return self.ite(cond, self.mul(X2, X2), self.mul(Y2, Y2))
                return self.ite(cond, self.mul(X2, b), self.mul(Y2, b))
        ca, ka, A = self.prim(x.f)
        cb, kb, B = self.prim(y.f)
        P = self.prod(A, B)
        if ca == 0 and x.k > 0 and x.key() == y.key() and ka % 2 and x.k not in self.sqlem.setdefault(A.key(), set()):
            self.sqlem[A.key()].add(x.k)
            self.square_lemma(A, P, x.k)
        # (ca + ka A)(cb + kb B)
        f = fadd(fadd(fadd(Form(ca * cb), A, ka * cb), B, ca * kb), P, ka * kb)
        return Val(f, x.k + y.k)

    def square_lemma(self, A, P, e):
        """4^e divides A^2 exactly when 2^e divides A"""
        lo, hi = self.interval(A)
        q = self.int_atom("sqq", lo >> e, hi >> e)
        r = z3.Int(self.fresh("sqr"))
        self.s.add(self.z(A) == self.atoms[q].z * (1 << e) + r, r >= 0, r < (1 << e))
        Q = Form(0, {q: 1})
        P2 = self.prod(Q, Q)
        h, l = z3.Int(self.fresh("sqh")), z3.Int(self.fresh("sql"))
        self.s.add(self.z(P) == h * (1 << (2 * e)) + l, l >= 0, l < (1 << (2 * e)))
        self.s.add(z3.Implies(l == 0, r == 0), z3.Implies(r == 0, z3.And(l == 0, h == self.z(P2))))

    def prim(self, f):
        from math import gcd
        g = 0
        for k in f.t.values():
            g = gcd(g, abs(k))
        first = min(f.t)
        if f.t[first] < 0:
            g = -g
        return f.c, g, Form(0, {i: k // g for i, k in f.t.items()})

    def prod(self, A, B):
        if B.key() < A.key():
            A, B = B, A
        key = (A.key(), B.key())
        if key in self.prods:
            return Form(0, {self.prods[key]: 1})
        la, ha = self.interval(A)
        lb, hb = self.interval(B)
        sq = key[0] == key[1]
        c = [la * lb, la * hb, ha * lb, ha * hb]
        lo, hi = min(c), max(c)
        if sq:
            lo = 0 if la <= 0 <= ha else min(la * la, ha * ha)
            hi = max(la * la, ha * ha)
        i = self.int_atom("prod", lo, hi, "prod", (A, B))
        P = self.atoms[i].z
        za, zb = self.z(A), self.z(B)
        if ha < self.p and hb < self.p:
            self.s.add(P >= za * lb + zb * la - la * lb, P >= za * hb + zb * ha - ha * hb,
                       P <= za * lb + zb * ha - ha * lb, P <= za * hb + zb * la - la * hb)
        # shared factors: monotone
        for j, A2, B2 in self.prodlist:
            for X, Y in ((A, B), (B, A)):
                done = False
                for X2, Y2 in ((A2, B2), (B2, A2)):
                    if X.key() == X2.key() and not (sq and self.atoms[j].data[0].key() == self.atoms[j].data[1].key()):
                        lx, hx = self.interval(X)
                        zx, zy, zy2 = self.z(X), self.z(Y), self.z(Y2)
                        Q = self.atoms[j].z
                        if lx >= 0:
                            self.s.add(z3.Implies(zy < zy2, P + zx <= Q), z3.Implies(zy > zy2, P >= Q + zx),
                                       z3.Implies(zy == zy2, P == Q))
                        else:
                            self.s.add(z3.Implies(zy == zy2, P == Q))
                        done = True
                        break
                if done:
                    break
            if sq and A2.key() == B2.key():
                a2 = self.z(A2)
                Q = self.atoms[j].z
                if la >= 0 and self.interval(A2)[0] >= 0:
                    self.s.add(z3.Implies(za < a2, P + za + a2 <= Q), z3.Implies(za > a2, P >= Q + za + a2),
                               z3.Implies(za == a2, P == Q))
        self.prods[key] = i
        self.prodlist.append((i, A, B))
        if sq:
            # parity: A = 2h + b, A^2 = 4h^2 + 4hb + b
            h = self.int_atom("half", (la - 1) // 2, ha // 2 + 1)
            b = z3.Bool(self.fresh("odd"))
            hz = self.atoms[h].z
            self.s.add(za == 2 * hz + z3.If(b, 1, 0))
            if getattr(self, "_sqdepth", 0) < 1:
                self._sqdepth = getattr(self, "_sqdepth", 0) + 1
                H = self.prod(Form(0, {h: 1}), Form(0, {h: 1}))
                self._sqdepth -= 1
                hh = self.z(H)
                self.s.add(z3.If(b, P == 4 * hh + 4 * hz + 1, P == 4 * hh))
        return Form(0, {i: 1})

    # ---- field predicates ----
    def reduce(self, f):
        from math import gcd
        g = abs(f.c)
        for k in f.t.values():
            g = gcd(g, abs(k))
        if g > 1:
            return Form(f.c // g, {i: k // g for i, k in f.t.items()})
        return f

    def eq0(self, v):
        """z3 Bool equivalent to v = 0 in the field (may introduce unknowns)"""
        f = self.reduce(v.f)
        if not f.t:
            return z3.BoolVal(f.c % self.p == 0)
        lo, hi = self.interval(f)
        if lo > 0 and hi < self.p or hi < 0 and lo > -self.p:
            return z3.BoolVal(False)
        z = self.z(f)
        if -self.p < lo and hi < self.p:
            return z == 0
        ql, qh = -((-lo) // self.p), hi // self.p
        if ql > qh:
            return z3.BoolVal(False)
        if qh - ql < 8:
            return z3.Or([z == q * self.p for q in range(ql, qh + 1)])
        q = z3.Int(self.fresh("q"))
        r = z3.Int(self.fresh("r"))
        self.s.add(z == q * self.p + r, r >= 0, r < self.p)
        return r == 0

    def iszero(self, v):
        b = self.as_bool(v)
        if b is not None:
            return self.sub(con(1), v)
        f = self.reduce(v.f)
        kk = f.key()
        if kk in self.iszs:
            return self.iszs[kk]
        nk = fscale(f, -1).key()
        if nk in self.iszs:
            return self.iszs[nk]
        if len(f.t) == 1:
            # an if-then-else of constants and bools keeps its structure
            (i, k), = f.t.items()
            a = self.atoms[i]
            if a.kind == "ite":
                cond, X, Y = a.data
                x = self.iszero(Val(fadd(Form(f.c), X.f, k)))
                y = self.iszero(Val(fadd(Form(f.c), Y.f, k)))
                cb, xb, yb = self.as_bool(cond), self.as_bool(x), self.as_bool(y)
                r = self.from_bool(z3.If(cb, xb, yb))
                self.iszs[kk] = r
                return r
        r = self.from_bool(self.eq0(Val(f)))
        self.iszs[kk] = r
        return r

    def assert_eq0(self, v):
        f = self.reduce(v.f)
        if not f.t:
            if f.c % self.p:
                self.s.add(z3.BoolVal(False))
            return
        lo, hi = self.interval(f)
        z = self.z(f)
        if -self.p < lo and hi < self.p:
            self.s.add(z == 0)
            return
        q = z3.Int(self.fresh("q"))
        self.s.add(z == q * self.p, q >= -((-lo) // self.p), q <= hi // self.p)

    def in_range(self, v, t, N):
        """z3 Bool: 2^t * v in [0,N) in the field; equivalent (unknowns are functions of v)"""
        e = t - v.k
        if e >= 0:
            f = fscale(v.f, 1 << e)
            lo, hi = self.interval(f)
            if N >= self.p:
                return z3.BoolVal(True)
            z = self.z(f)
            if lo > N - self.p and hi < self.p:
                if lo >= 0 and hi < N:
                    return z3.BoolVal(True)
                # divide the power of two back out
                g = self.z(v.f) if True else None
                M = (N - 1) >> e if e else N - 1
                return z3.And(g >= 0, g <= M)
            ql, qh = lo // self.p, hi // self.p
            q = z3.Int(self.fresh("q"))
            r = z3.Int(self.fresh("r"))
            self.s.add(z == q * self.p + r, r >= 0, r < self.p, q >= ql, q <= qh)
            return r < N
        # v = F 2^-k, 2^t v = F 2^-(k-t) = T  <->  F = T 2^(k-t) mod p
        e = -e
        if (N << e) < self.p:
            # T 2^e is in [0,p): it is F mod p
            lo, hi = self.interval(v.f)
            z = self.z(v.f)
            T = z3.Int(self.fresh("T"))
            d = z3.Int(self.fresh("d"))
            if lo > (N << e) - self.p and hi < self.p:
                self.s.add(z == T * (1 << e) + d, d >= 0, d < (1 << e))
                return z3.And(d == 0, T >= 0, T < N)
            q = z3.Int(self.fresh("q"))
            r = z3.Int(self.fresh("r"))
            self.s.add(z == q * self.p + r, r >= 0, r < self.p, r == T * (1 << e) + d, d >= 0, d < (1 << e))
            return z3.And(d == 0, T < N)
        # general: the residue of F*2^-e mod p
        inv = pow(1 << e, -1, self.p)
        r = z3.Int(self.fresh("r"))
        q = z3.Int(self.fresh("q"))
        self.s.add(self.z(v.f) * inv == q * self.p + r, r >= 0, r < self.p)
        return r < N

    # ---- solver ----
    def check(self, *extra):
        t = time.time()
        r = self.s.check(*extra)
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.time += dt
        self.stats.maxq = max(self.stats.maxq, dt)
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def decide(self, expr, what, cap=400, given=None):
        """case split on an integer expression; returns its value on this path.  The
        feasible values are enumerated by the solver, so the cases are exhaustive."""
        if self.pos < len(self.path):
            v = self.path[self.pos]
            self.pos += 1
            self.s.add(given(v) if given else expr() == v if callable(expr) else expr == v)
            return v
        if callable(expr):
            expr = expr()
        vals = []
        self.s.push()
        x = z3.Int(self.fresh("case"))
        self.s.add(x == expr)
        while True:
            r = self.check()
            if r == z3.unsat:
                break
            if r == z3.unknown:
                self.incomplete.append("enumeration of %s: solver gave no answer" % what)
                break
            v = self.s.model().eval(x, model_completion=True).as_long()
            vals.append(v)
            self.s.add(x != v)
            if len(vals) >= cap:
                self.incomplete.append("more than %d values for %s" % (cap, what))
                break
        self.s.pop()
        if not vals:
            raise Dead()
        self.nsplit += 1
        if len(vals) == 1:
            self.path.append(vals[0])
            self.pos += 1
            self.s.add(expr == vals[0])
            return vals[0]
        raise Fork([self.path + [v] for v in sorted(vals)])

    def entails(self, e):
        self.s.push()
        self.s.add(z3.Not(e))
        r = self.check()
        self.s.pop()
        return r == z3.unsat


def lin_const(l):
    return not l.t


class Exec:
    """evaluates a normalised graph in a Ctx"""

    def __init__(self, ctx, g, inputs, claims=None, hintsem=None, free_inputs=()):
        self.c = ctx
        self.g = g
        self.claims = claims if claims is not None else g.claims
        self.vals = {}
        self.hintsem = hintsem
        self.free = set(free_inputs)
        for w, v in zip(g.inputs, inputs):
            if v is not None:
                self.vals[w] = v
        self.goals = []      # completeness: (label, z3 Bool that must hold)
        self.resolved_by = {}

    def unknown(self, l):
        return [w for w, _ in l.t if w not in self.vals]

    def lin(self, l, skip=None):
        c = self.c
        v = c.const(l.c)
        for w, k in l.t:
            if w == skip:
                continue
            v = c.add(v, c.scale(self.vals[w], k))
        return v

    def op(self, i):
        c = self.c
        op, args, h, o = self.g.wires[i]
        a = [self.lin(x) for x in args]
        if op == "mul":
            return c.mul(a[0], a[1])
        if op in ("and", "or", "xor"):
            x, y = c.as_bool(a[0]), c.as_bool(a[1])
            if x is not None and y is not None:
                return c.from_bool(dict(**{"and": z3.And, "or": z3.Or, "xor": z3.Xor})[op](x, y))
            p = c.mul(a[0], a[1])
            if op == "and":
                return p
            s = c.add(a[0], a[1])
            return c.sub(c.sub(s, p), p) if op == "xor" else c.sub(s, p)
        if op == "select":
            b = c.as_bool(a[0])
            if b is not None:
                v = a[0]
                s = c.split_affine(v)
                if not v.isconst() and not (s and c.atoms[s[2]].kind == "bool"):
                    v = c.from_bool(b)
                return c.ite(v, a[1], a[2])
            return c.add(c.mul(a[0], c.sub(a[1], a[2])), a[2])
        if op == "iszero":
            return c.iszero(a[0])
        if op in ("inv", "div", "divu"):
            num, den = (con(1), a[0]) if op == "inv" else (a[0], a[1])
            return self.divide(num, den)
        raise Inconclusive("operation %s" % op)

    def divide(self, num, den):
        c = self.c
        if den.isconst():
            n, k = den.f.c % c.p, den.k
            if n == 0:
                raise Dead()
            iv = c.const(pow(n, -1, c.p))
            return c.mul(Val(num.f, num.k - k), iv)
        s = c.split_affine(den)
        if s and c.atoms[s[2]].kind == "ite":
            cc, k, i = s
            cond, X, Y = c.atoms[i].data
            if all(v.isconst() for v in (X, Y)):
                return c.ite(cond, self.divide(num, Val(fadd(Form(cc), X.f, k), den.k)), self.divide(num, Val(fadd(Form(cc), Y.f, k), den.k)))
        if s and c.atoms[s[2]].kind == "bool":
            cc, k, i = s
            return c.ite(Val(Form(0, {i: 1})), self.divide(num, Val(Form(cc + k), den.k)), self.divide(num, Val(Form(cc), den.k)))
        w = Val(Form(0, {c.int_atom("quot", 0, c.p - 1): 1}))
        c.assert_eq0(c.sub(c.mul(w, den), num))
        return w

    def solve_for(self, l, w, rhs):
        """rhs = l: value of wire w"""
        c = self.c
        k = dict(l.t)[w]
        rest = self.lin(l, skip=w)
        d = c.sub(rhs, rest)
        n, e = c.dec(pow(k, -1, c.p))
        if abs(n).bit_length() > SMALL:
            return None
        return Val(fscale(d.f, n), d.k + e)

    def run(self):
        c, g = self.c, self.g
        lookw = {}
        self.queries = []
        for li, (rows, qs) in enumerate(g.lookups):
            if any(x is None for r in rows for x in r):
                raise Inconclusive("lookup table with variable entries")
            for qi, q in enumerate(qs):
                self.queries.append((rows, q))
                for col in q:
                    for w, _ in col.t:
                        if g.wires[w][0] == "hint":
                            lookw.setdefault(w, []).append(len(self.queries) - 1)
        pend_claims = list(enumerate(self.claims))
        pend_cons = list(g.cons)
        pend_q = list(range(len(self.queries)))
        pseudo = {}
        todo = [i for i in range(1, len(g.wires)) if i not in self.vals]
        boolw = set()
        for kind, args in g.cons:
            if kind == "bool" and len(args[0].t) == 1:
                boolw.add(args[0].t[0][0])
        choicew = set(lookw)
        while True:
            progress = False
            # operations
            rest = []
            for i in todo:
                if i in self.vals:
                    continue
                op, args, h, o = g.wires[i]
                if op not in ("hint", "input", "none") and not any(self.unknown(a) for a in args):
                    if i in pseudo:
                        pass
                    self.vals[i] = self.op(i)
                    progress = True
                else:
                    rest.append(i)
            todo = rest
            for i in list(pseudo):
                op, args, h, o = g.wires[i]
                if not any(self.unknown(a) for a in args):
                    c.assert_eq0(c.sub(self.op(i), self.vals[i]))
                    del pseudo[i]
                    progress = True
            # constraints that can be stated
            keep = []
            for kind, args in pend_cons:
                if any(self.unknown(a) for a in args):
                    keep.append((kind, args))
                    continue
                self.state_cons(kind, args)
                progress = True
            pend_cons = keep
            keep = []
            for ci, (v, t, n) in pend_claims:
                if self.unknown(v):
                    keep.append((ci, (v, t, n)))
                    continue
                c.s.add(c.in_range(self.lin(v), t, n))
                progress = True
            pend_claims = keep
            keep = []
            for qi in pend_q:
                rows, q = self.queries[qi]
                if any(self.unknown(col) for col in q):
                    keep.append(qi)
                else:
                    self.state_lookup(rows, q)
                    progress = True
            pend_q = keep
            if progress:
                continue
            if not todo and not pend_cons and not pend_claims and not pend_q and not pseudo:
                return
            # resolve a witness value.  1: boolean
            for kind, args in pend_cons:
                if kind == "bool" and len(args[0].t) == 1:
                    w = args[0].t[0][0]
                    if w not in self.vals and g.wires[w][0] in ("hint", "input") and w not in choicew:
                        b = c.bool_fresh("w%d" % w)
                        v = self.solve_for(args[0], w, b)
                        self.vals[w] = v
                        pend_cons.remove((kind, args))
                        progress = True
                        break
            if progress:
                continue
            # 2: range claims, the ones on the bare wire first
            best = None
            for idx, (ci, (v, t, n)) in enumerate(pend_claims):
                u = self.unknown(v)
                if len(u) == 1 and u[0] not in choicew and u[0] not in boolw and g.wires[u[0]][0] in ("hint", "input"):
                    score = (len(v.t) > 1, t, n)
                    if best is None or score < best[0]:
                        best = (score, idx)
            if best is not None:
                ci, (v, t, n) = pend_claims.pop(best[1])
                self.by_claim(v, t, n)
                continue
            # 3: equations
            hit = None
            for kind, args in pend_cons:
                if kind == "eq":
                    d = self.diff(args)
                    u = self.unknown(d)
                    if len(u) == 1 and u[0] not in choicew and g.wires[u[0]][0] in ("hint", "input"):
                        hit = (kind, args, d, u[0])
                        break
            if hit:
                v = self.solve_for(hit[2], hit[3], con(0))
                if v is not None:
                    self.vals[hit[3]] = v
                    pend_cons.remove((hit[0], hit[1]))
                    continue
            # 4: lookups with one unknown
            hit = None
            for qi in pend_q:
                rows, q = self.queries[qi]
                u = {w for col in q for w in self.unknown(col)}
                if len(u) == 1:
                    hit = (qi, u.pop())
                    break
            if hit:
                self.choose(hit[0], hit[1], pend_claims)
                continue
            # 5: a composite wire determined by a claim
            best = None
            for idx, (ci, (v, t, n)) in enumerate(pend_claims):
                u = self.unknown(v)
                if len(u) == 1 and u[0] not in pseudo and g.wires[u[0]][0] == "mul":
                    best = (idx, u[0])
                    break
            if best is not None:
                ci, (v, t, n) = pend_claims.pop(best[0])
                if self.by_claim(v, t, n):
                    pseudo[best[1]] = True
                    todo = [i for i in todo if i != best[1]]
                continue
            # 6: give up on a choice wire / free witness value
            w = None
            for i in todo:
                if g.wires[i][0] in ("hint", "input"):
                    if i in choicew:
                        continue
                    w = i
                    break
            if w is None:
                ws = [i for i in todo if i in choicew]
                if not ws:
                    raise Inconclusive("cannot order the evaluation")
                choicew.discard(ws[0])
                continue
            self.vals[w] = Val(Form(0, {c.int_atom("free%d" % w, 0, c.p - 1): 1}))

    def diff(self, args):
        d = dict(args[0].t)
        for w, k in args[1].t:
            d[w] = d.get(w, 0) - k
        return Lin(args[0].c - args[1].c, tuple((w, k) for w, k in sorted(d.items()) if k % self.c.p))

    def by_claim(self, v, t, n):
        c = self.c
        w = self.unknown(v)[0]
        if n > c.p:
            n = c.p
        T = Val(Form(0, {c.int_atom("w%d" % w, 0, n - 1): 1}), t) if n > 1 else con(0)
        r = self.solve_for(v, w, T)
        if r is None:
            r = Val(Form(0, {c.int_atom("free%d" % w, 0, c.p - 1): 1}))
            self.vals[w] = r
            c.s.add(c.in_range(self.lin(v), t, n))
            return True
        self.vals[w] = r
        return True

    def state_cons(self, kind, args):
        c = self.c
        if kind == "eq":
            c.assert_eq0(self.lin(self.diff(args)))
        elif kind == "bool":
            v = self.lin(args[0])
            if c.as_bool(v) is None:
                c.s.add(z3.Or(c.eq0(v), c.eq0(c.sub(v, con(1)))))
        elif kind == "ne":
            c.s.add(z3.Not(c.eq0(self.lin(self.diff(args)))))
        elif kind == "selbool":
            pass  # not enforced by every builder: not assumed
        else:
            raise Inconclusive("constraint %s" % kind)

    def row_alts(self, rows, q):
        """z3 Bools: the query equals one of the rows"""
        c = self.c
        vs = [self.lin(col) for col in q]
        if len(vs) == 1 and vs[0].k == 0:
            # the common case, one column of small integers
            f = vs[0].f
            lo, hi = c.interval(f)
            cs = [centre(r[0], c.p) for r in rows]
            if lo > -(c.p // 4) and hi < c.p // 4 and all(abs(x) < c.p // 4 for x in cs):
                cs = [x for x in cs if lo <= x <= hi]
                if not f.t:
                    return [z3.BoolVal(True)] if f.c in cs else []
                z = c.z(f)
                return [z == x for x in cs]
        alts = []
        for r in rows:
            a = [c.eq0(c.sub(v, c.const(x))) for v, x in zip(vs, r)]
            e = z3.simplify(z3.And(a)) if len(a) > 1 else a[0]
            if not z3.is_false(e):
                alts.append(e)
        return alts

    def state_lookup(self, rows, q):
        c = self.c
        alts = self.row_alts(rows, q)
        c.s.add(z3.Or(alts) if alts else z3.BoolVal(False))

    def choose(self, qi, w, pend_claims):
        """the value of a looked-up witness: a case split over the table rows"""
        c = self.c
        rows, q = self.queries[qi]
        # its own range claim
        t, n = 0, c.p
        for ci, (v, t1, n1) in pend_claims:
            if len(v.t) == 1 and v.c == 0 and v.t[0] == (w, 1):
                t, n = t1, n1
                break
        if c.pos < len(c.path):
            v = c.path[c.pos]
            c.pos += 1
            if not 0 <= v < n:
                raise Dead()
            self.vals[w] = Val(Form(v), t)
            return
        T = c.int_atom("w%d" % w, 0, n - 1)
        self.vals[w] = Val(Form(0, {T: 1}), t)
        alts = self.row_alts(rows, q)
        c.s.add(z3.Or(alts) if alts else z3.BoolVal(False))
        v = c.decide(c.atoms[T].z, "looked-up value of wire %d" % w)
        self.vals[w] = Val(Form(v), t)
