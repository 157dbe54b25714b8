"""Hint functions: the real Go code (go/ssa form of /repo's current tree) against contracts.

lemmas(...) lists every hint call shape (function and constant arguments) that the circuits
of the current tree contain; prove(...) executes the Go function symbolically on all inputs
of the stated domain and compares the outputs with the contract.
"""
import time
import z3
import ssa
from engine import Stats
from ssa import IV, Big, Ptr, Slice, Machine, iz, lo, hi

I = z3.IntVal


class Lemma:
    """one hint function with its constant arguments; `doms` are (lo, hi) intervals or constants"""

    def __init__(self, name, consts, doms, nout, expect, pre=None, note=""):
        self.name, self.consts, self.doms, self.nout, self.expect, self.pre, self.note = name, consts, doms, nout, expect, pre, note

    def key(self):
        return (self.name, tuple(self.consts), tuple(map(str, self.doms)))

    def __repr__(self):
        return "%s(%s)" % (self.name, ", ".join(str(d) if isinstance(d, int) else "[%d, %d]" % d if d[1] < 1 << 20 else "[%d, <2^%d]" % (d[0], d[1].bit_length())
                                               for d in self.doms))


def fdivz(x, k):
    return iz(x) / k if isinstance(x, IV) else I(x // k)


def shapes(fm, d):
    """call shapes of one recorded circuit: (hint, argument constants or None, number of outputs)"""
    out = set()
    p = int(d["field"])
    for h in d.get("hints") or []:
        n = h["name"].split("/")[-1]
        if "logderivarg" in n or "tumberger" not in h["name"]:
            continue
        cs = []
        for a in h["inputs"]:
            v = lin_const(a, p)
            cs.append(v)
        out.add((n, tuple(cs), len(h["outs"])))
    return out


def lin_const(a, p):
    """constant value of a recorded linear combination, or None; see graph.parse_lin"""
    import graph
    l = graph.parse_lin(a, p)
    if getattr(l, "t", None):
        return None
    return l.c % p


def lemma(name, cs, nout, fm, p):
    """-> list of lemmas for a call shape, or a string saying why there is no contract"""
    E, M = fm.E, fm.M
    n = name.split(".")[-1]

    def need(*idx):
        return all(cs[i] is not None for i in idx)

    def dom(i, l, h):
        return cs[i] if cs[i] is not None else (l, h)
    if n == "DecodeFloatHint" and need(1, 2):
        e, m = cs[1], cs[2]
        return [Lemma(name, cs, [dom(0, 0, (1 << (e + m + 1)) - 1), e, m], 2,
                      lambda x, a: [("div", a[0], 1 << (e + m)), ("divmod", a[0], 1 << m, 1 << e)])]
    if n == "NthBitHint" and need(1):
        k = cs[1]
        w = max(k + 1, E + 3)
        return [Lemma(name, cs, [dom(0, 0, (1 << w) - 1), k], 1, lambda x, a: [("divmod", a[0], 1 << k, 2)])]
    if n == "PowerOfTwoHint":
        return [Lemma(name, cs, [dom(0, i, i)] if cs[0] is not None else [i], 1, lambda x, a, i=i: [("const", 1 << (cs[0] if cs[0] is not None else i))])
                for i in (range(M + E + 1) if cs[0] is None else [cs[0]])]
    if n == "DecomposeMantissaForRoundingHint" and need(2, 3, 4, 5):
        sm, pi, qi, ri = cs[2:6]
        if not (qi == ri + 1 and pi == qi + 1):
            return "indices %s" % (cs[3:6],)
        L = ri - sm + M + 2
        out = []
        for t in ([cs[1].bit_length() - 1] if cs[1] is not None else range(sm + 1)):
            k = sm - t

            def ex(x, a, k=k):
                v = x.mul(a[0], 1 << k)
                return [("div", v, 1 << pi), ("divmod", v, 1 << qi, 2), ("divmod", v, 1 << ri, 2), ("mod", v, 1 << ri)]
            out.append(Lemma(name, cs, [dom(0, 0, (1 << L) - 1), 1 << t, sm, pi, qi, ri], 4, ex))
        return out
    if n == "NormalizeHint" and need(1):
        ln = cs[1]
        return [Lemma(name, cs, [dom(0, 0, (1 << ln) - 1), ln], 1, lambda x, a: [("norm", a[0], ln)])]
    if n == "AbsHint":
        both = [Lemma(name, cs, [dom(0, 0, p // 4)], 2, lambda x, a: [("const", 1), ("eq", a[0])]),
                Lemma(name, cs, [dom(0, p - p // 4, p - 1)], 2, lambda x, a: [("const", 0), ("eq", x.sub(p, a[0]))])]
        return both if cs[0] is None else both[:1] if cs[0] % p <= p // 2 else both[1:]
    if n == "DivHint" and need(2):
        q = cs[2]
        return [Lemma(name, cs, [dom(0, 0, (2 << M) - 1), dom(1, 1, (2 << M) - 1), q], 1, lambda x, a: [("quot", x.mul(a[0], 1 << q), a[1])])]
    if n == "SqrtHint":
        return [Lemma(name, cs, [dom(0, 0, (1 << (2 * (M + 3))) - 1)], 1, lambda x, a: [("sqrt", a[0])])]
    if n == "TruncHint" and need(1):
        return [Lemma(name, cs, [dom(0, 0, (1 << (2 * M + 2)) - 1), cs[1]], 1, lambda x, a: [("div", a[0], 1 << cs[1])])]
    if n == "FloorHint" and need(1):
        sh = cs[1]
        return [Lemma(name, cs, [dom(0, 0, (1 << (2 * M + 2)) - 1), sh, s], 1,
                      lambda x, a, s=s: [("div", x.add(a[0], (1 << sh) - 1) if s else a[0], 1 << sh)])
                for s in ([cs[2]] if cs[2] is not None else [0, 1])]
    if n == "DecomposeHint" and need(0, 1, 3):
        bits, base, sc = cs[0], cs[1], cs[3]

        def ex(x, a):
            v = x.mul(a[2], sc)
            return [("divmod", v, 1 << (base * i), 1 << base) for i in range(nout)]
        if cs[2] is not None and cs[2] >> bits:
            return []
        return [Lemma(name, cs, [bits, base, dom(2, 0, (1 << bits) - 1), sc], nout, ex)]
    return "no contract for %s%r" % (name, tuple(cs))


def mismatch(m, want, got, p):
    """formula: the output differs from the contract (modulo the field order)"""
    k = want[0]
    if isinstance(got, int) and not -1 < got < p:
        got = got % p
    lo_, hi_ = lo(got), hi(got)
    if lo_ < 0 or hi_ >= p:
        g = iz(got) % p
    else:
        g = iz(got)
    if k == "const":
        return g != I(want[1] % p)
    if k == "eq":
        return g != iz(want[1])
    if k == "div":
        return z3.Not(z3.And(g * want[2] <= iz(want[1]), iz(want[1]) < g * want[2] + want[2]))
    if k == "divmod":
        return g != iz(m.mod(m.fdiv(want[1], want[2]), want[3]))
    if k == "mod":
        return g != iz(m.mod(want[1], want[2]))
    if k == "norm":
        a, ln = iz(want[1]), want[2]
        if isinstance(got, int):
            if not 0 <= got <= ln:
                return z3.BoolVal(True)
            t = 1 << got
            return z3.Not(z3.If(a == 0, z3.BoolVal(got == 0), z3.And(a * t >= (1 << (ln - 1)), a * t < (1 << ln))))
        return z3.Not(z3.Or([z3.And(a == 0, g == 0)] + [z3.And(g == t, a << t if False else a * (1 << t) >= (1 << (ln - 1)), a * (1 << t) < (1 << ln))
                                                        for t in range(ln)]))
    if k == "quot":
        q = m.divterm(want[1], want[2])
        return g != iz(q)
    if k == "sqrt":
        return g != iz(m.sqrtterm(want[1]))
    raise KeyError(k)


def find(prog, name):
    pkg, fn = name.split(".")
    return prog.find(pkg, fn)


def prove(prog, lem, p, timeout=20000, stats=None, budget=60):
    """executes the hint symbolically on the lemma's domain.  -> dict(results, unsupported, ...)
    results: ("cex", dict(kind, args, path)) where path lists the assertions over the argument atoms"""
    fn = find(prog, lem.name)
    if fn is None:
        return dict(results=[], unsupported=["%s is not a function of the repository" % lem.name], paths=0, pending=0, infeasible=0, called=set(), stats=stats)

    def body(m):
        atoms, args = [], []
        for i, d in enumerate(lem.doms):
            if isinstance(d, int):
                atoms.append(d)
            elif d[0] == d[1]:
                atoms.append(d[0])
            else:
                z = z3.Int("arg%d" % i)
                m.s.add(z >= d[0], z <= d[1])
                atoms.append(IV(z, d[0], d[1]))
            args.append(m.newbig(atoms[-1]))
        outs = [m.newbig(0) for _ in range(lem.nout)]
        inp = Slice(list(args), 0, len(args), len(args))
        out = Slice(list(outs), 0, len(outs), len(outs))

        def cex(kind, extra=None):
            m.s.push()
            if extra is not None:
                m.s.add(extra)
            r = m.check()
            res = None
            if r != z3.unsat:
                # arguments fixed by the lemma but not by the call
                fixed = [z3.Int("arg%d" % i) == a for i, a in enumerate(atoms) if isinstance(a, int) and lem.consts[i] is None]
                path = z3.And(list(m.s.assertions()) + fixed)
            if r == z3.sat:
                mod = m.s.model()
                res = ("cex", dict(kind=kind, args=[a if isinstance(a, int) else mod.eval(a.z, model_completion=True).as_long() for a in atoms],
                                   path=path))
            elif r == z3.unknown:
                res = ("unknown", dict(kind=kind, path=path))
            m.s.pop()
            return res
        try:
            err = m.call(fn, [m.newbig(p), inp, out])
        except ssa.GoPanic as e:
            return cex("panic: %s" % e) or ("dead", "")
        if isinstance(err, ssa.Iface) or isinstance(err, ssa.ErrVal):
            return cex("error") or ("dead", "")
        if err is not None:
            raise ssa.Unsupported("result of a hint")
        # inputs must not be changed; outputs are read through their pointers
        bad = []
        for i, (o, w) in enumerate(zip(outs, lem.expect(m, atoms))):
            op = out.a[i]
            v = op.c[op.i].v if isinstance(op, Ptr) else None
            if v is None:
                raise ssa.Unsupported("output pointer replaced")
            if op is not o:
                v = 0   # the caller keeps its own big.Int
            bad.append(mismatch(m, w, v, p))
        for a, at in zip(args, atoms):
            cur = a.c[a.i].v
            if cur is not at and not (isinstance(cur, int) and isinstance(at, int) and cur == at):
                bad.append(iz(cur) != iz(at))
        m.stats.queries += 1
        for e in bad:
            e = z3.simplify(e)
            r = None if z3.is_false(e) else cex("wrong output", e)
            if r:
                return r
        return ("ok", "")
    return ssa.explore(prog, body, timeout=timeout, stats=stats, budget=budget)


# ---------------------------------------------------------------- concrete contract, for replays

def expected(name, a, nout, p):
    """the contract on concrete arguments; for NormalizeHint see normal_ok"""
    n = name.split(".")[-1]
    if n == "DecodeFloatHint":
        return [a[0] >> (a[1] + a[2]), (a[0] >> a[2]) % (1 << a[1])]
    if n == "NthBitHint":
        return [(a[0] >> a[1]) & 1]
    if n == "PowerOfTwoHint":
        return [(1 << a[0]) % p]
    if n == "DecomposeMantissaForRoundingHint":
        v = (a[0] << a[2]) // a[1]
        return [v >> a[3], (v >> a[4]) & 1, (v >> a[5]) & 1, v % (1 << a[5])]
    if n == "NormalizeHint":
        return [a[1] - a[0].bit_length() if a[0] else 0]
    if n == "AbsHint":
        return [1, a[0]] if a[0] < p // 2 else [0, p - a[0]]
    if n == "DivHint":
        return [(a[0] << a[2]) // a[1]]
    if n == "SqrtHint":
        from math import isqrt
        return [isqrt(a[0])]
    if n == "TruncHint":
        return [a[0] >> a[1]]
    if n == "FloorHint":
        return [(a[0] + ((1 << a[1]) - 1 if a[2] else 0)) >> a[1]]
    if n == "DecomposeHint":
        v = a[2] * a[3]
        return [(v >> (a[1] * i)) % (1 << a[1]) for i in range(nout)]
    return None


def collect(d, fm, into):
    """adds the call shapes of a recorded circuit to `into`: (E, name, consts, nout) -> (fm, p)"""
    for n, cs, no in shapes(fm, d):
        into.setdefault((fm.E, n, cs, no), (fm, int(d["field"])))


class Report:
    """verdicts of the lemmas behind a set of call shapes"""

    def __init__(self):
        self.lemmas = self.proved = self.paths = 0
        self.stats = Stats()
        self.fail = {}          # shape -> [(lemma, cex)]
        self.open = []          # what could not be decided
        self.uncovered = []     # shapes without a contract
        self.called = set()
        self.hints = {}


def check_shapes(shapes_, budget=200):
    """proves the lemmas of all call shapes against the Go code of the current tree"""
    rep = Report()
    prog = ssa.program()
    t0 = time.time()
    for key in sorted(shapes_, key=str):
        E, n, cs, no = key
        fm, p = shapes_[key]
        ls = lemma(n, cs, no, fm, p)
        if isinstance(ls, str):
            rep.uncovered.append(ls)
            continue
        rep.hints[n] = rep.hints.get(n, 0) + 1
        for lem in ls:
            rep.lemmas += 1
            if time.time() - t0 > budget:
                rep.open.append("%s: no time left" % lem)
                continue
            r = prove(prog, lem, p, stats=rep.stats)
            rep.paths += r["paths"]
            rep.called |= r["called"]
            bad = [x[1] for x in r["results"] if x[0] in ("cex", "unknown")]
            if bad:
                rep.fail.setdefault(key, []).extend((lem, b) for b in bad)
            for u in r["unsupported"][:1]:
                rep.open.append("%s: %s" % (lem, u))
            if r["pending"]:
                rep.open.append("%s: paths left over" % lem)
            for b in bad:
                if "args" not in b:
                    rep.open.append("%s: no answer (%s)" % (lem, b["kind"]))
            if not bad and not r["unsupported"] and not r["pending"]:
                if r["paths"]:
                    rep.proved += 1
                else:
                    rep.open.append("%s: no path (vacuous)" % lem)
    return rep


def confirm(v, lem, cex, p, curve=""):
    """calls the real hint; -> what it does wrong, or None"""
    r = v.run([dict(kind="hint", name=lem.name, nout=lem.nout, spec=dict(op="add", e=8, m=23, args=[], base=8, curve=curve),
                    inputs=[str(a) for a in cex["args"]])])[0]
    want = expected(lem.name, cex["args"], lem.nout, p)
    if r.get("err") == "no such hint":
        return None
    if r.get("err"):
        return "fails: %s" % r["err"], r
    got = [int(x) for x in r.get("outs") or []]
    if want is not None and got != [w % p for w in want]:
        return "returns %s instead of %s" % (got, want), r
    return None
