"""Loads recorded circuit graphs and normalises them.

A recorded graph (see go/rec) holds linear forms over wires modulo p, defining
operations, assertions, hint calls and table lookups.  Normalisation turns the limb
decompositions emitted by the range checker into single claims `2^t * L in [0, N)`
(an equivalence: limbs in [0,u_j) with radix weights prod(u_i) represent every integer
below prod(u_j) exactly once), and joins the graphs recorded for different lookup-table
widths, which differ only in those claims, taking the loosest bound of each.
"""
import json, hashlib


class Lin:
    """const + sum k*w, integers modulo p kept centred."""
    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (wire, coef)

    def __repr__(self):
        return "Lin(%s;%s)" % (self.c, self.t)


def centre(x, p):
    x %= p
    return x - p if x > p // 2 else x


def parse_lin(a, p):
    return Lin(centre(int(a[0]), p), tuple((a[i], centre(int(a[i + 1]), p)) for i in range(1, len(a), 2)))


def lin_sub(a, b, p):
    d = dict(a.t)
    for w, k in b.t:
        d[w] = d.get(w, 0) - k
    t = tuple((w, centre(k, p)) for w, k in sorted(d.items()) if k % p)
    return Lin(centre(a.c - b.c, p), t)


def lin_scale(a, k, p):
    return Lin(centre(a.c * k, p), tuple((w, centre(x * k, p)) for w, x in a.t if (x * k) % p))


def v2(x):
    return (x & -x).bit_length() - 1


def content2(l):
    """largest t such that 2^t divides every (centred) coefficient of l"""
    xs = [k for _, k in l.t] + ([l.c] if l.c else [])
    return min(v2(abs(x)) for x in xs) if xs else 0


class G:
    """Normalised graph."""
    pass


def load(d):
    g = G()
    g.p = p = int(d["field"])
    g.panic = d.get("panic", "")
    g.base = d.get("base", 0)
    g.wires = []
    for w in d["wires"]:
        g.wires.append((w["op"], tuple(parse_lin(a, p) for a in w.get("args") or ()), w.get("hint", 0) - 1, w.get("out", 0)))
    g.hints = [dict(name=h["name"].split("/")[-1], inputs=[parse_lin(a, p) for a in h["inputs"]], outs=h["outs"],
                    deferred=h.get("where") == "deferred") for h in d.get("hints") or []]
    g.cons = [(c["kind"], tuple(parse_lin(a, p) for a in c["args"]), c.get("where", "")) for c in d.get("cons") or []]
    g.lookups = []
    g.range_queries = []
    g.table_sizes = []
    g.empty_lookups = 0
    g.nqueries = 0
    for l in d.get("lookups") or []:
        qs = [[parse_lin(a, p) for a in q] for q in l["queries"]]
        g.table_sizes.append(l["table_n"])
        g.nqueries += len(qs)
        if not qs:
            g.empty_lookups += 1
        if l["range"] > 0:
            for q in qs:
                g.range_queries.append((q[0], l["range"]))
        else:
            rows = []
            for r in l["table"]:
                rr = [parse_lin(a, p) for a in r]
                rows.append(tuple(x.c if not x.t else None for x in rr))
            g.lookups.append((rows, qs))
    # an upper bound that is a constant is a range claim
    rest = []
    for kind, args, where in g.cons:
        if kind == "le" and not args[1].t:
            g.range_queries.append((args[0], args[1].c % p + 1))
        else:
            rest.append((kind, args, where))
    g.cons = rest
    g.inputs = d.get("inputs") or []
    g.outputs = [parse_lin(a, p) for a in d.get("outputs") or []]
    return g


def merge_claims(claims, p):
    """claims: list of (lin v primitive, t, N): 2^t*v in [0,N).  Merge claims on the same v."""
    by = {}
    order = []
    for v, t, n in claims:
        k = (v.c, v.t)
        if k not in by:
            by[k] = []
            order.append((k, v))
        by[k].append((t, n))
    out = []
    for k, v in order:
        cs = sorted(set(by[k]))
        t0, n0 = cs[0]
        rest = []
        for t, n in cs[1:]:
            if t == t0:
                n0 = min(n0, n)
            elif n0 << (t - t0) <= p:
                # 2^t0*v = T in [0,n0) and 2^t*v = 2^(t-t0)*T does not wrap
                n0 = min(n0, -(-n >> (t - t0)) if n % (1 << (t - t0)) == 0 else (n >> (t - t0)) + 1)
            else:
                rest.append((t, n))
        out.append((v, t0, n0))
        for t, n in rest:
            out.append((v, t, n))
    return out


def primitive(l, p):
    """l -> (v, t) with l = 2^t * v, canonical sign is kept"""
    t = content2(l)
    if t == 0:
        return l, 0
    return Lin(l.c >> t, tuple((w, k >> t) for w, k in l.t)), t


def normalise(g):
    """collapse limb decompositions; returns g with .claims and without .range_queries"""
    p = g.p
    raw = []
    for l, n in g.range_queries:
        if not l.t:
            raw.append((l, 0, n))
            continue
        v, t = primitive(l, p)
        raw.append((v, t, n))
    # wires that are only used as limbs
    single = {}
    for v, t, n in raw:
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            single.setdefault(v.t[0][0], []).append((t, n))
    uses = {}

    def use(l, what):
        for w, _ in l.t:
            uses.setdefault(w, []).append(what)
    for i, (op, args, h, o) in enumerate(g.wires):
        for a in args:
            use(a, ("w", i))
    for i, (k, args, _) in enumerate(g.cons):
        seen = set()
        for a in args:
            for w, _ in a.t:
                if w not in seen:
                    seen.add(w)
                    uses.setdefault(w, []).append(("c", i))
    for i, (v, t, n) in enumerate(raw):
        if not (len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1):
            use(v, ("q", i))
    for rows, qs in g.lookups:
        for q in qs:
            for a in q:
                use(a, ("l", 0))
    for a in g.outputs:
        use(a, ("o", 0))
    for hi, h in enumerate(g.hints):
        if not h["deferred"]:
            for a in h["inputs"]:
                use(a, ("h", hi))
    bound = {}
    for w, cs in single.items():
        if g.wires[w][0] != "hint":
            continue
        m = merge_claims([(Lin(0, ((w, 1),)), t, n) for t, n in cs], p)
        if len(m) == 1 and m[0][1] == 0:
            bound[w] = m[0][2]
    claims = []
    cons = []
    gone = set()
    for ci, (kind, args, where) in enumerate(g.cons):
        if kind == "eq":
            d = lin_sub(args[0], args[1], p)
            limbs = [(w, k) for w, k in d.t if w in bound and uses.get(w) == [("c", ci)]]
            if limbs:
                for sgn in (1, -1):
                    ls = sorted(((k * sgn, w) for w, k in limbs))
                    if ls[0][0] <= 0:
                        continue
                    k0 = ls[0][0]
                    wgt = 1
                    ok = True
                    for k, w in ls:
                        if k != k0 * wgt:
                            ok = False
                            break
                        wgt *= bound[w]
                    if not ok:
                        continue
                    ws = {w for w, _ in limbs}
                    rest = Lin(d.c, tuple((w, k) for w, k in d.t if w not in ws))
                    # rest + sgn*k0*T = 0  ->  -sgn*rest/k0 = T in [0,wgt)
                    if any((x % k0) for _, x in rest.t) or rest.c % k0:
                        ki = pow(k0, -1, p)
                    else:
                        ki = None
                    if ki is None:
                        l = Lin(-sgn * rest.c // k0, tuple((w, -sgn * x // k0) for w, x in rest.t))
                    else:
                        l = lin_scale(rest, -sgn * ki, p)
                    if l.t:
                        v, t = primitive(l, p)
                        claims.append((v, t, wgt))
                    else:
                        claims.append((l, 0, wgt))
                    gone |= ws
                    break
                else:
                    cons.append((kind, args))
                    continue
                continue
        cons.append((kind, args))
    for v, t, n in raw:
        if len(v.t) == 1 and v.t[0][0] in gone:
            continue
        claims.append((v, t, n))
    g.cons = cons
    g.claims = merge_claims(claims, p)
    g.gone = gone
    # hints whose outputs all vanished (decompositions)
    g.hints_kept = [i for i, h in enumerate(g.hints) if not all(o in gone for o in h["outs"])]
    return g


def cone(g, keep):
    """the part of a normalised graph that the outputs depend on, for its first `keep` inputs:
    constraints that have nothing to do with it are dropped (fewer constraints allow more)"""
    dep = [frozenset()] * len(g.wires)
    hint_of = {}
    for hi, h in enumerate(g.hints):
        for o in h["outs"]:
            hint_of[o] = hi
    for i, (op, args, h, o) in enumerate(g.wires):
        if i in hint_of:
            dep[i] = frozenset([hint_of[i]])
        elif args:
            dep[i] = frozenset().union(*[dep[w] for a in args for w, _ in a.t])

    def hs(ls):
        return frozenset().union(*[dep[w] for l in ls for w, _ in l.t]) if any(l.t for l in ls) else frozenset()
    groups_ = [hs(args) for _, args in g.cons] + [hs([v]) for v, _, _ in g.claims] + [hs(q) for _, qs in g.lookups for q in qs]
    K = set(hs(g.outputs))
    while True:
        n = len(K)
        for x in groups_:
            if x & K:
                K |= x
        if len(K) == n:
            break
    g.cons = [c for c in g.cons if hs(c[1]) & K]
    g.claims = [c for c in g.claims if hs([c[0]]) & K]
    g.lookups = [(rows, [q for q in qs if hs(q) & K]) for rows, qs in g.lookups]
    g.lookups = [l for l in g.lookups if l[1]]
    need, todo = set(), [w for l in g.outputs for w, _ in l.t] + list(g.inputs[:keep])
    todo += [w for _, args in g.cons for l in args for w, _ in l.t] + [w for v, _, _ in g.claims for w, _ in v.t]
    todo += [w for _, qs in g.lookups for q in qs for l in q for w, _ in l.t]
    for hi in K:
        todo += list(g.hints[hi]["outs"]) + [w for l in g.hints[hi]["inputs"] for w, _ in l.t]
    while todo:
        w = todo.pop()
        if w not in need:
            need.add(w)
            todo += [v for l in g.wires[w][1] for v, _ in l.t]
    g.gone = set(g.gone) | {i for i in range(1, len(g.wires)) if i not in need}
    g.hints_kept = [h for h in g.hints_kept if h in K or any(o in need for o in g.hints[h]["outs"])]
    g.inputs = [i for i in g.inputs if i in need]
    return g


def renumber(g):
    """canonical numbering of the wires still used, so that graphs can be compared"""
    mp = {}
    n = 1
    hmap = {h: i for i, h in enumerate(g.hints_kept)}
    wires = [("none", (), -1, 0)]
    for i, w in enumerate(g.wires):
        if i == 0 or i in g.gone:
            continue
        if w[0] == "hint" and w[2] not in hmap:
            continue
        mp[i] = n
        n += 1

    def rl(l):
        return Lin(l.c, tuple(sorted((mp[w], k) for w, k in l.t)))
    for i, (op, args, h, o) in enumerate(g.wires):
        if i in mp:
            wires.append((op, tuple(rl(a) for a in args), hmap.get(h, -1), o))
    r = G()
    r.p = g.p
    r.panic = g.panic
    r.base = g.base
    r.wires = wires
    r.hints = [dict(name=g.hints[h]["name"], inputs=[rl(a) for a in g.hints[h]["inputs"]], outs=[mp[o] for o in g.hints[h]["outs"]],
                    orig=h, deferred=g.hints[h]["deferred"]) for h in g.hints_kept]
    # limb decompositions that became claims: value, constant arguments, outputs
    r.decomp = [((g.hints[h]["name"], tuple(None if a.t else a.c % g.p for a in g.hints[h]["inputs"]), len(g.hints[h]["outs"])),
                 [rl(a) for a in g.hints[h]["inputs"]])
                for h in range(len(g.hints)) if h not in hmap and not any(w not in mp for a in g.hints[h]["inputs"] for w, _ in a.t)]
    r.cons = [(k, tuple(rl(a) for a in args)) for k, args in g.cons]
    r.claims = [(rl(v), t, n) for v, t, n in g.claims]
    r.lookups = [(rows, [[rl(a) for a in q] for q in qs]) for rows, qs in g.lookups]
    r.inputs = [mp[i] for i in g.inputs]
    r.outputs = [rl(a) for a in g.outputs]
    r.empty_lookups = g.empty_lookups
    r.table_sizes = g.table_sizes
    r.nqueries = g.nqueries
    return r


def shape(g):
    def s(l):
        return (l.c, l.t)
    x = (g.p, [(op, [s(a) for a in args], h, o) for op, args, h, o in g.wires],
         [(h["name"], [s(a) for a in h["inputs"]], h["outs"]) for h in g.hints],
         [(k, [s(a) for a in args]) for k, args in g.cons],
         sorted({s(v) for v, t, n in g.claims}),
         [(rows, [[s(a) for a in q] for q in qs]) for rows, qs in g.lookups],
         [s(a) for a in g.outputs], g.inputs)
    return hashlib.sha256(repr(x).encode()).hexdigest()


def ispow2(n):
    return n & (n - 1) == 0


def join(gs):
    """graphs of one shape -> one graph with the loosest claims (for soundness) and, in
    .tight, the tightest (for completeness)"""
    loose = {}
    tight = {}
    order = []
    num = 0
    for g in gs:
        seen = {}
        for v, t, n in g.claims:
            k = (v.c, v.t)
            if k in seen:
                return None
            seen[k] = (t, n)
            if k not in loose:
                order.append((k, v))
                loose[k] = (t, n)
                tight[k] = (t, n)
            else:
                t1, n1 = loose[k]
                T = max(t, t1)
                # {v: 2^t v in [0,n)} is contained in {v: 2^T v in [0, n 2^(T-t))}
                loose[k] = (T, max(n1 << (T - t1), n << (T - t)))
                t2, n2 = tight[k]
                # completeness: integers v with 0 <= v < min(n/2^t)
                b1, b2 = (n2 >> t2), (n >> t)
                tight[k] = (0, min(b1, b2)) if t2 or t or b1 != b2 else (t2, n2)
    g = gs[0]
    r = G()
    r.__dict__.update(g.__dict__)
    r.claims = [(v, loose[k][0], loose[k][1]) for k, v in order]
    r.tight = [(v, tight[k][0], tight[k][1]) for k, v in order]
    r.decomp = [x for g in gs for x in g.decomp]
    r.bases = [x.base for x in gs]
    r.members = [getattr(x, "member", None) for x in gs]
    return r


def groups(dumps):
    """dumps: list of recorded graph dicts -> list of joined normalised graphs"""
    by = {}
    for i, d in enumerate(dumps):
        g = normalise(load(d))
        if d.get("cone"):
            g = cone(g, d["cone"])
        g = renumber(g)
        # which recording this is, and where its kept hint calls are
        g.member = (i, [h["orig"] for h in g.hints])
        by.setdefault(shape(g), []).append(g)
    out = []
    for k, gs in by.items():
        j = join(gs)
        if j is None:
            for x in gs:
                jj = join([x])
                if jj is None:  # several claims on one form with different scaling: keep them all
                    x.tight = [(v, t, n) for v, t, n in x.claims]
                    x.bases = [x.base]
                    x.members = [getattr(x, "member", None)]
                    jj = x
                out.append(jj)
        else:
            out.append(j)
    return out
