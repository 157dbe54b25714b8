"""Reported lookup cost (G05): the gadget's Go code with a symbolic bit length, mode and prior
counters, against the lookups its deferred code performs."""
import z3
import ssa
from engine import Stats
from ssa import IV, Big, Ptr, Slice, Iface, Struct, iz, lo, hi, GoPanic, Unsupported
from conv import Query
from ref import F32, F64


class Opq:
    """a circuit variable; only its use is counted"""

    def __init__(self, n="v"):
        self.n = n


class Api:
    pass


def install(m, log):
    api = Api()
    comp = Api()
    m.invokes.update({
        "Compiler": lambda mm, r, a: comp,
        "Defer": lambda mm, r, a: log["deferred"].append(a[0]),
        "MarkBoolean": lambda mm, r, a: None,
        "Select": lambda mm, r, a: Opq(), "IsZero": lambda mm, r, a: Opq(),
        "Add": lambda mm, r, a: Opq(), "Mul": lambda mm, r, a: Opq(), "Sub": lambda mm, r, a: Opq(), "Neg": lambda mm, r, a: Opq(),
        "MulAcc": lambda mm, r, a: Opq(), "And": lambda mm, r, a: Opq(), "Or": lambda mm, r, a: Opq(), "Xor": lambda mm, r, a: Opq(),
        "Inverse": lambda mm, r, a: Opq(), "Lookup2": lambda mm, r, a: Opq(), "ConstantValue": lambda mm, r, a: (None, False),
        "AssertIsBoolean": lambda mm, r, a: None,
    })

    def eq(mm, r, a):
        log["eq"] += 1
    m.invokes["AssertIsEqual"] = eq

    def newhint(mm, r, a):
        n = mm.concretize(a[1], "a number of limbs")
        log["hints"].append(n)
        return (Slice([Opq() for _ in range(n)], 0, n, n), None)
    m.invokes["NewHint"] = newhint

    def build(mm, a):
        ln = lambda s: 0 if s is None else s.n
        log["build"].append((ln(a[1]), ln(a[2])))
        return None
    m.hooks["github.com/consensys/gnark/std/logderivarg.Build"] = build
    m.hooks["github.com/consensys/gnark/std/logderivarg.AsTable"] = lambda mm, a: a[0]

    def lsh(mm, a):
        if isinstance(a[2], IV) and not isinstance(mm.tighten(a[2]), int):
            # the value of a coefficient does not matter here
            a[0].c[a[0].i] = Big(mm.fresh("pow", 0, 1 << 300))
            return a[0]
        return ssa.bigcall(mm, "Lsh", a)
    m.hooks["(*math/big.Int).Lsh"] = lsh
    return api


def check(prog, fm, width, shape, stats, budget, timeout=20000):
    """shape: calls "pow2", or a range check with a length up to the number; every range check
    has its own symbolic length and mode; ("size", n) first gives the size of the power table"""
    new, rc, pw = prog.find("gadget", "New"), prog.find("gadget", "IntGadget.AssertBitLength"), prog.find("gadget", "IntGadget.QueryPowerOf2")
    ent, qry = prog.find("gadget", "IntGadget.LookupEntryConstraints"), prog.find("gadget", "IntGadget.LookupQueryConstraints")
    if None in (new, rc, pw, ent, qry):
        return None

    def body(m):
        log = dict(deferred=[], eq=0, hints=[], build=[])
        api = install(m, log)
        args = []

        def go():
            size = fm.E + fm.M + 1
            if shape[:1] and isinstance(shape[0], tuple):
                size = shape[0][1]
            g = m.call(new, [api, width, size])
            for i, s in enumerate(shape):
                if isinstance(s, tuple):
                    continue
                if s == "pow2":
                    m.call(pw, [g, Opq()])
                else:
                    bits, mode = m.fresh("bits", 1, s), m.fresh("mode", 0, 2)
                    args.extend([bits, mode])
                    m.call(rc, [g, Opq(), bits, mode])
            log["hints"] = []
            log["eq"] = 0
            for f in log["deferred"]:
                err = m.callv(f, [api])
                if err is not None:
                    return Query(m, args).ask("finalisation fails", z3.BoolVal(True), None)
            entries, queries = m.call(ent, [g]), m.call(qry, [g])
            q = Query(m, args)
            n = sum(b for _, b in log["build"]) + log["eq"]
            bad = iz(queries) != n
            if "pow2" in shape:
                # both tables exist
                bad = z3.Or(bad, iz(entries) != sum(a for a, _ in log["build"]))
            else:
                bad = z3.Or(bad, iz(entries) != sum(a for a, _ in log["build"]) + size)
            return q.ask("reported cost", bad, None)
        try:
            return go()
        except GoPanic as e:
            return Query(m, args).ask("panics: %s" % e, z3.BoolVal(True), None)
    return ssa.explore(prog, body, timeout=timeout, stats=stats, budget=budget, maxpaths=200000)


# ---------------------------------------------------------------- the check

def plan(deep):
    out = []
    for fm in (F32, F64):
        for w in range(2, 18):
            if fm is F64 and w > 13 and not deep:
                continue
            out.append((fm, w, (130 if not deep else 250,)))
            out.append((fm, w, ("pow2", 130)))
            if (4 <= w <= 12 and fm is F32) or deep:
                out.append((fm, w, (40, 20) if w > 3 else (20, 12)))
            if deep and 5 <= w <= 12:
                out.append((fm, w, (30, 20, 20)))
                out.append((fm, w, (30, "pow2", "pow2", 20)))
    # small tables of powers, more queries than rows
    for w in (2, 3, 8) if not deep else range(2, 13):
        for n in (1, 2, 3) if not deep else range(1, 7):
            for k in (n, n + 1, n + 3):
                out.append((F32, w, (("size", n),) + ("pow2",) * k))
        out.append((F32, w, (("size", 2),) + ("pow2",) * 3 + (9,)))
        out.append((F32, w, (("size", 3), 5, "pow2", "pow2", "pow2", "pow2", 3)))
    # the largest tables first: building them dominates
    return sorted(out, key=lambda t: -t[1])


def task(t):
    fm, w, shape, budget = t
    st = Stats()
    r = check(ssa.program(), fm, w, shape, st, budget)
    return fm.E, w, shape, r, st.dict()


def confirm(v, fm, w, shape, args):
    """the real circuit: reported numbers against the recorded lookups"""
    if isinstance(shape[0], tuple):
        n = max(shape[0][1], 2)
        seq = []
        for s in shape[1:]:
            # a bit length and the mode of a range check come from the model
            seq += [5, 0, 0] if s == "pow2" else [6, args[0], 0]
        specs = [dict(op="gmulti", e=1, m=n - 2, base=w, args=a) for a in (seq, seq + [5, 0, 0], seq + [5, 0, 0] * 4, seq * 10)]
    elif "pow2" in shape:
        specs = [dict(op="pow2", e=fm.E, m=fm.M, base=w, args=[])]
        pad = list(args) * 6
        specs.append(dict(op="mixed", e=fm.E, m=fm.M, base=w, args=pad[:12]))
    else:
        specs = [dict(op="rc", e=fm.E, m=fm.M, base=w, args=args[:2]), dict(op="rcmulti", e=fm.E, m=fm.M, base=w, args=args),
                 dict(op="rcmulti", e=fm.E, m=fm.M, base=w, args=list(args) * 3)]
    for s in specs:
        j = dict(kind="record", spec=s)
        r = v.run([j])[0]
        if r.get("err") or r["graph"].get("panic"):
            continue
        g = r["graph"]
        n = sum(len(l["queries"] or []) for l in g["lookups"] or []) + sum(1 for h in g["hints"] or [] if "DecomposeHint" in h["name"])
        rows = sum(l["range"] or l["table_n"] for l in g["lookups"] or [])
        if s["op"] in ("rc", "rcmulti"):
            rows += fm.E + fm.M + 1
        got = r["counters"]
        if got["Queries"] != n or got["Entries"] != rows:
            return ("circuit %s with table width %d: reported %d entries and %d queries, the circuit has %d and %d" %
                    (s["op"] + str(s["args"]), w, got["Entries"], got["Queries"], rows, n)), dict(job=j, result=dict(counters=got, entries=rows, queries=n))
    return None


def g05(ck, run, v):
    import multiprocessing as mp
    import conv
    ssa.program()
    ts = [(fm, w, sh, 300 if ck.TIER == "quick" else 1500) for fm, w, sh in plan(ck.TIER == "thorough")]
    st = Stats()
    with mp.get_context("fork").Pool(8) as pool:
        for E, w, shape, r, s in pool.imap_unordered(task, ts):
            fm = F32 if E == 8 else F64
            st.add(s)
            conv.note(ck, run, "reported cost, %d bit, width %d, calls %s" % (fm.E + fm.M + 1, w, list(shape)), r, st,
                      lambda cex: confirm(v, fm, w, shape, cex["args"]))
            if run.violations:
                pool.terminate()
                break
    ck.account(run, st)
