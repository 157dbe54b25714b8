"""Entry point: check.py <property id>.  See DESIGN.md."""
import json
import os
import random
import subprocess
import sys
import threading
import time
import traceback

T0 = time.time()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import graph
import gspec
import hints
import solve
import vrec
from plan import plan, Item, BASES, CURVES
from ref import F32, F64
from solve import Obligation, HonestObligation

VERIF = vrec.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = {"quick": 760, "thorough": 5400}.get(TIER, 760)


class Run:
    """one run of a property's check: collects verdicts and coverage"""

    def __init__(self, pid):
        self.pid = pid
        self.cov = dict(queries=0, solver_time_s=0.0, slowest_query_s=0.0, leaves_discharged=0, obligations=0, obligations_closed=0,
                        infeasible_paths=0, reach_witnesses=0, undecided=[], items=[])
        self.violations = []
        self.known = []
        self.notes = []
        self.explain = []
        self.assume = []
        self.findings = load_findings(pid)
        self.done = False

    def left(self):
        return BUDGET - (time.time() - T0)

    def violation(self, what, data, key=None):
        """a confirmed violation; key identifies it for the known-findings file"""
        for f in self.findings:
            if key is not None and f["key"] == key:
                if f not in self.known:
                    self.known.append(f)
                return False
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, what=what, **data), f, indent=1)
        self.violations.append((what, path))
        return True

    def undecided(self, what):
        self.cov["undecided"].append(what)


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out.append(dict(key=key.replace("key=", "", 1), what=what))
    return out


# ---------------------------------------------------------------- circuits

def account(run, st):
    c = run.cov
    d = st.dict()
    c["queries"] += d["queries"]
    c["solver_time_s"] += d["time"]
    c["slowest_query_s"] = max(c["slowest_query_s"], d["maxq"])


def hint_report(run, rep, what):
    account(run, rep.stats)
    c = run.cov
    c["obligations"] += rep.lemmas
    c["obligations_closed"] += rep.proved
    c["leaves_discharged"] += rep.paths
    c["hint_lemmas"] = rep.lemmas
    c["hint_lemmas_proved"] = rep.proved
    c["hint_paths"] = rep.paths
    c["hint_call_shapes"] = rep.hints
    c["functions_encoded"] = sorted(set(c.get("functions_encoded") or []) | rep.called)
    for u in rep.open + rep.uncovered:
        run.undecided("%s%s" % (what, u))


def specs_of(it):
    b = dict(op=it.op, e=it.fm.E, m=it.fm.M, args=it.args, curve=it.curve)
    if it.pre:
        b.update(pre=it.pre)
    if it.pin:
        b.update(pin=it.pin, pinbits=it.pinbits)
    out = [dict(b, base=x) for x in it.bases]
    if it.auto:
        out += [dict(b, base=0), dict(b, base=0, scs=True)]
    return out


def width_of(d, base):
    """effective width of the range table of a recorded circuit"""
    for l in d.get("lookups") or []:
        if l["range"] > 0:
            return l["range"].bit_length() - 1
    return base or 17


class Circuits:
    def __init__(self, run):
        self.run = run
        self.v = vrec.Vrec()

    def record(self, items):
        jobs, where = [], []
        for it in items:
            ss = specs_of(it)
            where.append((len(jobs), len(ss)))
            jobs += [dict(kind="record", spec=s) for s in ss]
        rs = self.v.run(jobs, timeout=600)
        for it, (o, n) in zip(items, where):
            it.specs = [j["spec"] for j in jobs[o:o + n]]
            it.recs = rs[o:o + n]

    def prepare(self, it):
        """groups of equal circuits for an item; panics are kept apart"""
        it.panics = []
        it.noquery = []
        ok, idx = [], []
        for i, (s, r) in enumerate(zip(it.specs, it.recs)):
            if r.get("err") or r["graph"].get("panic"):
                it.panics.append((s, r.get("err") or r["graph"]["panic"]))
                continue
            d = r["graph"]
            d["base"] = width_of(d, s["base"])
            self.run.cov["functions_encoded"] = sorted(set(self.run.cov.get("functions_encoded") or []) | set(d.pop("functions", None) or []))
            if any(not l["queries"] for l in d.get("lookups") or []):
                it.noquery.append(s)
            if it.pre and it.kind == "sound":
                d["cone"] = len(d["inputs"]) - 8
            ok.append(d)
            idx.append(i)
        it.groups = graph.groups(ok) if ok else []
        for g in it.groups:
            g.memspecs = [(it.specs[idx[m[0]]], b, m[1]) for m, b in zip(g.members, g.bases)]
        it.recs = None

    def replay(self, it, g, spec_, cex, honest):
        """the model of the solver in the real constraint systems; -> confirmed data or None"""
        ms = g.memspecs
        # widest tables first: they claim least
        order = sorted(ms, key=lambda m: -m[1]) if not honest else ms
        jobs = []
        for s, b, origs in order:
            j = dict(kind="replay", spec=s, inputs=[str(x) for x in cex["inputs"] + (one1(it.fm) if it.pre and not honest else [])])
            if not honest:
                j["adversary"] = True
                j["hints"] = {str(origs[int(i)]): [str(x) for x in v] for i, v in cex["hints"].items()}
            jobs.append(j)
        rs = self.v.run(jobs)
        for (s, b, _), j, r in zip(order, jobs, rs):
            bad = verdict(it, spec_, b, j, r, g.p, honest)
            if bad:
                return dict(kind="circuit", honest=honest, job=j, result={k: r.get(k) for k in ("outs", "r1cs", "scs", "bad", "err")}, why=bad,
                            item=it.name(), width=b)
        return None


def one1(fm):
    return [0, 0, 1 << fm.M, 0] * 2


def systems(spec):
    """the systems a recording stands for: without a given table width each chooses its own"""
    if spec["base"]:
        return ("r1cs", "scs")
    return ("scs",) if spec.get("scs") else ("r1cs",)


def verdict(it, spec_, b, j, r, p, honest):
    ins = [int(x) for x in j["inputs"]]
    if honest:
        if spec_.provable(ins, p) is not True:
            return None
        if r.get("err"):
            # the hints failed: so does the real prover (checked below when it ran)
            if r.get("r1cs") or r.get("scs"):
                pass
            else:
                return "the witness computation fails: %s" % r["err"]
        for k in systems(j["spec"]):
            if r.get(k) and r[k] != "ok":
                return "valid operands cannot be proven (%s): %s" % (k, r[k])
        return None
    if r.get("err"):
        return None
    if "ok" not in [r.get(k) for k in systems(j["spec"])]:
        return None
    outs = [int(x) for x in r.get("outs") or []]
    if it.pre:
        ins = ins[:-8]
    f = spec_.judge(ins, outs, p, b) if it.gadget else spec_.judge(ins, outs, p)
    if f is False:
        return "a proof of a wrong statement is accepted: outputs %s" % outs
    return None


def run_items(run, items):
    cx = Circuits(run)
    try:
        _run_items(run, items, cx)
    finally:
        cx.v.close()


def same_circuit(a, b):
    """two items with pairwise identical circuits"""
    if len(a.groups) != len(b.groups):
        return False
    f = lambda it: sorted((graph.shape(g), sorted((tuple([v.c, v.t]), t, n) for v, t, n in g.claims),
                           sorted((tuple([v.c, v.t]), t, n) for v, t, n in g.tight)) for g in it.groups)
    return f(a) == f(b)


def _run_items(run, items, cx):
    t = time.time()
    fails = {}
    extra = [Item(i.via, i.fm, i.args, kind=i.kind, gadget=i.gadget, curve=i.curve, bases=i.bases, auto=i.auto) for i in items if i.via]
    cx.record(items + extra)
    sh = {}
    for it in items:
        if it.kind == "honest":
            for r in it.recs:
                if r.get("graph") and not r["graph"].get("panic"):
                    hints.collect(r["graph"], it.fm, sh)
    for it in items + extra:
        cx.prepare(it)
    if sh:
        # the contracts used below for the hint functions, against the Go code
        rep = hints.check_shapes(sh, budget=min(200, run.left() / 3))
        hint_report(run, rep, "hint contract: ")
        for (E, n, cs, no), l in rep.fail.items():
            fails.setdefault(E, {})[(n, cs, no)] = [c["path"] for _, c in l]
    run.cov["record_time_s"] = round(time.time() - t, 2)
    run.cov["circuits_recorded"] = sum(len(i.specs) for i in items)
    ex = iter(extra)
    todo = []
    for it in items:
        it.skip = None
        if it.via:
            e = next(ex)
            if it.groups and same_circuit(it, e):
                it.skip = "the circuit is identical to %s, whose verdict covers it" % it.via
        todo.append(it)
    # a circuit that cannot be compiled proves nothing: a violation for the honest prover
    for it in todo:
        if it.panics and it.kind == "honest":
            s, why = it.panics[0]
            data = dict(kind="compile", job=dict(spec=s), why="the circuit cannot be compiled: %s" % why, item=it.name())
            if real_compile_fails(cx, s):
                run.violation("%s: %s (table width %d)" % (it.name(), data["why"], s["base"]), data, key="%s:compile" % it.name())
        elif it.panics:
            run.notes.append("%s: not compiled for widths %s: %s" % (it.name(), [s["base"] for s, _ in it.panics], it.panics[0][1]))
    # a lookup argument without a single query cannot be proven, whatever the operands
    for it in todo:
        if it.kind == "honest" and it.noquery and not run.violations:
            s = it.noquery[0]
            p = it.groups[0].p
            sp = it.spec([width_of_spec(s)])
            for row in rows(random.Random(SEED), it, 200):
                ins = [v % p for v in row]
                j = dict(kind="replay", spec=s, inputs=[str(v) for v in ins])
                if sp.provable(ins, p) is not True:
                    continue
                r = cx.v.run([j])[0]
                bad = verdict(it, sp, s["base"], j, r, p, True)
                if bad:
                    run.violation("%s (table width %d), inputs %s: a lookup table without queries: %s" % (it.name(), s["base"], ins, bad),
                                  dict(kind="circuit", honest=True, job=j, result={k: r.get(k) for k in ("r1cs", "scs", "err")}, why=bad, item=it.name()),
                                  key="%s:noquery" % it.name())
                break
    obls = []
    for it in todo:
        if it.skip:
            continue
        for g in it.groups:
            sp = it.spec(g.bases)
            cls = Obligation if it.kind == "sound" else HonestObligation
            o = cls(it.name(), g, sp, meta=dict(fails=fails.get(it.fm.E)) if it.kind == "honest" else None)
            o.it = it
            obls.append(o)

    def on_cex(o, case, cex):
        honest = o.it.kind == "honest"
        c = cx.replay(o.it, o.g, o.spec, cex, honest)
        if c is None:
            return None
        c["case"] = str(case)
        c["p"] = str(o.g.p)
        key = "%s:%s" % (o.it.name(), ";".join(c["job"]["inputs"]))
        if run.violation("%s, table width %d, inputs %s: %s" % (o.it.name(), c["width"], c["job"]["inputs"], c["why"]), c, key=key):
            return c
        return None

    if not obls:
        return
    sums = solve.solve(obls, budget=max(30, run.left()), on_cex=on_cex, stop_on_cex=True)
    again = []
    for o, s in zip(obls, sums):
        if s["cex"] and not s["confirmed"] and len(o.g.bases) > 1:
            again.append((o, s))
    if again and not run.violations:
        # counterexamples of the joined circuit that no single width has: ask per width
        obls2 = []
        for o, s in again:
            o.replaced = True
            for sub in split(cx, o):
                obls2.append(sub)
        if run.left() > 30:
            sums2 = solve.solve(obls2, budget=run.left() - 10, on_cex=on_cex, stop_on_cex=True)
            obls = [o for o in obls if not getattr(o, "replaced", False)] + obls2
            sums = [s for s in sums if s not in [a[1] for a in again]] + sums2
    record(run, todo, obls, sums)
    if not run.violations and run.left() > 20:
        validate(run, cx, todo)


def width_of_spec(s):
    return s["base"] or 17


def rows(rnd, it, n):
    for _ in range(n):
        yield sample(rnd, it)


def real_compile_fails(cx, s):
    r = cx.v.run([dict(kind="compile", spec=s)])[0]
    return bool(r.get("err"))


def split(cx, o):
    """one obligation per recording of a joined circuit"""
    it = o.it
    rs = cx.v.run([dict(kind="record", spec=s) for s, b, _ in o.g.memspecs], timeout=600)
    out = []
    for (s, b, _), r in zip(o.g.memspecs, rs):
        d = r["graph"]
        d["base"] = b
        for g in graph.groups([d]):
            g.memspecs = [(s, b, g.members[0][1])]
            n = type(o)(it.name() + "/width %d" % b, g, it.spec([b]), meta=o.meta)
            n.it = it
            out.append(n)
    return out


def record(run, items, obls, sums):
    c = run.cov
    for o, s in zip(obls, sums):
        st = s["stats"].dict()
        c["queries"] += st["queries"]
        c["solver_time_s"] += st["time"]
        c["slowest_query_s"] = max(c["slowest_query_s"], st["maxq"])
        c["leaves_discharged"] += s["leaves"]
        c["infeasible_paths"] += s["dead"]
        c["reach_witnesses"] += s["reached"]
        c["obligations"] += s["cases"]
        closed = s["cases_done"] if not (s["unknown"] or s["pending"] or s["cex"] or s["incomplete"]) else \
            max(0, s["cases_done"] - len({u[0] for u in s["unknown"]} | {x[0] for x in s["cex"]}) - s["pending"])
        c["obligations_closed"] += closed
        c["items"].append(dict(circuit=o.name, widths=sorted(set(o.g.bases)), wires=len(o.g.wires), constraints=len(o.g.cons),
                               range_claims=len(o.g.claims), hints=sorted({h["name"] for h in o.g.hints}), cases=s["cases"], cases_done=s["cases_done"],
                               leaves=s["leaves"], infeasible=s["dead"], reached=s["reached"], queries=st["queries"],
                               solver_s=round(st["time"], 2)))
        if s["pending"]:
            run.undecided("%s: %d of %d cases not finished in the time budget" % (o.name, s["cases"] - s["cases_done"], s["cases"]))
        for ci, path, why in s["unknown"][:3]:
            run.undecided("%s, case %s: %s" % (o.name, o.cases()[ci], (why or "").strip().splitlines()[-1] if why else ""))
        if len(s["unknown"]) > 3:
            run.undecided("%s: %d more undecided leaves" % (o.name, len(s["unknown"]) - 3))
        for x in s["incomplete"][:2]:
            run.undecided("%s: incomplete case split: %s" % (o.name, x))
        if s["cex"] and not s["confirmed"]:
            ci, path, cex = s["cex"][0]
            run.undecided("%s, case %s: %d solver models that do not replay in the real constraint system, e.g. inputs %s"
                          % (o.name, o.cases()[ci], len(s["cex"]), cex["inputs"]))
        if s["cases_done"] == s["cases"] and not s["reached"] and not s["cex"] and not s["unknown"]:
            run.undecided("%s: no case reaches its assertion (vacuous)" % o.name)
    for it in items:
        if it.skip:
            c["items"].append(dict(circuit=it.name(), note=it.skip))


# ---------------------------------------------------------------- validation of the recorder

def sample(rnd, it):
    fm = it.fm
    n = fm.E + fm.M + 1

    def flt():
        k = rnd.randrange(8)
        if k == 0:
            return fm.decode(rnd.choice([0, 1 << (n - 1), ((1 << fm.E) - 1) << fm.M, (((1 << fm.E) - 1) << fm.M) | 1, 1, (1 << fm.M) - 1, 1 << fm.M]))
        if k == 1:
            return fm.decode(rnd.getrandbits(fm.M) | rnd.getrandbits(1) << (n - 1))
        if k < 5:
            e = (1 << (fm.E - 1)) - 1 + rnd.randrange(-fm.M - 3, fm.M + 4)
            return fm.decode(rnd.getrandbits(1) << (n - 1) | e << fm.M | rnd.getrandbits(fm.M) & ~((1 << rnd.randrange(fm.M + 1)) - 1))
        return fm.decode(rnd.getrandbits(n))
    op = it.op
    if op == "newfloat":
        return [rnd.choice([rnd.getrandbits(n), rnd.getrandbits(fm.M), rnd.getrandbits(n + 2), ((1 << fm.E) - 1) << fm.M])]
    if it.gadget:
        a = it.args
        v = lambda b: rnd.choice([0, 1, (1 << b) - 1, 1 << b, rnd.getrandbits(b + 1), rnd.getrandbits(b), -rnd.getrandbits(b), -1])
        if op == "pow2":
            return [rnd.randrange(-2, n + 2)]
        if op == "geq":
            x = rnd.getrandbits(8)
            return [x, rnd.choice([x, rnd.getrandbits(8)])]
        if op in ("gmax", "gmin"):
            x = rnd.getrandbits(20)
            return [x, x + v(a[0])]
        if op in ("gabs", "gpos", "rc"):
            return [v(a[0])]
        if op == "rcdup":
            return [v(min(a[0::2]))]
        if op == "gmulti":
            r = []
            for o, b, m in gspec.steps(a):
                k = gspec.arity(o, m)
                if o == "pow2":
                    r += [rnd.randrange(0, n)] * k
                else:
                    r += [rnd.choice([0, 1, gspec.CONST, (1 << b) - 1, rnd.getrandbits(b + (rnd.randrange(9) == 0)), -rnd.getrandbits(b) if o != "rc" else 0]) if b else rnd.randrange(8) for _ in range(k)]
            return r
        if op in ("rcmulti", "rctwo"):
            return [v(b) for b in a[0::2]]
        if op == "mixed":
            return [rnd.randrange(n) for _ in range(2)] + [v(b) for b in a[0::2]]
        return [rnd.getrandbits(8)]
    un = op in ("sqrt", "trunc", "floor", "ceil", "toint", "fabs", "fneg")
    x = flt()
    y = rnd.choice([flt(), x, fm.neg(x)]) if not un else ()
    r = list(x) + (list(y) if not it.pin else [])
    if it.pre:
        r += flt() + flt()
    if op == "fselect":
        r = [rnd.getrandbits(1)] + r
    return r


def validate(run, cx, items):
    """the recorded graphs and the compiled constraint systems must accept the same rows"""
    rnd = random.Random(SEED)
    jobs, whose = [], []
    seen = set()
    per = 40 if TIER == "quick" else 300
    cap = 60 if TIER == "quick" else 400
    its = list(items)
    if len(its) > cap:
        its = rnd.sample(its, cap)
    for it in its:
        k = (it.op, it.fm.E, tuple(it.args), it.curve, it.pin, it.pinbits, it.pre)
        if k in seen or not it.groups:
            continue
        seen.add(k)
        p = it.groups[0].p
        good = [s for g in it.groups for s, b, _ in g.memspecs if b <= 12] or [s for g in it.groups for s, _, _ in g.memspecs]
        for s in rnd.sample(good, 1 if len(its) > 12 else min(2, len(good))):
            rows = [[str(v % p) for v in sample(rnd, it)] for _ in range(per if len(its) <= 12 else 10)]
            jobs.append(dict(kind="validate", spec=s, many=rows))
            whose.append(it)
    if not jobs:
        return
    rs = cx.v.run(jobs, timeout=max(20, run.left()))
    bad = [(j["spec"], m) for j, r in zip(jobs, rs) for m in (r.get("mismatch") or [])] + [(j["spec"], r["err"]) for j, r in zip(jobs, rs) if r.get("err")]
    run.cov["validation_rows"] = sum(r.get("n") or 0 for r in rs)
    run.cov["validation_circuits"] = len(jobs)
    run.cov["validation_mismatches"] = len(bad)
    if bad:
        run.cov["validation_mismatch_samples"] = [str(b)[:600] for b in bad[:3]]
        names = {it.name() for it, j, r in zip(whose, jobs, rs) if r.get("err") or r.get("mismatch")}
        lost = 0
        for i in run.cov["items"]:
            if i.get("cases_done") and any(i["circuit"].startswith(n) for n in names):
                lost += i["cases_done"]
        # nothing about these circuits has been decided
        run.cov["obligations_closed"] = max(0, run.cov["obligations_closed"] - lost)
        for n in sorted(names):
            run.undecided("%s: the recorded graph and the compiled circuit disagree, its verdict does not count: %s" % (n, str(bad[0])[:400]))


# ---------------------------------------------------------------- main



def evidence(run, err=None):
    c = run.cov
    c["solver_time_s"] = round(c["solver_time_s"], 2)
    c["slowest_query_s"] = round(c["slowest_query_s"], 3)
    c["undecided_count"] = len(c["undecided"])
    c["explanation"] = " ".join(run.explain)
    if run.notes:
        c["notes"] = run.notes
    d = dict(property=run.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="other", coverage=c,
             assumptions=run.assume, wall_s=round(time.time() - T0, 2), violations=len(run.violations))
    if err:
        c["error"] = err
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % run.pid)
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", run.pid + ".json"))


CIRCUIT_EXPLAIN = ("The library's own code is executed with symbolic circuit variables through a recording gnark frontend (rebuilt from /repo on "
                   "this run); the recorded constraint graph is translated to integer constraints modulo the field order, every hint value is an "
                   "unknown (soundness) or its contract (completeness), and z3 decides each case of the operand space over all values. "
                   "Models are replayed in the compiled R1CS and SCS systems before they are reported. Every count below is measured on this run.")
CIRCUIT_ASSUME = ["operands are in the normal form that allocation produces (F01 shows that allocation enforces it)",
                  "the logarithmic-derivative lookup argument and the range checker built on it accept exactly table members (trusted gnark)",
                  "field: the BN254 scalar field, for the cheaper circuits (listed in the items) BLS12-381's too; in the thorough tier all three of BN254, BLS12-381, BLS12-377",
                  "lookup-table widths 2..17 and the automatic choice, R1CS and SCS"]


def finish(run):
    """evidence and verdict"""
    code = 0
    pid = run.pid
    evidence(run)
    for f in run.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for what, path in run.violations:
        print("%s" % what)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    c = run.cov
    print("%s: %d obligations, %d closed, %d leaves, %d queries, %.1f s of solver time, %d undecided, %.1f s" %
          (pid, c["obligations"], c["obligations_closed"], c["leaves_discharged"], c["queries"], c["solver_time_s"], len(c["undecided"]), time.time() - T0))
    for u in c["undecided"][:8]:
        print("  undecided:", u)
    return code


def watchdog(run):
    """a last resort against a solver that overruns its time limits: what is open then is undecided"""
    def stop():
        if run.done:
            return
        run.done = True
        run.undecided("the time limit ended the run before everything was decided")
        for k in subprocess.run(["pgrep", "-P", str(os.getpid())], stdout=subprocess.PIPE).stdout.split():
            try:
                os.kill(int(k), 9)
            except OSError:
                pass
        code = finish(run)
        sys.stdout.flush()
        os._exit(code)
    t = threading.Timer(BUDGET + 80, stop)
    t.daemon = True
    t.start()


def main():
    pid = sys.argv[1]
    run = Run(pid)
    watchdog(run)
    try:
        items = plan(pid, TIER)
        if items:
            run.explain.append(CIRCUIT_EXPLAIN)
            run.assume += CIRCUIT_ASSUME
        import extra
        fns = extra.EXTRA.get(pid, [])
        if not items and not fns:
            print("no check for", pid)
            sys.exit(2)
        if items:
            try:
                run_items(run, items)
            except vrec.BuildError:
                raise
            except Exception:
                traceback.print_exc()
                run.undecided("circuits: %s" % traceback.format_exc(limit=-2).replace("\n", " "))
        for f in fns:
            if run.violations:
                break
            try:
                f(run)
            except vrec.BuildError:
                raise
            except Exception:  # no verdict on this part: neither a violation nor a success
                traceback.print_exc()
                run.undecided("%s: %s" % (f.__name__, traceback.format_exc(limit=-2).replace("\n", " ")))
    except vrec.BuildError as e:
        print("ERROR: %s" % e)
        if not vrec.compiles():
            evidence(run, str(e))
            sys.exit(2)
        # the library is fine, but a function the check calls has another name or form now: no verdict
        run.undecided("the harness does not build against this tree: %s" % str(e)[-400:])
    except Exception:
        traceback.print_exc()
        evidence(run, traceback.format_exc(limit=-3))
        sys.exit(2)
    if run.done:
        time.sleep(60)
    run.done = True
    sys.exit(finish(run))


if __name__ == "__main__":
    main()
