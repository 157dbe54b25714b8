"""Runs the case tree of an obligation on all cores and collects verdicts."""
import multiprocessing as mp
from math import isqrt
import os
import sys
import time
import traceback
import z3
from engine import Ctx, Exec, Val, con, Fork, Dead, Inconclusive, Stats

OBL = []       # obligations, inherited by the forked workers


class Obligation:
    """graph + specification; subclasses say what is asked at a leaf"""
    kind = "soundness"

    def __init__(self, name, g, spec, timeout=30000, meta=None):
        self.name, self.g, self.spec, self.timeout = name, g, spec, timeout
        self.meta = meta or {}

    def cases(self):
        return self.spec.cases()

    def leaf(self, ctx, case):
        """runs the path; returns the z3 Bool asking for a violation and a dict of things to
        evaluate in a model"""
        ins = self.spec.setup(ctx, case)
        ex = Exec(ctx, self.g, ins)
        ex.run()
        outs = [ex.lin(o) for o in self.g.outputs]
        insv = [ex.vals[w] for w in self.g.inputs]
        neg = self.spec.violated(ctx, case, outs, insv)
        return neg, ex, insv

    def wellformed(self, ctx):
        return self.spec.wellformed(ctx) if hasattr(self.spec, "wellformed") else []


def val_in(ctx, m, v):
    s = v.f.c
    for i, k in v.f.t.items():
        a = ctx.atoms[i]
        x = m.eval(a.z, model_completion=True)
        s += k * ((1 if z3.is_true(x) else 0) if a.kind == "bool" else x.as_long())
    return s * pow(pow(2, v.k, ctx.p), -1, ctx.p) % ctx.p


def form_in(ctx, m, f):
    s = f.c
    for i, k in f.t.items():
        a = ctx.atoms[i]
        x = m.eval(a.z, model_completion=True)
        s += k * ((1 if z3.is_true(x) else 0) if a.kind == "bool" else x.as_long())
    return s


def exact_model(ctx, rounds=60):
    """a model in which every product of unknowns has its exact value; None when there is
    none; raises Inconclusive"""
    s = ctx.s
    for _ in range(rounds):
        m = s.model()
        bad = []
        for i, A, B in ctx.prodlist:
            a, b, pv = form_in(ctx, m, A), form_in(ctx, m, B), form_in(ctx, m, Form_(i))
            if a * b != pv:
                bad.append((i, A, B, a, b))
        if not bad:
            return m
        for flip in (0, 1):
            s.push()
            for i, A, B in ctx.prodlist:
                X, Y = (A, B) if not flip else (B, A)
                x = form_in(ctx, m, X)
                s.add(ctx.z(X) == x, ctx.atoms[i].z == x * ctx.z(Y))
            r = ctx.check()
            if r == z3.sat:
                m2 = s.model()
                s.pop()
                return m2
            s.pop()
        for i, A, B, a, b in bad:
            P, zA, zB = ctx.atoms[i].z, ctx.z(A), ctx.z(B)
            t = a * zB + b * zA - a * b
            s.add(z3.Implies(z3.And(zA >= a, zB >= b), P >= t), z3.Implies(z3.And(zA <= a, zB <= b), P >= t),
                  z3.Implies(z3.And(zA >= a, zB <= b), P <= t), z3.Implies(z3.And(zA <= a, zB >= b), P <= t),
                  z3.Implies(zA == a, P == a * zB), z3.Implies(zB == b, P == b * zA))
            if A.key() == B.key():
                lo, hi = ctx.interval(A)
                pts = {a, a - 1, a + 1}
                pv = form_in(ctx, m, Form_(i))
                if pv >= 0:
                    pts |= {isqrt(pv), isqrt(pv) + 1}
                for t in pts:
                    s.add(P >= (2 * t + 1) * zA - t * (t + 1))
                    if lo < t < hi:
                        s.add(z3.If(zA <= t, P <= (lo + t) * zA - lo * t, P <= (t + hi) * zA - t * hi))
        r = ctx.check()
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            raise Inconclusive("no answer while refining products")
    raise Inconclusive("products could not be refined")


def Form_(i):
    from engine import Form
    return Form(0, {i: 1})


def run_path(o, case, path, stats, want_reach=False):
    """-> (verdict, payload)"""
    ctx = Ctx(o.g.p, path, timeout=o.timeout, stats=stats)
    info = dict(path=list(path))
    try:
        neg, ex, insv = o.leaf(ctx, case)
        info["path"] = list(ctx.path)
        if want_reach:
            r = ctx.check()
            info["reach"] = str(r)
            if r == z3.unsat:
                return "dead", info
        ctx.s.add(neg)
        r = ctx.check()
        if r == z3.sat:
            wf = o.wellformed(ctx)
            if wf:
                ctx.s.add(*wf)
                r = ctx.check()
        if r == z3.unsat:
            return "ok", dict(info, incomplete=ctx.incomplete)
        if r == z3.unknown:
            return "unknown", dict(info, why="no answer within the time limit", incomplete=ctx.incomplete)
        m = exact_model(ctx)
        if m is None:
            return "ok", dict(info, incomplete=ctx.incomplete)
        cex = dict(inputs=[val_in(ctx, m, v) for v in insv], hints={})
        if ex is not None:
            for i, h in enumerate(o.g.hints):
                cex["hints"][i] = [val_in(ctx, m, ex.vals[w]) for w in h["outs"]]
        if hasattr(o, "extra"):
            cex["extra"] = o.extra(ctx, m)
        return "cex", dict(info, cex=cex, incomplete=ctx.incomplete)
    except Fork as f:
        return "fork", dict(kids=f.kids, incomplete=ctx.incomplete)
    except Dead:
        return "dead", dict(info, incomplete=ctx.incomplete)
    except Inconclusive as e:
        return "unknown", dict(info, why=str(e), incomplete=ctx.incomplete)
    except z3.Z3Exception as e:
        return "unknown", dict(info, why="z3: %s" % traceback.format_exc(limit=-8), incomplete=ctx.incomplete)
    except Exception as e:  # an encoding failure is not an answer
        return "unknown", dict(info, why="encoder: %s" % traceback.format_exc(limit=-3), incomplete=ctx.incomplete)


def worker(task):
    oi, ci, paths, slice_s, first = task
    o = OBL[oi]
    case = o.cases()[ci]
    st = Stats()
    t0 = time.time()
    res = dict(oi=oi, ci=ci, ok=0, dead=0, unknown=[], cex=[], incomplete=[], reach=0)
    stack = list(paths)
    reach = first
    while stack and (time.time() - t0 < slice_s):
        path = stack.pop()
        v, info = run_path(o, case, path, st, want_reach=reach)
        for x in info.get("incomplete") or ():
            res["incomplete"].append(x)
        if v == "fork":
            stack.extend(reversed(info["kids"]))
        elif v == "ok":
            res["ok"] += 1
            if info.get("reach") == "sat":
                res["reach"] += 1
                reach = False
        elif v == "dead":
            res["dead"] += 1
        elif v == "unknown":
            res["unknown"].append((path, info.get("why")))
        else:
            res["cex"].append((path, info["cex"]))
            if len(res["cex"]) >= 3:
                break
    res["stack"] = stack
    res["needreach"] = reach
    res["stats"] = st.dict()
    return res


def solve(obls, budget=600, procs=None, stop_on_cex=True, on_cex=None, verbose=False, slice_s=4):
    """-> per-obligation summaries"""
    global OBL
    OBL = obls
    procs = procs or min(8, os.cpu_count() or 4)
    t0 = time.time()
    sums = [dict(name=o.name, leaves=0, dead=0, unknown=[], cex=[], incomplete=[], cases=len(o.cases()), cases_done=0, reached=0,
                 stats=Stats(), pending=0, confirmed=[], unconfirmed=0) for o in obls]
    tasks = []
    for oi, o in enumerate(obls):
        for ci in range(len(o.cases())):
            tasks.append((oi, ci, [[]], slice_s, True))
    tasks.reverse()
    live = {}
    for oi, ci, _, _, _ in tasks:
        live[(oi, ci)] = 1
    stopped = set()
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(procs)
    running = []
    done = False
    try:
        while (tasks or running) and not done:
            while tasks and len(running) < procs:
                t = tasks.pop()
                if t[0] in stopped:
                    live[(t[0], t[1])] -= 1
                    sums[t[0]]["pending"] += 1
                    continue
                running.append((t, pool.apply_async(worker, (t,))))
            nxt = []
            got = False
            for t, r in running:
                if not r.ready():
                    nxt.append((t, r))
                    continue
                got = True
                res = r.get()
                s = sums[res["oi"]]
                s["leaves"] += res["ok"]
                s["dead"] += res["dead"]
                s["unknown"] += [(res["ci"],) + u for u in res["unknown"]]
                s["incomplete"] += res["incomplete"]
                s["reached"] += res["reach"]
                s["stats"].add(res["stats"])
                k = (res["oi"], res["ci"])
                live[k] -= 1
                if res["stack"] and res["oi"] not in stopped:
                    # hand the rest out in pieces
                    st = res["stack"]
                    n = min(len(st), max(1, procs - len(tasks)))
                    for i in range(n):
                        tasks.append((res["oi"], res["ci"], st[i::n], slice_s, res["needreach"] and i == 0))
                        live[k] += 1
                if live[k] == 0:
                    s["cases_done"] += 1
                for path, cex in res["cex"]:
                    s["cex"].append((res["ci"], path, cex))
                    if on_cex is not None:
                        if s["unconfirmed"] < 12:
                            v = on_cex(obls[res["oi"]], obls[res["oi"]].cases()[res["ci"]], cex)
                            if v:
                                s["confirmed"].append(v)
                                if stop_on_cex:
                                    stopped.add(res["oi"])
                                    done = True
                            else:
                                s["unconfirmed"] += 1
                                if s["unconfirmed"] >= 12:
                                    stopped.add(res["oi"])
            running = nxt
            if time.time() - t0 > budget:
                for t, r in running:
                    sums[t[0]]["pending"] += 1
                for t in tasks:
                    sums[t[0]]["pending"] += 1
                break
            if not got:
                time.sleep(0.01)
    finally:
        pool.terminate()
        pool.join()
    for s in sums:
        s["wall"] = time.time() - t0
    return sums


class HonestObligation(Obligation):
    kind = "completeness"

    def leaf(self, ctx, case):
        from honest import Honest
        ins = self.spec.setup(ctx, case)
        ex = Honest(ctx, self.g, ins, fails=self.meta.get("fails"))
        ex.run()
        insv = [ex.vals[w] for w in self.g.inputs]
        if not ex.goals:
            return z3.BoolVal(False), None, insv
        return z3.Or([z3.Not(e) for _, e in ex.goals]), None, insv
