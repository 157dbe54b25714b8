"""Conversions and parsing (F02, U01): the Go code of util and float on symbolic bit patterns,
components and strings."""
import struct
import z3
import ssa
from engine import Stats
from ssa import IV, Big, Ptr, Slice, Iface, Struct, FBits, SymStr, iz, lo, hi, GoPanic, Unsupported, Infeasible
from ref import F32, F64

I = z3.IntVal


def intof(m, v):
    """value of a big.Int, machine integer or interface holding one"""
    if isinstance(v, Iface):
        return intof(m, v.v)
    if isinstance(v, Ptr):
        return m.bigv(v)
    if isinstance(v, Big):
        return v.v
    if ssa.isint(v):
        return v
    if isinstance(v, bool):
        return int(v)
    raise Unsupported("component %r" % (v,))


def comps(m, v):
    if isinstance(v, Slice):
        l = v.items()
    elif isinstance(v, Struct):
        l = list(v)
    else:
        raise Unsupported("components %r" % (v,))
    if len(l) != 4:
        raise Unsupported("%d components" % len(l))
    return [intof(m, x) for x in l]


class Query:
    """a path with its verdict helper"""

    def __init__(self, m, args):
        self.m, self.args = m, args

    def ask(self, kind, bad, names):
        m = self.m
        m.stats.queries += 1
        e = z3.simplify(bad)
        if z3.is_false(e):
            return ("ok", "")
        m.s.push()
        m.s.add(e)
        r = m.check()
        res = ("ok", "")
        if r == z3.sat:
            mod = m.s.model()
            res = ("cex", dict(kind=kind, args=[a if isinstance(a, int) else mod.eval(a.z, model_completion=True).as_long() for a in self.args]))
        elif r == z3.unknown:
            res = ("unknown", dict(kind=kind))
        m.s.pop()
        return res


def guarded(m, args, body, kind="panic"):
    """runs body; a panic that can happen is a counterexample"""
    try:
        return body()
    except GoPanic as e:
        return Query(m, args).ask("panics: %s" % e, z3.BoolVal(True), None)


def context(m, prog, fm):
    """a float.Context built by the real NewContext, with an opaque gadget"""
    new = prog.find("float", "NewContext")
    g = prog.find("gadget", "New")
    if new is None or g is None:
        raise Unsupported("NewContext or gadget.New is missing")
    m.hooks[g] = lambda mm, a: Ptr([Struct()], 0)
    ctx = m.call(new, [None, 0, fm.E, fm.M])
    return Ptr([ctx], 0)


def pattern(m, fm):
    """symbolic fields of a bit pattern -> (v, s, e, f)"""
    s, e, f = m.fresh("s", 0, 1), m.fresh("e", 0, (1 << fm.E) - 1), m.fresh("f", 0, (1 << fm.M) - 1)
    return m.add(m.add(m.mul(s, 1 << (fm.E + fm.M)), m.mul(e, 1 << fm.M)), f), s, e, f


def wrong_components(fm, s, e, f, c):
    """the components differ from the number with fields s, e, f"""
    S, E, M, A = [iz(x) for x in c]
    E_MAX, ENM = fm.EMAX, fm.ENM
    top = (1 << fm.E) - 1
    sub = []
    for t in range(1, fm.M + 1):
        # f has its top bit at fm.M - t
        sub.append(z3.And(f.z >= (1 << (fm.M - t)), f.z < (2 << (fm.M - t)), E == ENM - t, M == f.z * (1 << t)))
    good = z3.Or(
        z3.And(e.z == top, f.z == 0, S == s.z, E == E_MAX, M == (1 << fm.M), A == 1),
        z3.And(e.z == top, f.z != 0, z3.Or(S == 0, S == 1), E == E_MAX, M == 0, A == 1),
        z3.And(e.z == 0, f.z == 0, S == s.z, E == fm.EMIN, M == 0, A == 0),
        z3.And(e.z == 0, f.z != 0, S == s.z, A == 0, z3.Or(sub)),
        z3.And(e.z > 0, e.z < top, S == s.z, A == 0, E == e.z - ((1 << (fm.E - 1)) - 1), M == f.z + (1 << fm.M)))
    return z3.Not(good)


def forward(prog, name, fm, timeout=30000, stats=None, budget=100):
    """bit pattern -> components"""
    pkg, fn = ("float", name) if name.startswith("Context.") else ("util", name)
    full = prog.find(pkg, fn)
    if full is None:
        return None

    def body(m):
        v, s, e, f = pattern(m, fm)
        fl = FBits(v, fm.E + fm.M + 1)

        def go():
            if name == "ComponentsOf":
                a = [v, fm.E, fm.M]
            elif name == "Context.NewConstant":
                a = [context(m, prog, fm), v]
            elif name.startswith("Context."):
                a = [context(m, prog, fm), fl]
            else:
                a = [fl]
            c = comps(m, m.call(full, a))
            return Query(m, [v]).ask("wrong components", wrong_components(fm, s, e, f, c), None)
        return guarded(m, [v], go)
    return ssa.explore(prog, body, timeout=timeout, stats=stats, budget=budget)


def cases(fm):
    return [("nan", 0), ("inf", 0), ("zero", 0)] + [("sub", t) for t in range(1, fm.M + 1)] + [("normal", 0)]


def backward(prog, name, fm, timeout=30000, stats=None, budget=100):
    """components -> bit pattern, for every number of the format"""
    full = prog.find("util", name)
    if full is None:
        return None
    tot = None
    for kind, t in cases(fm):
        def body(m):
            s = m.fresh("s", 0, 1)
            top = (1 << fm.E) - 1
            if kind == "nan":
                c = [s, fm.EMAX, 0, 1]
            elif kind == "inf":
                c = [s, fm.EMAX, 1 << fm.M, 1]
            elif kind == "zero":
                c = [s, fm.EMIN, 0, 0]
            elif kind == "sub":
                f = m.fresh("f", 1 << (fm.M - t), (2 << (fm.M - t)) - 1)
                c = [s, fm.ENM - t, m.mul(f, 1 << t), 0]
            else:
                e, f = m.fresh("e", 1, top - 1), m.fresh("f", 0, (1 << fm.M) - 1)
                c = [s, m.sub(e, (1 << (fm.E - 1)) - 1), m.add(f, 1 << fm.M), 0]
            ptrs = [m.newbig(x) for x in c]

            def go():
                a = [Slice(list(ptrs), 0, 4, 4)]
                if name == "ValueOf":
                    a += [fm.E, fm.M]
                r = m.call(full, a)
                if isinstance(r, FBits):
                    r = r.b
                elif isinstance(r, float):
                    r = struct.unpack("<Q", struct.pack("<d", r))[0] if fm is F64 else struct.unpack("<I", struct.pack("<f", r))[0]
                z, sh = iz(r), s.z * (1 << (fm.E + fm.M))
                if kind == "nan":
                    w = m.mod(r, 1 << (fm.E + fm.M))
                    bad = z3.Or(iz(w) <= (top << fm.M), z < 0, z >= (1 << (fm.E + fm.M + 1)))
                elif kind == "inf":
                    bad = z != sh + (top << fm.M)
                elif kind == "zero":
                    bad = z != sh
                elif kind == "sub":
                    bad = z != sh + f.z
                else:
                    bad = z != sh + e.z * (1 << fm.M) + f.z
                return Query(m, c).ask("wrong pattern", bad, None)
            return guarded(m, c, go)
        r = ssa.explore(prog, body, timeout=timeout, stats=stats, budget=budget)
        if tot is None:
            tot = r
        else:
            for k in ("paths", "infeasible", "pending"):
                tot[k] += r[k]
            tot["results"] += r["results"]
            tot["unsupported"] += r["unsupported"]
            tot["called"] |= r["called"]
    return tot


# ---------------------------------------------------------------- strings

def isin(c, a, b):
    return z3.And(iz(c) >= ord(a), iz(c) <= ord(b))


class HexChar(IV):
    """the hexadecimal digit of a known value"""
    __slots__ = ("d",)


def ishex(c):
    if isinstance(c, HexChar):
        return z3.BoolVal(True)
    return z3.Or(isin(c, "0", "9"), isin(c, "a", "f"), isin(c, "A", "F"))


def hexval(c):
    if isinstance(c, HexChar):
        return c.d
    z = iz(c)
    return IV(z3.If(z <= ord("9"), z - ord("0"), z3.If(z <= ord("F"), z - ord("A") + 10, z - ord("a") + 10)), 0, 15)


def hexnum(m, cs):
    v = 0
    for c in cs:
        v = m.add(m.mul(v, 16), hexval(c))
    if isinstance(v, IV):
        v = IV(v.z, 0, (1 << (4 * len(cs))) - 1)
    return v


def parse_uint(m, a):
    """strconv.ParseUint by its documentation"""
    s, base, bits = ssa.symbytes(a[0]), a[1], a[2]
    if base not in (0, 2, 8, 10, 16) or not isinstance(bits, int):
        raise Unsupported("ParseUint with base %s" % (base,))
    bits = bits or 64
    if not s:
        return (0, ssa.ErrVal("syntax"))
    if base == 0:
        base = 10
        if m.branch(iz(s[0]) == ord("0")):
            base = 8
            s = s[1:]
            if len(s) >= 2:
                for k, l in ((16, "x"), (2, "b"), (8, "o")):
                    if m.branch(z3.Or(iz(s[0]) == ord(l), iz(s[0]) == ord(l.upper()))):
                        base = k
                        s = s[1:]
                        break
            if not s:
                return (0, None)
        if m.branch(z3.Or([iz(c) == ord("_") for c in s])):
            raise Unsupported("underscores in a number")
    top = "%x" % (base - 1)
    if not m.branch(z3.And([ishex(c) if base == 16 else isin(c, "0", top) for c in s])):
        return (0, ssa.ErrVal("syntax"))
    if base == 16:
        v = hexnum(m, s)
    else:
        v = 0
        for c in s:
            v = m.add(m.mul(v, base), m.sub(c, 48))
        if isinstance(v, IV):
            v = IV(v.z, 0, base ** len(s) - 1)
    if hi(v) >= 1 << bits and m.branch(iz(v) >= (1 << bits)):
        return ((1 << bits) - 1, ssa.ErrVal("range"))
    if isinstance(v, IV):
        v = IV(v.z, 0, min(v.hi, (1 << bits) - 1))
    return (v, None)


def decode_hex(m, a):
    s = ssa.symbytes(a[0])
    out = []
    for i in range(0, len(s) - 1, 2):
        if not m.branch(z3.And(ishex(s[i]), ishex(s[i + 1]))):
            return (Slice(out, 0, len(out), len(out)), ssa.ErrVal("byte"))
        out.append(m.add(m.mul(hexval(s[i]), 16), hexval(s[i + 1])))
    err = None if len(s) % 2 == 0 else ssa.ErrVal("length")
    return (Slice(out, 0, len(out), len(out)), err)


def string(m, n):
    return SymStr(m.fresh("c", 0, 255) for _ in range(n))


def hexfloat(prog, name, bits, n, timeout=30000, stats=None, budget=60):
    full = prog.find("util", name)
    if full is None:
        return None

    def body(m):
        m.hooks["strconv.ParseUint"] = parse_uint
        s = string(m, n)

        def go():
            v, err = m.call(full, [s])
            q = Query(m, list(s))
            plain = z3.And([ishex(c) for c in s]) if n else z3.BoolVal(False)
            num = hexnum(m, s)
            lt = lambda x: z3.BoolVal(True) if hi(x) < 1 << bits else iz(x) < (1 << bits)
            fits = z3.And(plain, lt(num))
            if err is not None:
                return q.ask("rejects a bit pattern", fits, None)
            if not isinstance(v, FBits):
                raise Unsupported("result %r" % (v,))
            alts = [z3.And(fits, iz(v.b) == iz(num))]
            if n > 2:
                # an optional 0x prefix denotes the same number
                w = hexnum(m, s[2:])
                alts.append(z3.And(iz(s[0]) == ord("0"), z3.Or(iz(s[1]) == ord("x"), iz(s[1]) == ord("X")), z3.And([ishex(c) for c in s[2:]]),
                                   lt(w), iz(v.b) == iz(w)))
            if v.n != bits:
                return q.ask("wrong width", z3.BoolVal(True), None)
            return q.ask("another number", z3.Not(z3.Or(alts)), None)
        return guarded(m, list(s), go)
    return ssa.explore(prog, body, timeout=timeout, stats=stats, budget=budget)


def ints(prog, n, hexmode, timeout=30000, stats=None, budget=60):
    full = prog.find("util", "StrToIntSlice")
    if full is None:
        return None

    def body(m):
        m.hooks["encoding/hex.DecodeString"] = decode_hex
        for h in ("Error", "Warn", "Info", "Debug"):
            m.hooks["github.com/rs/zerolog/log." + h] = lambda mm, a: None
        for h in ("Msg", "Msgf", "Err", "Send", "Str"):
            m.hooks["(*github.com/rs/zerolog.Event)." + h] = lambda mm, a: None
        s = string(m, n)
        if hexmode:
            if s:
                m.s.add(z3.And([ishex(c) for c in s]))
            want = [m.add(m.mul(hexval(s[i]), 16), hexval(s[i + 1])) for i in range(0, n, 2)]
        else:
            want = list(s)

        def go():
            r = m.call(full, [s, hexmode])
            got = [] if r is None else r.items()
            q = Query(m, list(s))
            if len(got) != len(want):
                return q.ask("returns %d numbers instead of %d" % (len(got), len(want)), z3.BoolVal(True), None)
            return q.ask("wrong number", z3.Or([z3.BoolVal(False)] + [iz(a) != iz(b) for a, b in zip(got, want)]), None)
        return guarded(m, list(s), go)
    return ssa.explore(prog, body, timeout=timeout, stats=stats, budget=budget)


# ---------------------------------------------------------------- the checks

def note(ck, run, what, r, st, confirm):
    """books one exploration; confirm(cex) -> (why, data) or None"""
    c = run.cov
    c["obligations"] += 1
    if r is None:
        run.undecided("%s: the function is not in the repository any more" % what)
        return
    c["leaves_discharged"] += sum(1 for x in r["results"] if x[0] == "ok")
    c["infeasible_paths"] += r["infeasible"]
    c.setdefault("functions_encoded", [])
    c["functions_encoded"] = sorted(set(c["functions_encoded"]) | r["called"])
    done = not r["unsupported"] and not r["pending"] and r["paths"]
    seen = 0
    for x in r["results"]:
        if x[0] == "unknown":
            done = False
            run.undecided("%s: no answer (%s)" % (what, x[1]["kind"]))
        elif x[0] == "cex":
            done = False
            if seen >= 6:
                continue
            seen += 1
            bad = confirm(x[1])
            if bad:
                run.violation("%s: %s" % (what, bad[0]), dict(kind="util", why=bad[0], **bad[1]), key="%s:%s" % (what, ";".join(map(str, x[1]["args"]))))
            else:
                run.undecided("%s: solver model %s (%s) that the real function does not show" % (what, x[1]["args"], x[1]["kind"]))
    for u in sorted(set(r["unsupported"]))[:2]:
        run.undecided("%s: not encoded: %s" % (what, u))
    if r["pending"]:
        run.undecided("%s: paths left over" % what)
    if not r["paths"]:
        run.undecided("%s: no path (vacuous)" % what)
    if done:
        c["obligations_closed"] += 1


def real(v, name, fm, inputs=(), text=None):
    j = dict(kind="util", name=name, spec=dict(op="", e=fm.E, m=fm.M), inputs=[str(x) for x in inputs])
    if text is not None:
        j["text"] = bytes(text).hex()
    r = v.run([j])[0]
    return j, r


def f02(ck, run, v):
    prog = ssa.program()
    st = Stats()
    for fm, names in ((F32, ["ComponentsOf", "F32ToComponents", "Context.NewConstant", "Context.NewF32Constant"]),
                      (F64, ["ComponentsOf", "F64ToComponents", "Context.NewConstant", "Context.NewF64Constant"])):
        for name in names:
            def confirm(cex):
                b = cex["args"][0]
                j, r = real(v, name, fm, [b])
                if r.get("err"):
                    return "%s(%#x) fails: %s" % (name, b, r["err"]), dict(job=j, result=r)
                got = [int(x) for x in r["outs"]]
                want = list(fm.decode(b))
                if got[1:] == want[1:] and (got[0] == want[0] or fm.cls(want) == "nan" and got[0] in (0, 1)):
                    return None
                return "%s(%#x) gives the components %s instead of %s" % (name, b, got, want), dict(job=j, result=r)
            note(ck, run, "%s/%d" % (name, fm.E + fm.M + 1), forward(prog, name, fm, stats=st, budget=max(20, run.left() / 4)), st, confirm)
    for fm, names in ((F32, ["ValueOf", "ComponentsToF32"]), (F64, ["ValueOf", "ComponentsToF64"])):
        for name in names:
            def confirm(cex):
                c = cex["args"]
                j, r = real(v, name, fm, c)
                if r.get("err"):
                    return "%s(%s) fails: %s" % (name, c, r["err"]), dict(job=j, result=r)
                got = int(r["outs"][0])
                back = list(fm.decode(got)) if 0 <= got < 1 << (fm.E + fm.M + 1) else None
                if back and back[1:] == list(c)[1:] and (back[0] == c[0] or fm.cls(c) == "nan"):
                    return None
                return "%s(%s) gives the pattern %#x" % (name, c, got), dict(job=j, result=r)
            note(ck, run, "%s/%d" % (name, fm.E + fm.M + 1), backward(prog, name, fm, stats=st, budget=max(20, run.left() / 4)), st, confirm)
    ck.account(run, st)


def u01(ck, run, v, deep):
    prog = ssa.program()
    st = Stats()
    for name, bits, fm in (("HexToFloat", 64, F64), ("HexToFloat32", 32, F32)):
        for n in range(0, bits // 4 + (3 if not deep else 9)):
            def confirm(cex):
                s = bytes(cex["args"])
                j, r = real(v, name, fm, [], s)
                d = dict(job=j, result=r)
                if r.get("err"):
                    return "%s(%r) fails: %s" % (name, s, r["err"]), d
                t = s[2:] if s[:2] in (b"0x", b"0X") else s
                ok = len(t) > 0 and all(ch in b"0123456789abcdefABCDEF" for ch in t) and int(t, 16) < 1 << bits
                if r["outs"] == ["error"]:
                    return ("%s(%r) is rejected" % (name, s), d) if ok and t == s else None
                if not ok or int(r["outs"][0]) != int(t, 16):
                    return "%s(%r) gives the bit pattern %#x" % (name, s, int(r["outs"][0])), d
                return None
            note(ck, run, "%s, %d characters" % (name, n), hexfloat(prog, name, bits, n, stats=st), st, confirm)
    for hexmode in (False, True):
        for n in range(0, 33 if not deep else 129, 2 if hexmode else 1):
            def confirm(cex):
                s = bytes(cex["args"])
                j, r = real(v, "StrToIntSlice", F32, [int(hexmode)], s)
                d = dict(job=j, result=r)
                if r.get("err"):
                    return "StrToIntSlice(%r, %s) fails: %s" % (s, hexmode, r["err"]), d
                want = list(bytes.fromhex(s.decode())) if hexmode else list(s)
                got = [int(x) for x in r.get("outs") or []]
                return ("StrToIntSlice(%r, %s) gives %s" % (s, hexmode, got), d) if got != want else None
            note(ck, run, "StrToIntSlice, %d characters%s" % (n, ", hex" if hexmode else ""), ints(prog, n, hexmode, stats=st), st, confirm)
    ck.account(run, st)
