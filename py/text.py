"""Text exchanged with H3's tools (U03): what is written parses back, what is printed is read exactly.

A text has a concrete shape (where digits, letters, signs and blanks are) and unknown digits and hex
letters; every shape of the stated family is a path of its own and z3 decides over all digits.  Regular
expressions are taken from the code and matched on the shape; that is exact when every character set of
the expression takes all digits or none (checked), and likewise for the hex letters.
"""
import itertools
import json
import os
import re
import subprocess
import tempfile
import warnings
import z3
import conv
import ssa
import vrec
from engine import Stats
from ssa import FBits, FV, IV, ErrVal, Slice, SymStr, Unsupported, Struct, iz, lo, hi, symbytes

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import sre_parse
    import sre_constants as sc

DIGITS = set(range(48, 58))
LETTERS = set(range(97, 103))


class Tok:
    """an opaque piece of text: a formatted unknown"""

    def __init__(self, fmt, v):
        self.fmt, self.v = fmt, v

    def key(self):
        return (self.fmt, id(self.v))


class Num(FV):
    """an unknown number n/10^k read from a text"""

    def __init__(self, n, k, width=64):
        self.n, self.k, self.width = n, k, width


class Obj:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


def rep(s):
    """a text with the same shape"""
    out = []
    for c in symbytes(s):
        if isinstance(c, Tok):
            raise Unsupported("shape of a formatted unknown")
        if isinstance(c, int):
            out.append(chr(c))
        elif set(range(lo(c), hi(c) + 1)) <= DIGITS:
            out.append("5")
        elif set(range(lo(c), hi(c) + 1)) <= LETTERS:
            out.append("d")
        else:
            raise Unsupported("shape of an unknown character")
    return "".join(out)


def sliced(s, a, b):
    t = symbytes(s)[a:b]
    return bytes(t).decode("latin-1") if all(isinstance(c, int) for c in t) else SymStr(t)


def uniform(pat):
    """every set of the expression takes all digits or none, all of a..f or none"""
    def chars(items):
        neg, got = False, set()
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                got.add(av)
            elif op is sc.RANGE:
                got |= set(range(av[0], min(av[1], 255) + 1))
            elif op is sc.CATEGORY:
                r = {sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_NOT_DIGIT: r"\D", sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S",
                     sc.CATEGORY_WORD: r"\w", sc.CATEGORY_NOT_WORD: r"\W"}[av]
                got |= {i for i in range(256) if re.match(r, chr(i), re.A)}
        return set(range(256)) - got if neg else got

    def walk(p):
        for op, av in p:
            sets = []
            if op is sc.LITERAL:
                sets = [{av}]
            elif op is sc.NOT_LITERAL:
                sets = [set(range(256)) - {av}]
            elif op is sc.IN:
                sets = [chars(av)]
            elif op is sc.BRANCH:
                for q in av[1]:
                    walk(q)
            elif op is sc.SUBPATTERN:
                walk(av[3])
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                walk(av[2])
            elif op not in (sc.ANY, sc.AT):
                raise Unsupported("regular expression with %s" % op)
            for s in sets:
                for k in (DIGITS, LETTERS):
                    if s & k and not k <= s:
                        raise Unsupported("a regular expression that tells digits or letters apart")
    try:
        walk(sre_parse.parse(pat, re.A))
    except re.error as e:
        raise Unsupported("regular expression %r: %s" % (pat, e))


def compile_(pat):
    if not isinstance(pat, str):
        raise Unsupported("an unknown regular expression")
    uniform(pat)
    return Obj("regexp", re=re.compile(pat, re.A))


def strs(xs):
    xs = list(xs)
    return Slice(xs, 0, len(xs), len(xs))


def groups(s, mt):
    return strs("" if mt.start(i) < 0 else sliced(s, mt.start(i), mt.end(i)) for i in range(0, mt.re.groups + 1))


def text(a):
    """string or byte slice -> string"""
    if isinstance(a, Slice):
        it = a.items()
        return bytes(it).decode("latin-1") if all(isinstance(c, int) for c in it) else SymStr(it)
    return "" if a is None else a


def recv(a):
    if not isinstance(a[0], Obj) or a[0].kind != "regexp":
        raise Unsupported("a regular expression that is not known")
    return a[0].re


def findall(s, rx, n):
    r = list(rx.finditer(rep(s)))
    return r if n is None or n < 0 else r[:n]


def digits(m, s):
    """value of a string of digits"""
    v = 0
    for c in s:
        v = m.add(m.mul(v, 10), m.sub(c, 48) if not isinstance(c, int) else c - 48)
    return v


def parsefloat(m, a):
    s, width = a
    t = rep(s)
    mt = re.fullmatch(r"([+-]?)(\d+)(?:\.(\d*))?", t)
    if not mt:
        if re.fullmatch(r"[\w.+-]*", t) and not re.search(r"[eExXpP_iInN]", t):
            return (0.0, ErrVal("syntax"))
        raise Unsupported("ParseFloat(%r)" % t)
    b = symbytes(s)
    i, f = b[mt.start(2):mt.end(2)], b[mt.start(3):mt.end(3)] if mt.group(3) else ()
    n = digits(m, tuple(i) + tuple(f))
    return (Num(m.neg(n) if mt.group(1) == "-" else n, len(f), width), None)


def atoi(m, a):
    s = a[0]
    if not re.fullmatch(r"[+-]?\d{1,17}", rep(s)):
        return (0, ErrVal("syntax"))
    b = symbytes(s)
    sg = b[0] in (43, 45) if isinstance(b[0], int) else False
    n = digits(m, b[1:] if sg else b)
    return (m.neg(n) if sg and b[0] == 45 else n, None)


def formatuint(m, a):
    """hexadecimal text of an unknown: one path per number of digits"""
    v, base = a
    if isinstance(v, int):
        return "%x" % v if base == 16 else str(v) if base == 10 else _uns("FormatUint")
    if base != 16:
        raise Unsupported("FormatUint with base %s" % (base,))
    n = 1
    while n < 16 and not m.branch(v.z < 16 ** n):
        n += 1
    return hexdigits(m, v, n)


def hexdigits(m, v, n, upper=False):
    ds = [m.fresh("h", 0, 15) for _ in range(n)]
    s = z3.IntVal(0)
    for d in ds:
        s = 16 * s + d.z
    m.s.add(s == v.z)
    k = 55 if upper else 87
    out = []
    for d in ds:
        c = conv.HexChar(z3.If(d.z < 10, d.z + 48, d.z + k), 48, k + 15)
        c.d = d
        out.append(c)
    return SymStr(out)


def decimal(v):
    if isinstance(v, IV):
        return SymStr([Tok("%d", v)])
    return str(v)


def _uns(w):
    raise Unsupported(w)


def sprintf(m, a):
    fmt, args = a[0], [x.v if isinstance(x, ssa.Iface) else x for x in ([] if len(a) < 2 or a[1] is None else a[1].items())]
    if not isinstance(fmt, str):
        raise Unsupported("an unknown format")
    out = []
    k = 0
    pos = 0
    for mt in re.finditer(r"%([-+# 0]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", fmt):
        out += list(fmt[pos:mt.start()].encode("latin-1"))
        pos = mt.end()
        verb = mt.group(4)
        if verb == "%":
            out.append(37)
            continue
        v = args[k]
        k += 1
        if verb in "sv" and isinstance(v, (str, SymStr)) and not mt.group(2):
            out += list(symbytes(v))
        elif verb in "dv" and isinstance(v, int) and not isinstance(v, bool) and not mt.group(2):
            out += list(str(v).encode())
        elif verb in "dv" and isinstance(v, IV) and not mt.group(1) and not mt.group(2):
            out.append(Tok("%d", v))
        elif verb == "x" and isinstance(v, (IV, int)) and not isinstance(v, bool):
            w = int(mt.group(2) or 0)
            if lo(v) < 0 and (hi(v) < 0 or m.branch(iz(v) < 0)):
                if w or mt.group(1):
                    raise Unsupported("padding")
                out.append(45)
                v = m.neg(v)
            if isinstance(v, IV):
                v = IV(v.z, max(lo(v), 0), hi(v))
            if w and "0" not in mt.group(1):
                raise Unsupported("padding")
            if w == 16 and hi(v) < 1 << 64:
                out += list(hexdigits(m, v, 16)) if isinstance(v, IV) else list(b"%016x" % v)
            elif not w:
                out += list(symbytes(formatuint(m, (v, 16))))
            else:
                raise Unsupported("padding")
        elif isinstance(v, (FV, FBits)):
            out.append(Tok(mt.group(0), v))
        else:
            raise Unsupported("format %s of %r" % (mt.group(0), v))
    out += list(fmt[pos:].encode("latin-1"))
    return bytes(out).decode("latin-1") if all(isinstance(c, int) for c in out) else SymStr(out)


def sprintln(m, xs):
    out = []
    for i, x in enumerate(xs.items() if xs else []):
        out += ([32] if i else []) + list(symbytes(sprintf(m, ("%v", Slice([x], 0, 1, 1)))))
    return sliced(SymStr(out + [10]), 0, len(out) + 1)


class Fops:
    """bit patterns of doubles and their rounding to single precision and back"""
    narrow = z3.Function("narrow", z3.IntSort(), z3.IntSort())
    widen = z3.Function("widen", z3.IntSort(), z3.IntSort())
    full = False

    def conv(self, m, v, n):
        if isinstance(v, FBits):
            if v.n == n:
                return v
            t = (self.narrow if n == 32 else self.widen)(iz(v.b))
            # a double too small for single precision may round to zero: any pattern is possible
            m.s.add(t >= 0, t < (1 << n))
            if n == 64 and self.full:
                m.s.add(t >= 1 << 56)
            return FBits(IV(t, 0, (1 << n) - 1), n)
        raise Unsupported("conversion of a float")

    def f(self, v):
        raise Unsupported("arithmetic")

    def binop(self, m, o, x, y):
        raise Unsupported("float operator %s" % o)

    def neg(self, x):
        raise Unsupported("negation")

    def call(self, m, n, a):
        raise Unsupported("call of %s" % n)


class World:
    """hooks for one execution"""

    def __init__(self, m, out="", fails=False, initpkg=None):
        self.m, self.out, self.fails = m, out, fails
        self.cmds, self.written, self.created, self.closed = [], [], [], 0
        m.fops = Fops()
        h = m.hooks
        h["strconv.ParseUint"] = conv.parse_uint
        h["strconv.FormatUint"] = formatuint
        h["strconv.ParseFloat"] = parsefloat
        h["strconv.Atoi"] = atoi
        h["strconv.ParseInt"] = lambda mm, a: atoi(mm, a) if a[1] == 10 else _uns("ParseInt")
        h["strconv.Itoa"] = lambda mm, a: decimal(a[0])
        h["strconv.FormatInt"] = lambda mm, a: decimal(a[0]) if a[1] == 10 else _uns("FormatInt")
        h["strconv.FormatFloat"] = lambda mm, a: SymStr([Tok("%%.%d%s" % (a[2], chr(a[1])), a[0])])
        h["fmt.Sprintf"] = sprintf
        h["fmt.Sprint"] = lambda mm, a: sprintf(mm, ("%v", a[0])) if a[0].n == 1 else _uns("Sprint")
        h["fmt.Fprintln"] = lambda mm, a: self.write(a[0], sprintln(mm, a[1]))
        h["fmt.Sprintln"] = lambda mm, a: sprintln(mm, a[0])
        h["fmt.Fprintf"] = lambda mm, a: self.write(a[0], sprintf(mm, a[1:]))
        h["regexp.MustCompile"] = lambda mm, a: compile_(a[0])
        h["regexp.Compile"] = lambda mm, a: (compile_(a[0]), None)
        R = "(*regexp.Regexp)."

        def one(mm, a, t):
            mt = recv(a).search(rep(t))
            return mt
        h[R + "MatchString"] = lambda mm, a: one(mm, a, a[1]) is not None
        h[R + "FindString"] = lambda mm, a: (lambda mt: sliced(a[1], *mt.span()) if mt else "")(one(mm, a, a[1]))
        h[R + "FindStringSubmatch"] = lambda mm, a: (lambda mt: groups(a[1], mt) if mt else None)(one(mm, a, a[1]))
        h[R + "FindAllString"] = lambda mm, a: strs(sliced(a[1], *x.span()) for x in findall(a[1], recv(a), a[2])) or None
        h[R + "FindAllStringSubmatch"] = lambda mm, a: (lambda r: strs(groups(a[1], x) for x in r) if r else None)(findall(a[1], recv(a), a[2]))
        # the same on byte slices
        def raw(v):
            b = list(symbytes(v))
            return Slice(b, 0, len(b), len(b))

        def raws(sl):
            it = [raw(v) for v in sl.items()]
            return Slice(it, 0, len(it), len(it))

        def subs(mm, a):
            t = text(a[1])
            mt = one(mm, a, t)
            # a group without a match is nil, which no one tells from an empty slice here
            return raws(groups(t, mt)) if mt else None

        def allsubs(mm, a):
            t = text(a[1])
            r = [raws(groups(t, x)) for x in findall(t, recv(a), a[2])]
            return Slice(r, 0, len(r), len(r)) if r else None

        def onbytes(name):
            f = h["strings." + name]

            def g(mm, a):
                v = f(mm, tuple(text(x) if isinstance(x, Slice) or x is None else x for x in a))
                return raws(v) if isinstance(v, Slice) else v if isinstance(v, bool) else raw(v)
            return g
        h[R + "Match"] = lambda mm, a: one(mm, a, text(a[1])) is not None
        h[R + "FindSubmatch"] = subs
        h[R + "FindAllSubmatch"] = allsubs
        h["strings.Fields"] = lambda mm, a: strs(sliced(a[0], *x.span()) for x in re.finditer(r"[^\t\n\v\f\r ]+", rep(a[0])))
        h["strings.TrimSpace"] = lambda mm, a: (lambda t: sliced(a[0], len(t) - len(t.lstrip("\t\n\v\f\r ")), len(t.rstrip("\t\n\v\f\r ")) or 0)
                                               if t.strip("\t\n\v\f\r ") else "")(rep(a[0]))
        h["strings.Split"] = lambda mm, a: self.split(a[0], a[1])
        h["strings.Contains"] = lambda mm, a: self.plain(a[1]) in rep(a[0])
        h["strings.HasPrefix"] = lambda mm, a: rep(a[0]).startswith(self.plain(a[1]))
        h["strings.HasSuffix"] = lambda mm, a: rep(a[0]).endswith(self.plain(a[1]))
        h["strings.Cut"] = lambda mm, a: self.cut(a[0], a[1])
        h["strings.TrimPrefix"] = lambda mm, a: sliced(a[0], len(a[1]), len(symbytes(a[0]))) if rep(a[0]).startswith(self.plain(a[1])) else a[0]
        h["strings.TrimSuffix"] = lambda mm, a: sliced(a[0], 0, len(symbytes(a[0])) - len(a[1])) if rep(a[0]).endswith(self.plain(a[1])) else a[0]
        for n in ("Fields", "TrimSpace", "Split", "Contains", "HasPrefix", "HasSuffix"):
            h["bytes." + n] = onbytes(n)
        h["strings.Join"] = lambda mm, a: self.join(a[0], a[1])
        h["os/exec.Command"] = self.command
        C = "(*os/exec.Cmd)."
        h[C + "Output"] = h[C + "CombinedOutput"] = self.run
        h["os.Create"] = self.create
        h["(*os.File).WriteString"] = lambda mm, a: self.write(a[0], a[1])
        h["(*os.File).Write"] = lambda mm, a: self.write(a[0], text(a[1]))
        h["(*os.File).Close"] = self.close
        h["io.WriteString"] = lambda mm, a: self.write(a[0], a[1])
        if initpkg:
            f = initpkg + ".init"
            if f in m.p.funcs:
                old = dict(h)
                h.update({n: (lambda mm, a: None) for n in m.p.funcs if n.endswith(".init") and n != f})
                try:
                    m.call(f, [])
                except Unsupported:
                    pass
                m.hooks = old

    def plain(self, s):
        if not isinstance(s, str) or re.search(r"[0-9a-f]", s):
            raise Unsupported("search for %r" % (s,))
        return s

    def split(self, s, sep):
        sep = self.plain(sep)
        if not sep:
            raise Unsupported("Split")
        out, i = [], 0
        for p in rep(s).split(sep):
            out.append(sliced(s, i, i + len(p)))
            i += len(p) + len(sep)
        return strs(out)

    def cut(self, s, sep):
        k = rep(s).find(self.plain(sep))
        return (s, "", False) if k < 0 else (sliced(s, 0, k), sliced(s, k + len(sep), len(symbytes(s))), True)

    def join(self, xs, sep):
        out = []
        for i, x in enumerate(xs.items() if xs else []):
            out += (list(symbytes(sep)) if i else []) + list(symbytes(x))
        return sliced(SymStr(out), 0, len(out))

    def command(self, m, a):
        self.cmds.append((a[0], list(a[1].items()) if a[1] is not None else []))
        return Obj("cmd")

    def run(self, m, a):
        b = list(symbytes(self.out))
        if self.fails:
            # what it has printed is there all the same
            return (Slice(b, 0, len(b), len(b)), ErrVal("exit status 1"))
        return (Slice(b, 0, len(b), len(b)), None)

    def create(self, m, a):
        self.created.append(a[0])
        if self.fails:
            return (None, ErrVal("cannot create"))
        return (Obj("file"), None)

    def write(self, f, s):
        f = f.v if isinstance(f, ssa.Iface) else f
        if not isinstance(f, Obj) or f.kind != "file":
            raise Unsupported("write to %r" % (f,))
        self.written += list(symbytes(s))
        return (len(symbytes(s)), None)

    def close(self, m, a):
        self.closed += 1
        return None


# ---------------------------------------------------------------- texts of H3's tools

class Text:
    """builds a text with unknown digits"""

    def __init__(self, m):
        self.m, self.b = m, []

    def lit(self, s):
        self.b += list(s.encode())

    def number(self, neg, ints, decs):
        """-> (value, decimals)"""
        if neg:
            self.b.append(45)
        ds = [self.m.fresh("d", 49 if i == 0 and ints > 1 else 48, 57) for i in range(ints)]
        self.b += ds
        fs = [self.m.fresh("d", 48, 57) for _ in range(decs)]
        if decs:
            self.b += [46] + fs
        n = z3.IntVal(0)
        for d in ds + fs:
            n = 10 * n + (d.z - 48)
        return (-n if neg else n, decs)

    def get(self):
        return sliced(SymStr(self.b), 0, len(self.b))


def differ(got, want):
    """z3 condition: the number read is another one"""
    n, k = want
    if isinstance(got, (int, IV)) and not isinstance(got, bool):
        return iz(got) * 10 ** k != n
    if isinstance(got, float):
        from fractions import Fraction
        f = Fraction(got)
        return n * f.denominator != f.numerator * 10 ** k
    if isinstance(got, Num):
        if got.width != 64:
            return z3.BoolVal(True)
        return iz(got.n) * 10 ** k != n * 10 ** got.k
    raise Unsupported("result %r" % (got,))


def vertex_shapes(deep):
    """signs and integer digits of the vertices of a boundary"""
    v = [(a, i, b, j) for a in (0, 1) for b in (0, 1) for i in (1, 2) for j in (1, 2, 3)]
    out = [[]] + [[x] for x in v]
    s = [(a, 2, b, 2 + c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    out += [list(p) for p in itertools.product(s[::2], s[::2])] if not deep else [list(p) for p in itertools.product(s, s)]
    for n in (5, 6, 7, 10):
        for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
            out.append([(a, 2, b, 3)] * n)
        out.append([((k >> 1) & 1, 1 + k % 2, k & 1, 1 + k % 3) for k in range(n)])
    return out


GO = """package @P

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"testing"
)

func TestZzVerif(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	var in []struct {
		Text string
		Fail bool
		Bits []string
		Args []float64
		Index string
		F32 bool
	}
	if err := json.Unmarshal(b, &in); err != nil {
		t.Fatal(err)
	}
	d := os.Getenv("VERIF_DIR")
	wd := filepath.Join(d, "x")
	bin := filepath.Join(d, "h3-master", "build", "bin")
	os.MkdirAll(wd, 0o755)
	os.MkdirAll(bin, 0o755)
	os.Chdir(wd)
	out := func(v any, err error) {
		r := map[string]any{"err": "", "out": v}
		if err != nil {
			r["err"] = err.Error()
		}
		if a, e := os.ReadFile(filepath.Join(d, "args")); e == nil {
			r["args"] = string(a)
		}
		j, e := json.Marshal(r)
		if e != nil {
			j = []byte(fmt.Sprintf(`{"err": %q}`, e.Error()))
		}
		fmt.Printf("VERIF %s\\n", hex.EncodeToString(j))
	}
	bits := func(f float64) string { return fmt.Sprintf("%x", math.Float64bits(f)) }
	_ = bits
	_ = out
	for _, p := range in {
		rc := 0
		if p.Fail {
			rc = 1
		}
		os.Remove(filepath.Join(d, "args"))
		os.WriteFile(filepath.Join(d, "text"), []byte(p.Text), 0o644)
		sh := fmt.Sprintf("#!/bin/sh\\nfor a in \\"$@\\"; do echo \\"$a\\"; done > %s/args\\ncat %s/text\\nexit %d\\n", d, d, rc)
		for _, n := range []string{"latLngToCell", "cellToLatLng", "cellToBoundary"} {
			os.Remove(filepath.Join(bin, n))
			os.WriteFile(filepath.Join(bin, n), []byte(sh), 0o755)
		}
		@B
	}
}
"""

BODY = {
    "cellToBoundary": 'v, err := cellToBoundary(p.Index); r := [][2]string{}; for _, x := range v { r = append(r, [2]string{bits(x[0]), bits(x[1])}) }; out(r, err)',
    "cellToLatLng": 'a, b, err := cellToLatLng(p.Index); out([]string{bits(a), bits(b)}, err)',
    "latLngToCell": 'v, err := latLngToCell(int(p.Args[0]), p.Args[1], p.Args[2]); out(v, err)',
    "executeLatLngToIJK": 'i, j, k, err := executeLatLngToIJK("../h3-master/build/bin/latLngToCell", int(p.Args[0]), p.Args[1], p.Args[2]); out([]int{i, j, k}, err)',
    "ExecuteLatLngToIJK": 'i, j, k, err := ExecuteLatLngToIJK(int(p.Args[0]), p.Args[1], p.Args[2]); out([]int{i, j, k}, err)',
    "WriteHexCellsToFile": '''cells := []HexCell{}
		for i := 0; i+1 < len(p.Bits); i += 2 {
			var x, y uint64
			fmt.Sscanf(p.Bits[i], "%x", &x)
			fmt.Sscanf(p.Bits[i+1], "%x", &y)
			cells = append(cells, HexCell{CenterLat: math.Float64frombits(x), CenterLon: math.Float64frombits(y)})
		}
		err := WriteHexCellsToFile(cells, filepath.Join(wd, "cells.txt"), p.F32)
		c, _ := os.ReadFile(filepath.Join(wd, "cells.txt"))
		out(string(c), err)''',
}


def real(pkg, fn, jobs):
    """the real function, with stand-ins for H3's tools in a scratch folder"""
    d = tempfile.mkdtemp(prefix="verif_u03_")
    try:
        src, ov, inp = os.path.join(d, "t.go"), os.path.join(d, "o.json"), os.path.join(d, "in.json")
        open(src, "w").write(GO.replace("@P", "main" if pkg == "proximity" else pkg).replace("@B", BODY[fn]))
        json.dump(dict(Replace={os.path.join(vrec.REPO, pkg, "zz_verif_test.go"): src}), open(ov, "w"))
        json.dump(jobs, open(inp, "w"))
        e = dict(vrec.goenv(), VERIF_IN=inp, VERIF_DIR=os.path.join(d, "run"))
        os.mkdir(os.path.join(d, "run"))
        r = subprocess.run(["go", "test", "-overlay", ov, "-run", "TestZzVerif", "-count=1", "-v", "-vet=off", "./" + pkg], cwd=vrec.REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        out = [json.loads(bytes.fromhex(l.split()[1])) for l in r.stdout.decode(errors="replace").splitlines() if l.startswith("VERIF ")]
        if len(out) != len(jobs):
            raise vrec.BuildError(r.stdout.decode(errors="replace")[-2000:])
        return out
    finally:
        subprocess.run(["rm", "-rf", d])


INDEX = "8928308280fffff"
LAT, LNG = 37.12345678901234, -122.98765432109876


def hexbits(x):
    import struct
    return "%x" % struct.unpack("<Q", struct.pack("<d", x))[0]


def argpairs(w, m, tool, want):
    """the command run: -> True or the z3 conditions of a wrong one"""
    bad = []
    if len(w.cmds) != 1:
        return True
    path, args = w.cmds[0]
    if not isinstance(path, str):
        raise Unsupported("an unknown command")
    if os.path.basename(path) != tool or len(args) != 2 * len(want):
        return True
    seen = {}
    for k, v in zip(args[::2], args[1::2]):
        if not isinstance(k, str):
            raise Unsupported("an unknown option")
        seen[k] = v
    for k, v in want.items():
        g = seen.get(k)
        if isinstance(v, (str, SymStr)):
            a, b = symbytes(g) if g is not None else None, symbytes(v)
            if a is None or len(a) != len(b) or any(isinstance(x, Tok) for x in a):
                return True
            bad += [iz(x) != iz(y) for x, y in zip(a, b) if x is not y]
        elif isinstance(v, IV):
            t = symbytes(g) if g is not None else ()
            if len(t) == 1 and isinstance(t[0], Tok) and isinstance(t[0].v, (int, IV)):
                bad.append(iz(t[0].v) != v.z)
            elif all(isinstance(x, int) for x in t) and re.fullmatch(r"\d{1,9}", bytes(t).decode("latin-1")):
                bad.append(v.z != int(bytes(t)))
            else:
                return True
        else:
            t = symbytes(g) if g is not None else ()
            if len(t) != 1 or not isinstance(t[0], Tok) or t[0].v is not v:
                return True
            mt = re.fullmatch(r"%(?:\.(\d+))?([a-zA-Z])|%\.(-?\d+)([a-zA-Z])", t[0].fmt)
            if not mt:
                return True
            p, f = (mt.group(1), mt.group(2)) if mt.group(2) else (mt.group(3), mt.group(4))
            if f == "f" and (p is None or int(p) >= 0 and int(p) < 20):
                return True
            if f in "eE" and (p is None or 0 <= int(p) < 16) or f in "gG" and p is not None and 0 <= int(p) < 17:
                return True
            if f not in "fgGeEv":
                return True
    return bad


class TaskT:
    """one function on one shape of text"""

    def __init__(self, pkg, fn, what, shape):
        self.pkg, self.fn, self.what, self.shape = pkg, fn, what, shape

    def name(self):
        return "%s.%s, %s" % (self.pkg, self.fn, self.what)


def tasks(deep):
    out = []
    for sh in vertex_shapes(deep):
        out.append(TaskT("proximity", "cellToBoundary", "%d vertices %s" % (len(sh), ",".join("%s%d/%s%d" % ("-" * a, i, "-" * b, j) for a, i, b, j in sh[:4])), sh))
    for a, i, b, j in [(a, i, b, j) for a in (0, 1) for b in (0, 1) for i in (1, 2) for j in (1, 2, 3)]:
        out.append(TaskT("proximity", "cellToLatLng", "signs %d%d, %d and %d digits" % (a, b, i, j), [(a, i, b, j)]))
    for n in range(3 if not deep else 6):
        for mask in range(8):
            out.append(TaskT("proximity", "latLngToCell", "index shape %d/%d" % (n, mask), (n, mask)))
    for pkg, fn in (("proximity", "executeLatLngToIJK"), ("util", "ExecuteLatLngToIJK")):
        for i, j, k in [(1, 1, 1), (2, 1, 3), (1, 4, 2), (5, 2, 1), (3, 3, 6), (7, 1, 1), (1, 7, 7)] + ([(a, b, c) for a in range(1, 6) for b in range(1, 6) for c in range(1, 6)] if deep else []):
            out.append(TaskT(pkg, fn, "%d, %d and %d digits" % (i, j, k), (i, j, k)))
    for fn in ("cellToBoundary", "cellToLatLng", "latLngToCell", "executeLatLngToIJK"):
        out.append(TaskT("proximity", fn, "the tool fails", None))
    out.append(TaskT("util", "ExecuteLatLngToIJK", "the tool fails", None))
    for n in range(0, 3):
        for f32 in (False, True):
            out.append(TaskT("proximity", "WriteHexCellsToFile", "%d cells%s" % (n, ", single precision" if f32 else ""), (n, f32)))
    return out


def printed(t, m):
    """the text the tool prints and the numbers in it"""
    x = Text(m)
    want = []
    sh = t.shape
    if t.fn == "cellToBoundary":
        x.lit("{\n")
        for a, i, b, j in sh or [(0, 2, 0, 2)]:
            x.lit("   ")
            p = x.number(a, i, 10)
            x.lit(" ")
            q = x.number(b, j, 10)
            x.lit("\n")
            want.append((p, q))
        if sh == []:
            x.b, want = list(b"{\n"), []
        x.lit("}\n")
    elif t.fn == "cellToLatLng":
        for a, i, b, j in sh or [(0, 2, 0, 2)]:
            p = x.number(a, i, 10)
            x.lit(" ")
            q = x.number(b, j, 10)
            x.lit("\n")
            want = [p, q]
    elif t.fn == "latLngToCell":
        n, mask = sh or (0, 0)
        x.lit("I: 1, J: 0, K: 2\n--- ")
        for k in range(15):
            letter = (mask >> (k % 3)) & 1 if n == 0 else (k * (n + 1) + mask) % 3 == 0
            c = m.fresh("c", 97, 102) if letter else m.fresh("c", 48, 57)
            want.append(c)
            x.b.append(c)
        x.lit("\n")
    else:
        x.lit("I: ")
        i, j, k = sh or (1, 1, 1)
        want = [x.number(0, i, 0)]
        x.lit(", J: ")
        want.append(x.number(0, j, 0))
        x.lit(", K: ")
        want.append(x.number(0, k, 0))
        x.lit("\n--- 8928308280fffff\n")
    return x, want


def body(prog, t, full, parsers):
    def go(m):
        initpkg = full.rsplit(".", 1)[0]
        if t.fn == "WriteHexCellsToFile":
            return write(m, t, full, parsers, initpkg)
        x, want = printed(t, m)
        w = World(m, x.get(), t.shape is None, initpkg)
        lat, lng = FV(), FV()
        # an index has 15 or 16 hexadecimal digits; a resolution goes from 0 to 15
        index = sliced(SymStr([m.fresh("i", 97, 102) if c in "abcdef" else m.fresh("i", 48, 57) for c in INDEX]), 0, len(INDEX))
        res = m.fresh("res", 0, 15)
        q = conv.Query(m, list(x.b) + list(symbytes(index)) + [res])
        pos = t.fn in ("latLngToCell", "executeLatLngToIJK", "ExecuteLatLngToIJK")
        args = [res, lat, lng] if pos else [index]
        if t.fn == "executeLatLngToIJK":
            args = ["../h3-master/build/bin/latLngToCell"] + args

        def run():
            r = m.call(full, args)
            vals, err = list(r[:-1]), r[-1]
            tool = "latLngToCell" if pos else t.fn
            bad = argpairs(w, m, tool, {"--resolution": res, "--latitude": lat, "--longitude": lng} if pos else {"--index": index})
            if bad is True:
                return q.ask("arguments", z3.BoolVal(True), None)
            if bad:
                a = q.ask("arguments", z3.Or(bad), None)
                if a[0] != "ok":
                    return a
            if t.shape is None:
                return q.ask("no error", z3.BoolVal(err is None), None)
            if err is not None:
                return q.ask("an error", z3.BoolVal(True), None)
            if t.fn == "cellToBoundary":
                got = [] if vals[0] is None else [list(v) for v in vals[0].items()]
                if len(got) != len(want):
                    return q.ask("%d vertices instead of %d" % (len(got), len(want)), z3.BoolVal(True), None)
                alts = [differ(g, w_) for gs, ws in zip(got, want) for g, w_ in zip(gs, ws)]
            elif t.fn == "latLngToCell":
                s = symbytes(vals[0])
                if len(s) != len(want):
                    return q.ask("another index", z3.BoolVal(True), None)
                alts = [iz(a) != iz(b) for a, b in zip(s, want)]
            else:
                alts = [differ(g, w_) for g, w_ in zip(vals, want)]
            return q.ask("another number", z3.Or(alts + [z3.BoolVal(False)]), None)
        return conv.guarded(m, q.args, run)
    return go


def write(m, t, full, parsers, initpkg):
    n, single = t.shape
    w = World(m, "", False, initpkg)
    m.fops.full = n > 1
    # every length for one cell, full length (or one digit less) for more
    bits = [m.fresh("b", 0 if n < 2 else 1 << 56, (1 << 64) - 1) for _ in range(2 * n)]
    cells = [Struct([FBits(bits[2 * i], 64), FBits(bits[2 * i + 1], 64), None]) for i in range(n)]
    q = conv.Query(m, bits)

    def run():
        err = m.call(full, [Slice(cells, 0, n, n), "cells.txt", single])
        if err is not None or len(w.created) != 1:
            return q.ask("an error", z3.BoolVal(True), None)
        lines, cur = [], []
        for c in w.written:
            if isinstance(c, int) and c == 10:
                lines.append(cur)
                cur = []
            else:
                cur.append(c)
        words = []
        for l in lines:
            ws, cur2 = [], []
            for c in l:
                if isinstance(c, int) and c == 32:
                    ws.append(cur2)
                    cur2 = []
                else:
                    cur2.append(c)
            words.append(ws + [cur2])
        if cur or len(words) != n or any(len(x) != 2 for x in words):
            return q.ask("lines", z3.BoolVal(True), None)
        alts = []
        for b, s in zip(bits, [s for x in words for s in x]):
            s = sliced(SymStr(s), 0, len(s))
            want = FBits(b, 64)
            if single:
                nar = m.fops.conv(m, want, 32)
                want = m.fops.conv(m, nar, 64)
            v, e = m.call(parsers["HexToFloat"], [s])
            bad = z3.BoolVal(True) if e is not None or not isinstance(v, FBits) else iz(v.b) != iz(want.b)
            if single and not (e is None and len(s) > 8):
                v, e = m.call(parsers["HexToFloat32"], [s])
                bad = z3.And(bad, z3.BoolVal(True) if e is not None or not isinstance(v, FBits) else iz(v.b) != iz(nar.b))
            alts.append(bad)
        return q.ask("another number", z3.Or(alts + [z3.BoolVal(False)]), None)
    return conv.guarded(m, bits, run)


def confirm(t, cex):
    """the counterexample on the real function -> (why, data) or None"""
    import struct
    if t.fn == "WriteHexCellsToFile":
        n, single = t.shape
        # rounding to single precision is uninterpreted in the model: try some patterns besides it
        import random
        rng = random.Random(1)
        jobs = [dict(Bits=["%x" % b for b in cex["args"]], F32=single)]
        for _ in range(40):
            jobs.append(dict(Bits=[hexbits(rng.choice([rng.uniform(-180, 180), rng.random() * 1e-3, -0.0, 0.0])) for _ in range(2 * n)], F32=single))
        for j, r in zip(jobs, real(t.pkg, t.fn, jobs)):
            want = []
            for b in j["Bits"]:
                x = struct.unpack("<d", struct.pack("<Q", int(b, 16)))[0]
                if single:
                    try:
                        x = struct.unpack("<f", struct.pack("<f", x))[0]
                    except OverflowError:
                        x = float("inf") if x > 0 else float("-inf")
                want.append(x)
            ls = r["out"].split("\n")
            ok = not r["err"] and ls[-1] == "" and len(ls) == n + 1
            if ok:
                got = [s for l in ls[:-1] for s in l.split(" ")]
                ok = len(got) == len(want) and all(reads(s, x, single) for s, x in zip(got, want))
            if not ok:
                return "the cells %s are written as %r" % (want, r["out"]), dict(function=t.fn, job=j, result=r)
        return None
    import random
    rng = random.Random(1)
    n = len(INDEX) + 1
    s = bytes(cex["args"][:-n]).decode("latin-1")
    index, res = bytes(cex["args"][-n:-1]).decode("latin-1"), cex["args"][-1]
    # the model's digits first, then others in the same places
    texts = [s] + [re.sub(r"\d", lambda _: rng.choice("123456789"), s) for _ in range(16)]
    jobs = [dict(Text=x, Fail=t.shape is None, Index=index, Args=[res, LAT, LNG]) for x in texts]
    for job, r in zip(jobs, real(t.pkg, t.fn, jobs)):
        bad = judge(t, job, r)
        if bad:
            return bad
    return None


def judge(t, job, r):
    import struct
    s = job["Text"]
    d = dict(function=t.fn, job=job, result=r)
    if t.shape is None:
        if not r["err"]:
            return "a failure of the tool is not reported", d
        return None
    if t.fn in ("cellToBoundary", "cellToLatLng"):
        want = {"--index": job["Index"]}
    else:
        want = {"--resolution": float(job["Args"][0]), "--latitude": LAT, "--longitude": LNG}
    a = (r.get("args") or "").split("\n")[:-1]
    got = dict(zip(a[::2], a[1::2]))
    try:
        if len(a) != 2 * len(want) or any((float(got.get(k, "nan")) if isinstance(v, float) else got.get(k)) != v for k, v in want.items()):
            return "the tool is called with %s" % a, d
    except ValueError:
        return "the tool is called with %s" % a, d
    if r["err"]:
        return "the output %r is rejected: %s" % (s, r["err"]), d
    if t.fn == "cellToBoundary":
        w = [[hexbits(float(y)) for y in l.split()] for l in s.split("\n") if "." in l]
        g = r["out"] or []
    elif t.fn == "cellToLatLng":
        w, g = [hexbits(float(y)) for y in s.split()], r["out"]
    elif t.fn == "latLngToCell":
        w, g = s.split("--- ")[1].strip(), r["out"]
    else:
        w, g = [int(y) for y in re.findall(r": (\d+)", s)], r["out"]
    if g != w:
        show = lambda v: [show(y) for y in v] if isinstance(v, list) else struct.unpack("<d", struct.pack("<Q", int(v, 16)))[0] if isinstance(v, str) and t.fn != "latLngToCell" else v
        return "from the output %r it reads %s" % (s, show(g)), d
    return None


def reads(s, x, single):
    import struct
    try:
        b = int(s, 16) if re.fullmatch(r"[0-9a-fA-F]+", s) else -1
    except ValueError:
        return False
    if b < 0:
        return False
    if single and len(s) <= 8 and b == struct.unpack("<I", struct.pack("<f", x))[0]:
        return True
    if x != x:
        return b < 1 << 64 and struct.unpack("<d", struct.pack("<Q", b))[0] != struct.unpack("<d", struct.pack("<Q", b))[0]
    return b < 1 << 64 and "%x" % b == hexbits(x)


def u03(ck, run):
    prog = ssa.program(("./proximity", "./util"))
    st = Stats()
    c = run.cov
    c["functions_encoded"] = []
    parsers = {n: prog.find("util", n) for n in ("HexToFloat", "HexToFloat32")}
    for t in tasks(ck.TIER == "thorough"):
        if run.left() < 15:
            run.undecided("%s: out of time" % t.name())
            continue
        full = prog.find(t.pkg, t.fn) or (prog.find("main", t.fn) if t.pkg == "proximity" else None)
        r = None
        if full is not None and None not in parsers.values():
            r = ssa.explore(prog, body(prog, t, full, parsers), timeout=30000, stats=st, budget=60)
        if len(run.violations) >= 6:
            # enough shown
            run.undecided("%s: not replayed" % t.name()) if r and any(x[0] == "cex" for x in r["results"]) else None
            if r and any(x[0] == "cex" for x in r["results"]):
                c["obligations"] += 1
                continue
        conv.note(ck, run, t.name(), r, st, lambda cex: confirm(t, cex))
    ck.account(run, st)
