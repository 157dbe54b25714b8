"""What each property asks: circuits, formats, parameters."""
from ref import F32, F64, Fmt
from fspec import Spec, HSpec, PSpec, HPSpec, HQSpec
from gspec import GSpec, HGSpec, GMulti, HGMulti, steps, arity

BASES = list(range(2, 18))


class Item:
    def __init__(self, op, fm, args=(), kind="sound", bases=None, auto=True, gadget=False, curve="", via=None, pin=None, pinbits=0, pre=None):
        self.pin, self.pinbits, self.pre = pin, pinbits, pre
        self.op, self.fm, self.args, self.kind, self.auto, self.curve = op, fm, list(args), kind, auto, curve
        self.bases = bases or BASES
        self.gadget = gadget
        self.via = via      # op whose circuit this one must equal (then its verdict carries over)

    def name(self):
        n = "%s%d" % (self.op, self.fm.E + self.fm.M + 1)
        if self.args:
            n += "(%s%s)" % (",".join(str(a) for a in self.args[:18]), ",... %d values" % len(self.args) if len(self.args) > 18 else "")
        if self.pre:
            n += "[after %s]" % self.pre
        if self.pin:
            n += "[both operands the same]" if self.pin == "same" else "[%s=const 0x%x]" % (self.pin, self.pinbits)
        if self.curve:
            n += "@" + self.curve
        return n + ":" + self.kind

    def spec(self, bases):
        if self.gadget:
            k = (GMulti, HGMulti) if self.op == "gmulti" else (GSpec, HGSpec)
            s = k[self.kind != "sound"](self.op, self.fm, self.args, bases)
            s.curbases = bases
            return s
        if self.pre and self.kind == "honest":
            return HQSpec(self.op, self.fm, self.args)
        if self.pin:
            return (PSpec if self.kind == "sound" else HPSpec)(self.op, self.fm, self.args, self.pin, self.pinbits)
        return (Spec if self.kind == "sound" else HSpec)(self.op, self.fm, self.args)


def both(op, kind="sound", **k):
    return [Item(op, F32, kind=kind, **k), Item(op, F64, kind=kind, **k)]


SOUND = {
    "F01": ["newfloat"], "F03": ["add", "sub"], "F04": ["mul"], "F05": ["div"], "F06": ["sqrt"],
    "F07": ["lt", "le", "gt", "ge"], "F08": ["trunc", "floor", "ceil"], "F09": ["toint"],
    "F10": ["fneg", "fabs", "fselect"], "F11": ["asserteq"],
}
HONEST = {
    "F11": ["asserteq"],
    "F13": ["newfloat", "add", "sub", "mul", "div", "sqrt"],
    "F14": ["lt", "le", "gt", "ge", "trunc", "floor", "ceil", "toint"],
}
CURVES = ["bls12-381", "bls12-377"]
QUICKCURVES = ("F01", "F04", "F05", "F06", "F07", "F08", "F09", "F10", "F11", "F13", "F14", "G03", "G04")


def bits(fm, x):
    import struct
    return struct.unpack("<I", struct.pack("<f", x))[0] if fm is F32 else struct.unpack("<q", struct.pack("<d", x))[0]


PINOPS = {"F03": ("add", "sub"), "F04": ("mul",), "F05": ("div",), "F07": ("lt", "le", "gt", "ge"), "F10": ("fselect",), "F11": ("asserteq",), "F12": ("ulp1",)}
PINHONEST = {"F11": ("asserteq",), "F12": ("ulp1",), "F13": ("add", "sub", "mul", "div"), "F14": ("lt", "le", "gt", "ge")}


def pinned(pid, deep):
    """constant operands and equal operands: the builder folds constants and merges equal
    variables, so these are circuits of their own"""
    out = []
    for kind, tab in (("sound", PINOPS), ("honest", PINHONEST)):
        for op in tab.get(pid, ()):
            for fm in (F32, F64):
                n = fm.E + fm.M + 1
                one = ((1 << (fm.E - 1)) - 1) << fm.M
                inf = ((1 << fm.E) - 1) << fm.M
                some = [one | 0x5A5A5 | 1 << (n - 1)] if fm is F64 or op in ("add", "sub") else [one | 0x5A5A5 | 1 << (n - 1), one, 1]
                special = [0, 1 << (n - 1), inf, inf | 1]
                if not deep:
                    if fm is F64 and op in ("add", "sub", "div"):
                        some = []
                    if fm is F64:
                        special = special[:1]
                cs = some + special
                sides = ("x", "y") if op not in ("add", "mul", "asserteq") or deep else ("y",)
                bases = [2, 8, 11, 12] if op in ("add", "sub") and not deep else None
                for side in sides:
                    for k in cs:
                        out.append(Item(op, fm, kind=kind, pin=side, pinbits=k, bases=bases))
                if not (fm is F64 and op in ("add", "sub") and not deep):
                    out.append(Item(op, fm, kind=kind, pin="same", bases=bases))
    return out


AFTER = {"F03": ("add",), "F04": ("mul",), "F05": ("div",), "F06": ("sqrt",), "F07": ("lt", "ge"), "F08": ("trunc", "floor"), "F09": ("toint",)}
AFTERH = {"F13": ("mul", "div", "sqrt"), "F14": ("lt", "floor", "toint")}


def after(pid, deep):
    """operations after another one in the same context: nothing may carry over"""
    out = []
    for kind, tab in (("sound", AFTER), ("honest", AFTERH)):
        for op in tab.get(pid, ()):
            for pre in (op, "mul" if op != "mul" else "sqrt"):
                for fm in (F32, F64) if deep else (F32,):
                    out.append(Item(op, fm, kind=kind, pre=pre, auto=False, bases=None if deep else [3, 5, 8, 11], via=op if kind == "sound" else None))
    return out


# several gadget calls in one circuit: (opcode, length, mode) each, see go/ops
MULTI = {
    "G03": [[5, 0, 0] * 5, [5, 0, 0] * 40, [5, 0, 0, 6, 9, 0, 5, 0, 0, 6, 24, 0, 5, 0, 0, 0, 12, 0, 5, 0, 0], [5, 0, 1, 5, 0, 0, 5, 0, 1, 5, 0, 0]],
    "G04": [[0, 12, 0, 1, 24, 0, 2, 9, 0, 3, 12, 0, 4, 0, 0, 0, 24, 0, 1, 12, 0, 2, 24, 0, 3, 24, 0, 4, 0, 0],
            [2, 12, 1, 2, 12, 2, 2, 12, 3, 3, 12, 1, 3, 12, 2, 3, 12, 3], [4, 0, 1, 4, 0, 2, 4, 0, 3, 0, 12, 1, 1, 12, 1, 0, 12, 0, 1, 12, 0],
            [0, 12, 0, 5, 0, 0, 6, 12, 0, 0, 12, 0, 5, 0, 0, 1, 12, 0]],
}


def plan(pid, tier):
    deep = tier == "thorough"
    # another field in the quick tier too where that is cheap
    curves = [""] + (CURVES if deep else CURVES[:1] if pid in QUICKCURVES else [])
    it = []
    for cv in curves:
        for op in SOUND.get(pid, ()):
            it += both(op, curve=cv)
        for op in HONEST.get(pid, ()):
            it += both(op, kind="honest", curve=cv)
    it += pinned(pid, deep) + after(pid, deep)
    if pid == "F12":
        for cv in curves:
            it += both("ulp1", curve=cv) + both("ulp1", kind="honest", curve=cv)
        tols = {0: [1e-7, 0.0, 1.0], 1: [0.0, 1e-7, 1.0, 3e38, float("inf"), 1e-40, -1e-7, float("nan")]}[int(deep)]
        for t in tols:
            it.append(Item("ulpx", F32, [bits(F32, t)]))
            it.append(Item("ulpx", F32, [bits(F32, t)], kind="honest"))
        for t in ([1e-15] if not deep else [1e-15, 0.0, 1.0, 1e300, float("inf"), 5e-324, -1e-15, float("nan")]):
            it.append(Item("ulpx", F64, [bits(F64, t)]))
            it.append(Item("ulpx", F64, [bits(F64, t)], kind="honest"))
    if pid in ("G01", "G02"):
        kind = "sound" if pid == "G01" else "honest"
        top = 250 if deep else 130
        for cv in curves:
            for n in range(1, top + 1):
                if not deep and n > 70 and n % 7 not in (0, 1, 2):
                    continue
                for mode in (0, 1, 2):
                    # the two widest tables only for some lengths: recording them dominates the time
                    it.append(Item("rc", F32, [n, mode], kind=kind, gadget=True, curve=cv, bases=BASES if deep or n % 8 in (1, 0) else BASES[:-2]))
            for a in ([8, 0, 8, 1, 8, 2], [3, 2, 24, 0, 53, 1, 9, 2], [1, 0, 2, 1, 3, 2, 4, 0, 5, 1, 6, 2, 7, 0, 64, 1],
                      [24, 2, 24, 2, 24, 2], [53, 0, 11, 1, 54, 2, 12, 0, 107, 1, 1, 2]):
                it.append(Item("rcmulti", F32, a, kind=kind, gadget=True, curve=cv))
            many = [v for i in range(120) for v in (1 + i * 7 % 64, i % 3)]
            it.append(Item("rcmulti", F32, many, kind=kind, gadget=True, curve=cv, bases=[2, 5, 8, 12], auto=True))
            # runs of the same length, and of the same mode
            runs = [v for i in range(150) for v in (1 + i // 3 * 11 % 56, i // 2 % 3)]
            it.append(Item("rcmulti", F32, runs, kind=kind, gadget=True, curve=cv, bases=[3, 8, 11], auto=True))
            # the same check over and over
            for n in (8, 13, 24) if not deep else (1, 5, 8, 12, 13, 16, 24, 53, 100):
                for mode in (0, 1, 2):
                    it.append(Item("rcmulti", F32, [n, mode] * 10, kind=kind, gadget=True, curve=cv, bases=BASES if deep else [3, 8, 11], auto=True))
            for a in ([8, 2, 24, 1], [53, 2, 53, 2, 11, 1, 12, 2]):
                it.append(Item("rctwo", F32, a, kind=kind, gadget=True, curve=cv))
            for a in ([8, 2, 8, 0], [24, 1, 9, 2], [5, 0, 4, 2, 3, 1], [16, 2, 16, 2], [64, 0, 12, 2]):
                it.append(Item("rcdup", F32, a, kind=kind, gadget=True, curve=cv))
            if pid == "G02":
                for fm in (F32, F64):
                    it.append(Item("empty", fm, kind=kind, gadget=True, curve=cv))
                    it.append(Item("mixed", fm, [3, 0, 24, 1, 53, 2, 9, 0, 11, 1, 64, 2], kind=kind, gadget=True, curve=cv))
                    it.append(Item("pow2", fm, kind=kind, gadget=True, curve=cv))
    if pid == "G03":
        for cv in curves:
            for k in ("sound", "honest"):
                # tables of other sizes too: the gadget takes any
                for fm in [F32, F64] + [Fmt(1, n - 2) for n in ((2, 5, 16, 24, 100) if not deep else range(2, 121))]:
                    it.append(Item("pow2", fm, kind=k, gadget=True, curve=cv))
                # more queries than the table has rows
                for n in (3, 5):
                    it.append(Item("gmulti", Fmt(1, n - 2), [5, 0, 0] * (n + 2), kind=k, gadget=True, curve=cv))
    if pid == "G04":
        lens = [1, 8, 9, 12, 24, 53] if not deep else list(range(1, 128))
        for cv in curves:
            for k in ("sound", "honest"):
                for n in lens:
                    for op in ("gabs", "gpos", "gmax", "gmin"):
                        it.append(Item(op, F32, [n], kind=k, gadget=True, curve=cv))
                it.append(Item("geq", F32, kind=k, gadget=True, curve=cv))
    for a in MULTI.get(pid, ()):
        for cv in curves:
            for k in ("sound", "honest"):
                for fm in (F32, F64) if pid == "G03" else (F32,):
                    it.append(Item("gmulti", fm, a, kind=k, gadget=True, curve=cv))
    return it
