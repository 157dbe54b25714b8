"""Checks beside the recorded circuits: functions of the run, per property."""
import sys
import hints
import vrec
from plan import plan
from ref import F32, F64

ck = sys.modules.get("__main__")      # check.py

EXTRA = {}


def check(pid):
    def deco(f):
        EXTRA.setdefault(pid, []).append(f)
        return f
    return deco


@check("H01")
def h01(run):
    """every hint call shape of the circuits, proved on its whole domain"""
    run.explain.append("The hint functions are translated from go/ssa form (built from /repo on this run) and executed symbolically; every call shape "
                       "(function, constant arguments, number of outputs) found in the circuits of the current tree is a lemma: for all argument "
                       "values of its domain the outputs equal the mathematical contract, no error is returned, nothing panics and the inputs are "
                       "not modified. Counterexamples are replayed by calling the real hint function.")
    run.assume += ["argument domains as listed in py/hints.py (at least what the circuits pass)", "math/big follows its documentation (modelled on "
                   "mathematical integers)", "PrecomputeHint32/64 (used by no library circuit) are H02's"]
    items = [i for pid in ("F13", "F14", "F12", "G02", "G03", "G04") for i in plan(pid, ck.TIER) if i.kind == "honest"]
    v = vrec.Vrec()
    try:
        sh = {}
        jobs, fms = [], []
        for it in items:
            for s in ck.specs_of(it):
                if s["base"] > 12 and it.gadget and it.args and it.args[0] % 5:
                    continue
                jobs.append(dict(kind="record", spec=s))
                fms.append(it.fm)
        for o in range(0, len(jobs), 400):
            for j, fm, r in zip(jobs[o:o + 400], fms[o:o + 400], v.run(jobs[o:o + 400], timeout=600)):
                if r.get("graph") and not r["graph"].get("panic"):
                    hints.collect(r["graph"], fm, sh)
        run.cov["circuits_recorded"] = len(jobs)
        rep = hints.check_shapes(sh, budget=max(60, run.left() - 60))
        ck.hint_report(run, rep, "")
        for key, l in rep.fail.items():
            for lem, cex in l:
                if "args" not in cex:
                    continue
                bad = hints.confirm(v, lem, cex, sh[key][1])
                if bad:
                    run.violation("%s on %s %s" % (lem.name, cex["args"], bad[0]),
                                  dict(kind="hint", job=dict(name=lem.name, nout=lem.nout, inputs=[str(a) for a in cex["args"]]), result=bad[1],
                                       why=bad[0]), key="%s:%s" % (lem.name, ";".join(map(str, cex["args"]))))
                else:
                    run.undecided("%s: solver model %s that the real function does not show" % (lem, cex["args"]))
    finally:
        v.close()


@check("F02")
def f02(run):
    import conv
    run.explain.append("The conversion functions are translated from go/ssa form (built from /repo on this run) and executed on a symbolic bit pattern "
                       "(sign, exponent and fraction are unknowns, every pattern of the format) and, backwards, on the symbolic components of every "
                       "number of the format; z3 decides each path. Counterexamples are replayed by calling the real functions.")
    run.assume += ["math/big, math.Float32bits, Float64bits and their inverses follow their documentation",
                   "the gadget inside a Context plays no part in embedding a constant"]
    v = vrec.Vrec()
    try:
        conv.f02(ck, run, v)
    finally:
        v.close()


@check("U01")
def u01(run):
    import conv
    run.explain.append("The parsing functions are executed from go/ssa form on strings of symbolic bytes, one query set per length; strconv.ParseUint and "
                       "hex.DecodeString are replaced by their documented contracts. Counterexamples are replayed by calling the real functions.")
    run.assume += ["strconv.ParseUint (base 16) and hex.DecodeString follow their documentation", "bounds: strings up to the listed lengths "
                   "(two characters beyond the width for bit patterns, 32 for byte strings; more in the thorough tier)"]
    v = vrec.Vrec()
    try:
        conv.u01(ck, run, v, ck.TIER == "thorough")
    finally:
        v.close()


@check("G05")
def g05(run):
    import cost
    run.explain.append("The gadget's Go code is executed from go/ssa form for short sequences of range checks, each with a symbolic bit length and mode, "
                       "and power-of-two queries, then its deferred code; the lookups handed to the lookup argument and the limb equalities are "
                       "counted on every path and compared with the reported numbers by z3. Counterexamples are replayed on recorded circuits.")
    run.assume += ["limb equalities count as one query each, as the library documents in its cost table", "bounds: explicit widths 2..17, up to two "
                   "(thorough: three) symbolic range checks, bit lengths up to 130 (250)"]
    v = vrec.Vrec()
    try:
        cost.g05(ck, run, v)
    finally:
        v.close()


def functions(run, tasks, loc=False):
    """composed functions against their reference terms"""
    import fl
    import ssa
    v = vrec.Vrec(loc=loc)
    try:
        ck_ = fl.Checker(run, v, ssa.program(), fl.mathfn(v), timeout=30000 if ck.TIER == "quick" else 120000)
        names = []
        for t in tasks:
            if run.left() < 15:
                run.undecided("%s: out of time" % t.name)
                continue
            names.append(t.name)
            ck_.check(t)
        run.cov["functions"] = names
        ck_.finish()
    finally:
        v.close()


FUN = ("The Go code of the functions is executed from go/ssa form (built from /repo on this run); the float operations are uninterpreted functions (their own "
       "properties say they are correctly rounded), comparisons, signs, selections and integers are exact. z3 decides that the outputs equal the "
       "reference term for all inputs and that every operand is in normal form. A model is made concrete by adding facts about the operations at "
       "its values, and replayed on the real circuit.")
FAS = ["the float operations are correctly rounded and provable on operands in normal form (F03-F10, F13, F14), the integer gadget is exact (G04)"]


@check("M01")
@check("M02")
@check("M03")
def mfun(run):
    import mathfn
    run.explain.append(FUN)
    run.assume += FAS
    functions(run, mathfn.tasks(run.pid, ck.TIER == "thorough"))


@check("M04")
def macc(run):
    import accuracy
    import fl
    import ssa
    run.explain.append("The Go code is executed from go/ssa form (built from /repo on this run) with the float operations as uninterpreted functions; the term of the "
                       "result is read, range by range of the argument, as real arithmetic with the relative rounding error 2^-(M+1) per operation, which leaves "
                       "a polynomial in one real variable and a bound on the accumulated errors; z3 decides which selections a range takes and (nlsat) that the "
                       "polynomial, or its derivative against 1/(1+y^2), stays within what the errors leave of the stated accuracy, for all values of the "
                       "variable. Doubts are settled by real runs.")
    run.assume += FAS + ["sine: arguments of magnitude at most pi; arctangent: every number and infinity; Atan2: every pair whose quotient is not NaN"]
    v = vrec.Vrec()
    try:
        ck_ = fl.Checker(run, v, ssa.program(), fl.mathfn(v), timeout=30000 if ck.TIER == "quick" else 120000)
        ts = accuracy.tasks()
        for t in ts:
            accuracy.check(ck_, t)
        run.cov["functions"] = [t.name for t in ts]
        ck_.finish()
    finally:
        v.close()


@check("L01")
@check("L02")
@check("L03")
@check("L04")
@check("L05")
def lfun(run):
    import locfn
    run.explain.append(FUN)
    run.assume += FAS
    functions(run, locfn.tasks(run.pid, ck.TIER == "thorough"), loc=True)


@check("U02")
def u02(run):
    import dist
    run.explain.append("The distance function is executed from go/ssa form (built from /repo on this run) on unknown positions: a float is a real with a NaN "
                       "flag, rounding and the library's trigonometric functions are uninterpreted with their documented facts, and z3 decides symmetry, "
                       "zero and sign on every path. Models are made concrete by running the real function at and around them.")
    run.assume += ["latitudes in [-90, 90], longitudes in [-180, 180]", "math.Sin is odd, math.Cos is even and not negative up to the float pi/2, math.Pow(x, 2) is "
                   "even and not negative, math.Sqrt and the roundings are monotone, math.Atan2 has the ordinate's sign and is zero on the positive axis"]
    dist.u02(ck, run)


@check("U04")
def u04(run):
    import geo
    run.explain.append("The distance function and the unit conversions are executed from go/ssa form (built from /repo on this run) on unknown arguments; floats "
                       "are exact reals, the trigonometric functions and the square root uninterpreted; z3 decides that every path yields the documented "
                       "formula for all arguments. Models are made concrete by running the real function at and around them.")
    run.assume += ["latitudes in [-90, 90], longitudes in [-180, 180]; conversions: |x| <= 1e6, scaled integers up to 2^53",
                   "rounding errors are outside (constants are compared to 12 significant digits, replays to 1e-9)",
                   "math.Sin is odd and math.Cos even, math.Pow(x, 2) = x*x, sin^2(dlat/2) + cos cos sin^2(dlon/2) lies in [0, 1]"]
    geo.u04(ck, run)


@check("H02")
def h02(run):
    import half
    run.explain.append("The half-angle hints are executed from go/ssa form (built from /repo on this run) on an unknown bit pattern; numbers are opaque, their "
                       "operations and math.Sin, Cos, Tan uninterpreted, splitting into components is its own property (F02). z3 decides that every output "
                       "slot holds the component of the documented value. Counterexamples are replayed by calling the real hint.")
    run.assume += ["ComponentsOf and ValueOf are exact inverses (F02)", "math.Sin, Cos and Tan are deterministic; their accuracy is the library's"]
    v = vrec.Vrec()
    try:
        half.h02(ck, run, v)
    finally:
        v.close()


@check("U03")
def u03(run):
    import text
    run.explain.append("The functions that write cell centres and read the output of H3's tools are executed from go/ssa form (built from /repo on this run) on "
                       "texts of concrete shape with unknown digits; files and commands are recorded. Regular expressions are taken from the code and matched on the "
                       "shape, which is exact as their character sets do not tell digits apart (checked). z3 decides over all digits that the numbers read are "
                       "the numbers printed, and over all bit patterns that what is written parses back. Counterexamples are replayed on the real functions with "
                       "stand-ins for the tools in a scratch folder.")
    run.assume += ["H3's tools print latitude and longitude with ten decimals separated by blanks, one vertex per line, up to 10 vertices (shapes of signs and "
                   "numbers of digits: all for one vertex, all signs for two, uniform and mixed ones for more)",
                   "strconv, strings, regexp and fmt behave as documented; the output is the text alone (no error output mixed in)"]
    text.u03(ck, run)


@check("U05")
def u05(run):
    import near
    run.explain.append("LatLngToIJ is executed from go/ssa form (built from /repo on this run) on an unknown position, resolution and origin; H3's cell of a "
                       "position and its local coordinates are uninterpreted functions. z3 decides that the result is (I, J) of the local coordinates, seen "
                       "from the origin, of the cell of (latitude, longitude) at that resolution. Models are made concrete by comparing the real function with H3.")
    run.assume += ["H3's Go binding is deterministic (its answers are the library's)"]
    near.u05(ck, run)


@check("U06")
def u06(run):
    import near
    run.explain.append("The program proximity is executed from go/ssa form (built from /repo on this run), its main function with everything it calls; the tools "
                       "print an unknown index and boundaries of 5 and 6 vertices (thorough: 7, 8) with unknown digits; the distance is an uninterpreted "
                       "symmetric function. z3 decides over all of them that what is printed last is the smallest of the distances from the verifier to the "
                       "vertices, that the boundary asked for is that of the index printed, and that the cell asked for is the prover's. Counterexamples are "
                       "replayed on the real program with stand-in tools in a scratch folder.")
    run.assume += ["H3's tools print as in U03; the distance library returns the same finite distance both ways; floats compared as reals"]
    near.u06(ck, run)
