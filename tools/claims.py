SND = "symbolic execution of the circuit code into an SMT (integer) encoding, hints as unknowns; z3 decides every operand case; models replayed in R1CS/SCS"
HON = "symbolic execution of the circuit code with hint contracts; z3 decides that every constraint holds; models replayed by the real prover's solver"
A = ("Within the stated bounds (formats, lookup widths, field) the solver's verdict covers all operands and all witness values. Trusted: the recording "
     "frontend and translation (validated on every run against the compiled systems), the logarithmic-derivative lookup argument, z3.")
SSA = ("symbolic execution of the Go functions from go/ssa (built from the source on every run) into SMT; z3 decides the property on every path for all "
       "inputs; counterexamples replayed on the real functions")
AS = ("Within the stated bounds the solver's verdict covers all inputs. Trusted: the translation of go/ssa to SMT, the documented contracts of the standard "
      "library functions named in the evidence, z3.")
CLAIMS = {
    "F01": (SND, A), "F03": (SND, A), "F04": (SND, A), "F05": (SND, A), "F06": (SND, A), "F07": (SND, A), "F08": (SND, A), "F09": (SND, A),
    "F10": (SND, A), "F11": (SND + "; " + HON, A), "F12": (SND + "; " + HON, A + " Tolerances are fixed values."),
    "F13": (HON, A), "F14": (HON, A),
    "G01": (SND, A + " Bit lengths are a stated list."), "G02": (HON, A + " Bit lengths are a stated list."),
    "F02": (SSA, AS), "G05": (SSA, AS + " Sequences of up to two (thorough: three) range checks with symbolic lengths."),
    "H01": (SSA, AS + " Arguments range over what the circuits pass."), "U01": (SSA, AS + " Text lengths are bounded."),
    "G03": (SND + "; " + HON, A), "G04": (SND + "; " + HON, A + " Declared lengths are a stated list."),
}
FUN = ("symbolic execution of the Go functions from go/ssa (built from the source on every run) with the float operations uninterpreted; z3 decides equality "
       "with the reference for all inputs; models are made concrete and replayed on the real circuit (R1CS/SCS)")
AF = ("All inputs of the stated domain. Rests on the float operations being correctly rounded and the integer gadget exact (F03-F10, F13, F14, G04, decided "
      "separately), on the translation of go/ssa to SMT, and on z3.")
for p in ("M01", "M02", "M03", "L01", "L02", "L03", "L04", "L05"):
    CLAIMS[p] = (FUN, AF + {"M01": " Up to 11 coefficients (thorough: 25).", "L01": " Face tables are compared within 16 units in the last place."}.get(p, ""))
CLAIMS["U02"] = ("symbolic execution of the Go function from go/ssa (built from the source on every run); floats are reals with uninterpreted rounding, products and "
                 "trigonometric functions; z3 decides the property on every path for all positions; models are replayed on the real function",
                 "All positions of the domain. Rests on the documented identities and monotonicity of Go's math functions listed in the evidence, and on z3.")
CLAIMS["H02"] = (SSA, "All bit patterns. Rests on F02 for splitting into components, on Go's math.Sin, Cos and Tan, and on z3.")
CLAIMS["U03"] = ("symbolic execution of the Go functions from go/ssa (built from the source on every run) over tool output whose digits, signs and "
                 "numbers are symbolic; text operations and regular expressions are decided over the symbolic characters, z3 decides each path; models are replayed on the real functions with a stand-in tool",
                 "Output of the documented shape, with the numbers of digits and lines listed in the evidence. Rests on Go's strconv, fmt, strings and regexp behaving as documented, and on z3.")
CLAIMS["M04"] = ("symbolic execution of the Go functions from go/ssa (built from the source on every run); the resulting float term is read as real arithmetic with "
                 "rounding-error bounds, i.e. as a polynomial; z3 (nlsat) decides for all values of its variable that it stays close to the function; doubts are "
                 "settled by real runs of the circuit (R1CS/SCS)",
                 "All arguments of the domain. Rests on the float operations being correctly rounded (F03-F10, decided separately), on the translation of go/ssa, and on z3.")
CLAIMS["U04"] = ("symbolic execution of the Go functions from go/ssa (built from the source on every run) over exact reals with uninterpreted trigonometric functions and "
                 "square root; z3 decides that every path yields the documented formula; models are replayed on the real functions",
                 "All arguments of the domain, up to rounding. Rests on Go's math functions and on z3.")
CLAIMS["U05"] = ("symbolic execution of the Go function from go/ssa (built from the source on every run) over an unknown position, resolution and origin with H3's "
                 "functions uninterpreted; z3 decides that every path yields the documented coordinates; models are replayed by comparing the real function with H3",
                 "All arguments. Rests on H3's Go binding and on z3.")
CLAIMS["U06"] = ("symbolic execution of the Go program from go/ssa (built from the source on every run) over tool output with unknown digits, the distance being an "
                 "uninterpreted symmetric function; z3 decides on every path that what is printed is the minimum; models are replayed on the real program with stand-in tools",
                 "Boundaries of 5 and 6 vertices (thorough: 7 and 8). Rests on U03 and U04 for reading and the formula, on the distance library, and on z3.")
NA = {}
