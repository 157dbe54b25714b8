#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in a readable form here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, symbols):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=x, where=files[0]) for x in symbols])))
FL = "float/float.go"
WIT = "every pair of valid operands of the format (zeros, subnormals, normals, infinities, NaN) and every assignment of the prover-chosen witness values that satisfies the circuit, both in binary32 and binary64 and for every lookup-table width from 2 to 17"
TW = "the tests push honest witnesses for sampled operand rows through the test engine; a malicious prover's choice of hint values is never explored and operand pairs number 2^64 / 2^128"

prop("F01", "Allocating a float from its bits is sound",
 "Whenever a proof that allocates a float from a field value verifies, the value is an encoding of the stated width and the sign, exponent, mantissa and abnormality seen by the rest of the circuit are exactly those of the IEEE-754 number it encodes: zero, subnormal (normalised), normal, infinity, or NaN. No choice of witness lets a prover allocate an out-of-range value or a different number.",
 ["inputs","configurations"], "every field element as input, every satisfying witness, binary32 and binary64, every lookup-table width 2..17",
 TW, [FL,"gadget/gadget.go","gadget/rangecheck.go"], ["Context.NewFloat"])
prop("F02", "Constants and conversions agree with IEEE-754 encodings",
 "For every 32- or 64-bit pattern, the components used for an embedded constant are exactly the IEEE-754 number the pattern encodes, in the same normal form that allocation produces. Converting components back yields the original pattern, except that every NaN maps to a NaN.",
 ["inputs"], "all 2^32 and 2^64 bit patterns",
 "tests convert sampled values only, and never subnormals with every leading-zero count or both directions over the whole space",
 ["util/util.go",FL], ["ComponentsOf","ValueOf","F32ToComponents","F64ToComponents","ComponentsToF32","ComponentsToF64","Context.NewConstant"])
prop("F03", "Addition and subtraction are correctly rounded",
 "Whenever a proof containing an addition or subtraction verifies, its result is the IEEE-754 result rounded to nearest, ties to even: infinities, NaN, signed zeros, cancellation, subnormal results and overflow included (the sign of a NaN is not constrained). No choice of witness yields another result.",
 ["inputs","configurations"], WIT, TW, [FL,"gadget/gadget.go","gadget/rangecheck.go"], ["Context.Add","Context.Sub","Context.round","Context.fixOverflow"])
prop("F04", "Multiplication is correctly rounded",
 "Whenever a proof containing a multiplication verifies, its result is the IEEE-754 product rounded to nearest, ties to even, with gradual underflow, overflow to infinity, signed zeros and NaN as the standard prescribes (the sign of a NaN is not constrained). No choice of witness yields another result.",
 ["inputs","configurations"], WIT, TW, [FL,"gadget/gadget.go","gadget/rangecheck.go"], ["Context.Mul","Context.round","Context.fixOverflow"])
prop("F05", "Division is correctly rounded",
 "Whenever a proof containing a division verifies, its result is the IEEE-754 quotient rounded to nearest, ties to even, with gradual underflow, overflow, division by zero, infinities and NaN as the standard prescribes (the sign of a NaN is not constrained). No choice of witness yields another result.",
 ["inputs","configurations"], WIT, TW, [FL,"gadget/gadget.go","gadget/rangecheck.go"], ["Context.Div","Context.round","Context.fixOverflow"])
prop("F06", "Square root is correctly rounded",
 "Whenever a proof containing a square root verifies, its result is the IEEE-754 square root rounded to nearest, ties to even; negative operands other than minus zero and NaN give NaN, minus zero gives minus zero, plus infinity gives plus infinity. No choice of witness yields another result.",
 ["inputs","configurations"], WIT.replace("every pair of valid operands","every valid operand"), TW, [FL,"gadget/gadget.go","gadget/rangecheck.go"], ["Context.Sqrt","Context.round"])
prop("F07", "Comparisons decide the IEEE-754 order",
 "Whenever a proof containing a less, less-or-equal, greater or greater-or-equal comparison verifies, its outcome is the bit 1 exactly when the IEEE-754 comparison of the two numbers holds, and 0 otherwise; any comparison with NaN is 0 and both zeros are equal. No choice of witness yields another outcome.",
 ["inputs","configurations"], WIT, TW + "; the greater comparisons have no test rows of their own", [FL,"gadget/gadget.go"], ["Context.IsLt","Context.IsLe","Context.IsGt","Context.IsGe","Context.less"])
prop("F08", "Truncation, floor and ceiling are exact",
 "Whenever a proof containing a truncation, floor or ceiling verifies, the result is exactly the integral value obtained by rounding the operand toward zero, toward minus infinity or toward plus infinity; infinities and NaN are returned unchanged and zero results carry the operand's sign. No choice of witness yields another result.",
 ["inputs","configurations"], WIT.replace("every pair of valid operands","every valid operand"), TW, [FL,"gadget/gadget.go","gadget/rangecheck.go"], ["Context.Trunc","Context.Floor","Context.Ceil"])
prop("F09", "Conversion to integer is exact",
 "Whenever a proof that converts an integral-valued float to an integer verifies, the resulting field element is exactly that integer, negative integers being represented modulo the field order. Floats that are not finite or too large to convert are rejected rather than converted to something else.",
 ["inputs","configurations"], "every integral-valued float in both formats, every satisfying witness, every table width 2..17", TW, [FL,"gadget/gadget.go"], ["Context.ToInt"])
prop("F10", "Negation, absolute value and selection are exact",
 "Negation flips only the sign, absolute value clears only the sign, and selecting between two floats with a bit returns all components of the chosen operand and nothing of the other.",
 ["inputs"], "every valid operand and selector bit, both formats",
 "tests cover sampled honest values; selection is only exercised indirectly", [FL], ["Context.Neg","Context.Abs","Context.Select"])
prop("F11", "Asserting equality accepts exactly equal floats",
 "A proof asserting that two floats are equal can be made if and only if they encode the same number bit for bit, or both are NaN. Zeros of opposite sign, infinities of opposite sign, and a NaN against any number are told apart.",
 ["inputs"], "every pair of valid floats, both formats",
 "tests assert equality only of values that are equal, so an over-permissive assertion passes them all", [FL], ["Context.AssertIsEqual"])
prop("F12", "Tolerant equality accepts exactly the allowed distance",
 "A proof asserting equality up to one unit in the last place can be made if and only if the two numbers have the same sign (or are NaN) and are equal or adjacent in significand (normalised, so for subnormals one unit of the normalised significand), including across a binade. With a caller-given tolerance it can be made if and only if the numbers have the same sign and are identical or the rounded absolute difference is at most the tolerance.",
 ["inputs","configurations"], "every pair of valid finite floats, both formats, every satisfying witness; for the custom tolerance every finite non-negative tolerance",
 "tests only check that close values are accepted on sampled inputs, never that distant values are rejected", [FL], ["Context.AssertIsEqualOrULP","Context.AssertIsEqualOrCustomULP32","Context.AssertIsEqualOrCustomULP64"])
prop("F13", "An honest prover can prove allocation and arithmetic",
 "For all valid operands, the witness computed by the library's own hint functions satisfies every constraint of allocation, addition, subtraction, multiplication, division and square root. No valid computation is unprovable.",
 ["inputs","configurations"], "every valid operand (pair), both formats, every lookup-table width 2..17",
 "tests reach one row in a hundred of a fixed file of operand pairs; rare alignments of exponent difference, cancellation and rounding are missed, and only the automatic table width and three others are compiled", [FL,"hint/hint.go","gadget/gadget.go","gadget/rangecheck.go"], ["Context.NewFloat","Context.Add","Context.Sub","Context.Mul","Context.Div","Context.Sqrt","hint package"])
prop("F14", "An honest prover can prove comparisons and rounding to integers",
 "For all valid operands the witness computed by the library's own hint functions satisfies every constraint of the comparisons, truncation, floor and ceiling; the same holds for conversion to integer when the operand is integral and small enough.",
 ["inputs","configurations"], "every valid operand (pair), both formats, every lookup-table width 2..17",
 "same as for arithmetic: sampled rows and the automatic table width only", [FL,"hint/hint.go","gadget/gadget.go","gadget/rangecheck.go"], ["Context.IsLt","Context.IsLe","Context.IsGt","Context.IsGe","Context.Trunc","Context.Floor","Context.Ceil","Context.ToInt"])
prop("G01", "Range checks are sound",
 "Whenever a proof containing a range check of n bits verifies, the checked value is a non-negative integer below 2^n in the tight mode; in the loose mode it is below the next multiple of the table width; in the small-absolute-value mode it is below 2^n whenever its absolute value was known to be small. This holds for every bit length, table width and number of checks in the circuit.",
 ["inputs","configurations"], "every field element, every satisfying witness, bit lengths 1..130, table widths 2..17, all three modes",
 "no test feeds an out-of-range value or a forged limb decomposition to the range checker", ["gadget/rangecheck.go","gadget/gadget.go"], ["IntGadget.AssertBitLength","CommitChecker"])
prop("G02", "Range checks accept every in-range value",
 "For every bit length, table width and mode, each value below 2^n can be proven in range by the honest prover, and a circuit compiles and proves with any number of checks, including none at all.",
 ["inputs","configurations"], "every value in range, bit lengths 1..130, table widths 2..17, all three modes, circuits with any combination of checks incl. none",
 "tests only use the automatic table width and the bit lengths that occur in the float operations", ["gadget/rangecheck.go","gadget/gadget.go"], ["IntGadget.AssertBitLength","CommitChecker","DecomposeHint"])
prop("G03", "The power-of-two lookup returns exactly 2^e",
 "Whenever a proof containing a power-of-two query for a bounded exponent verifies, the exponent lies inside the table and the result is exactly two to that exponent. Every exponent inside the table can be proven, for every table width.",
 ["inputs","configurations"], "every exponent in [-2^40, 2^40], every satisfying witness, table sizes 32 and 64 (those of binary32 and binary64), range-table widths 2..17",
 "a forged power of two needs a malicious witness, which no test supplies, and depends on the lookup-table width, of which tests use the automatic one", ["gadget/gadget.go"], ["IntGadget.QueryPowerOf2","PowersOfTwo"])
prop("G04", "Integer sign, absolute value, maximum, minimum and equality are exact",
 "Whenever a proof using the integer gadgets verifies, the absolute value, the sign bit (1 exactly for values at least zero), the maximum, the minimum and the equality bit equal those of the integers involved, and values of magnitude beyond two to the declared length are rejected. Every in-range value can be proven.",
 ["inputs","configurations"], "all field elements as operands, every satisfying witness, declared lengths used by the library, table widths 2..17",
 "tests use honest hints, so the freedom a prover has at the boundary (for example at zero) is never exercised", ["gadget/gadget.go","hint/hint.go"], ["IntGadget.Abs","IntGadget.IsPositive","IntGadget.Max","IntGadget.Min","IntGadget.IsEq"])
prop("G05", "Reported lookup cost equals the lookups compiled",
 "For any sequence of range checks and at least one power-of-two query, the reported number of lookup entries equals the sizes of the range table and the power-of-two table, and the reported number of lookup queries equals what the circuit performs when it is finished: one lookup per limb, one equality per value split into limbs, and one lookup per power-of-two query.",
 ["inputs","configurations"], "every bit length and mode, every explicitly chosen table width 2..17",
 "the constraint-count test writes the numbers to a file and asserts nothing", ["gadget/gadget.go","gadget/rangecheck.go"], ["IntGadget.LookupEntryConstraints","IntGadget.LookupQueryConstraints"])
prop("H01", "Hint functions compute the values the circuits expect",
 "Each witness-computing function returns, for every input the circuits can pass it, exactly the mathematical value it stands for: float fields, n-th bit, power of two, rounding decomposition, normalising shift, sign and magnitude, quotient, integer square root, truncation, floor and limb decomposition. None fails or panics on such inputs.",
 ["inputs"], "every input within the ranges the circuits pass (field elements; mantissas up to 130 bits; shifts up to the table size)",
 "tests reach the hints only through sampled operands", ["hint/hint.go","gadget/rangecheck.go"], ["DecodeFloatHint","NthBitHint","PowerOfTwoHint","DecomposeMantissaForRoundingHint","NormalizeHint","AbsHint","DivHint","SqrtHint","TruncHint","FloorHint","DecomposeHint"])
prop("H02", "Half-angle hints return the trigonometric values they stand for",
 "For every bit pattern, the half-angle hints return, slot by slot and in the library's normal form, the components of tan(x/2), sin(x), sin(x/2) and cos(x/2) of the number the pattern encodes, each computed in double precision and rounded to the stated format, and leave their inputs alone.",
 ["inputs"], "every bit pattern, both formats",
 "tests reach these hints only through the sampled locations", ["hint/hint.go"], ["PrecomputeHint64","PrecomputeHint32"])
prop("M01", "Polynomial evaluation follows Horner's scheme exactly",
 "Evaluating a polynomial returns the float obtained by Horner's scheme with every product and sum individually rounded, over all coefficients and in their documented order; the one-fold compensated variant returns the same scheme over coefficients given highest degree first.",
 ["inputs"], "every argument and every coefficient list up to the stated degree",
 "tests use one polynomial each at sampled points and tolerate error", ["math/math.go"], ["Polynomial.Eval","Polynomial.EvalK"])
prop("M02", "Arctangent is odd, reduces large arguments and keeps quadrants",
 "The arctangent gives the argument's sign to the result, uses the approximating polynomial on the magnitude when it is at most one, and pi/2 minus the polynomial of the reciprocal otherwise; the two-argument form adds or subtracts pi exactly for negative abscissas according to the sign of the ordinate.",
 ["inputs"], "every argument but NaN, and every pair whose quotient is not NaN; both formats",
 "tests sample arguments and accept deviations, so branch boundaries and signs are unchecked in between", ["math/math.go"], ["AtanRemez32","AtanRemez64","Atan2"])
prop("M03", "Sine folds about pi/2 and sums the documented series",
 "The sine returns the argument's sign with the alternating Taylor sum of the folded argument: the magnitude of the argument itself when the argument is at most pi/2 and that of pi minus the argument above, with every term x^(2i+1)/(2i+1)! derived from the previous one, each operation individually rounded.",
 ["inputs"], "every finite argument, both formats",
 "tests sample arguments with tolerance", ["math/math.go"], ["SinTaylor32","SinTaylor64"])
prop("M04", "Arctangent and sine stay close to the mathematical functions",
 "The arctangents and the sine computed by the circuits approximate the mathematical functions for every argument: the single-precision arctangent is off by at most 2^-19 and the single-precision sine by at most 2^-18; the double-precision arctangent, in its one- and two-argument forms, by at most 2^-45 and the double-precision sine by at most 2^-47, rounding included.",
 ["inputs"], "every argument of the arctangents but NaN (two-argument form: every pair whose quotient is not NaN), every |x| <= pi for the sine",
 "tests sample arguments: a slipped digit in a polynomial coefficient or a missing term shows only in a narrow range, or below the tolerance of the points chosen", ["math/math.go"], ["AtanRemez32","AtanRemez64","Atan2","SinTaylor32","SinTaylor64"])
prop("L01", "The icosahedron face chosen is the closest one",
 "For any point, the face data returned (squared distance and the sines and cosines of the face centre's latitude, longitude and azimuth) all belong to one and the same face, the one at the smallest computed distance, the first such face winning ties; the data are those of the H3 icosahedron.",
 ["inputs"], "every triple of finite coordinates within squared distance 5 of some face centre, both precisions",
 "tests sample few locations, so a face whose data are wrong or mixed with another's is easily missed", ["loc2index32/loc2index32.go","loc2index64/loc2index64.go","util/util.go"], ["closestFaceCalculations","FaceCenterPoint_32","FaceCenterPoint_64"])
prop("L02", "Planar coordinates map to the hexagon H3 assigns",
 "For any planar point, the hexagon coordinates computed in the circuit are the ones H3's own quantisation algorithm assigns to it in the same precision, for every quadrant, fractional part and tie.",
 ["inputs"], "every planar point with coordinates below 2^23 (binary32) or 2^27 (binary64) in magnitude, signed zeros included",
 "tests sample a few hundred locations; region boundaries within a hexagon and sign combinations are rarely hit", ["loc2index32/loc2index32.go","loc2index64/loc2index64.go"], ["hex2dToCoordIJK"])
prop("L03", "Hexagon coordinates are normalised canonically",
 "Normalising signed hexagon coordinates yields the unique equivalent triple with no negative component and at least one zero, whichever witness the prover chooses.",
 ["inputs"], "all coordinates with magnitude below 2^30, all sign combinations the library produces, every satisfying witness",
 "the normalisation is only reached through sampled locations with honest witnesses", ["loc2index32/loc2index32.go","loc2index64/loc2index64.go"], ["NormalizeIJK"])
prop("L04", "Gnomonic radius and resolution scaling match H3",
 "The planar radius equals the H3 formula for the squared face distance, scaled by the square root of seven once per resolution step, for each resolution 0 to 15; any other resolution is rejected.",
 ["inputs"], "every squared distance in [0, 2), every finite radius and every resolution (all field elements), both precisions",
 "tests cover the resolutions of the sampled rows and never an out-of-range one", ["loc2index32/loc2index32.go","loc2index64/loc2index64.go"], ["calculateR","scaleR"])
prop("L05", "The planar direction uses the face azimuth and resolution class",
 "The planar point is the radius times the cosine and sine of the angle between the face axis and the bearing of the point from the face centre, the axis being rotated exactly for odd resolutions, consistently with H3's geodesic formulas; at the face centre itself it is the origin.",
 ["inputs"], "every location and face direction data, each resolution 0..15, both precisions",
 "tests sample locations and resolutions", ["loc2index32/loc2index32.go","loc2index64/loc2index64.go"], ["calculateHex2d"])
prop("U01", "Test-vector parsing maps text to the exact numbers",
 "Splitting a text into numbers yields the bytes of the text in order or, when hexadecimal is asked for, one number per pair of hexadecimal digits in order. Parsing a hexadecimal bit pattern yields exactly the 32- or 64-bit float with that pattern, or an error when the text is no such pattern.",
 ["inputs"], "every input string up to the stated length",
 "tests parse only the well-formed lines of the bundled files", ["util/util.go"], ["StrToIntSlice","HexToFloat","HexToFloat32"])
prop("U02", "Great-circle distance is symmetric and non-negative",
 "The distance between two positions does not depend on their order, is zero for identical positions, and is never negative.",
 ["inputs"], "every pair of positions, latitudes in [-90, 90], longitudes in [-180, 180], antipodes and poles included",
 "no test calls it", ["proximity/proximity.go"], ["OldHaversine"])
prop("U03", "Text exchanged with H3's tools is written and read exactly",
 "Cell centres are written as hexadecimal bit patterns, one cell per line, latitude first, that parse back to the very numbers (rounded to single precision where that is asked for). From what H3's command line tools print, exactly the printed numbers become the boundary (every vertex, in order, signs included), the centre, the cell index and the IJK coordinates; a tool is given the resolution and the position or index asked for, and its failure is reported as an error.",
 ["inputs", "external tool output"], "every cell centre; every tool output of the documented shape, with numbers of every length stated",
 "no test calls these functions, as the tools are not part of the repository", ["proximity/proximity.go","util/util.go"], ["WriteHexCellsToFile","floatToHex","cellToBoundary","cellToLatLng","latLngToCell","ExecuteLatLngToIJK"])
prop("U04", "Great-circle distance and unit conversions follow their formulas",
 "The distance between two positions is the haversine formula's on a sphere of radius 6371 km, radians convert to degrees and degrees to radians by the exact factor, and scaled integers are divided by 10^9, up to rounding.",
 ["inputs"], "every pair of positions, latitudes in [-90, 90], longitudes in [-180, 180]; every angle up to 10^6 and every scaled integer up to 2^53",
 "no test calls the distance; the conversions are used only on a handful of constants", ["proximity/proximity.go","util/util.go"], ["OldHaversine","degreesToRadians","RadiansToDegrees","ScaledIntToFloat64"])
prop("U05", "Local hexagon coordinates are those of the right cell",
 "Converting a position to local coordinates yields H3's local I and J coordinates (in that order), seen from the given origin cell, of the H3 cell that contains that latitude and longitude at the given resolution.",
 ["inputs"], "every position, resolution and origin cell",
 "the one test prints the result and compares it with nothing", ["util/util.go"], ["LatLngToIJ"])
prop("U06", "The distance reported to the prover's cell is that of the nearest vertex",
 "The proximity program asks H3's tools for the cell of the prover's position and for the boundary of exactly that cell, and reports the smallest of the great-circle distances from the verifier's position to the vertices of that boundary, whichever vertex that is and whatever their order.",
 ["inputs", "external tool output"], "every cell index and every boundary of 5 or 6 (thorough: up to 8) vertices, with any digits",
 "no test runs the program, as the tools are not part of the repository", ["proximity/proximity.go"], ["main","latLngToCell","cellToBoundary"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
