From 5173af7c548bb1477c6eee6ca80f0697e50e772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 01/11] fix: make the sign returned by Abs unique for zero

A prover could choose is_positive = 0 for v = 0, since -0 passes the same
range check. Max, Min and the exponent checks built on it inherited the
ambiguity, e.g. an exponent equal to E_MAX did not have to overflow.
---
 gadget/gadget.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5bb8a2e..b8b7468 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -90,7 +90,10 @@ func (f *IntGadget) Abs(v frontend.Variable, length uint) (frontend.Variable, fr
 		v,
 		f.api.Neg(v),
 	)
-	f.AssertBitLength(abs, length, Loose)
+	// If `is_positive == 1`, enforce that `v` is small and non-negative.
+	// Otherwise, enforce that `-v - 1` is small and non-negative, i.e., `v` is strictly negative, so that
+	// `is_positive` is uniquely determined when `v` is 0.
+	f.AssertBitLength(f.api.Sub(abs, f.api.Sub(big.NewInt(1), is_positive)), length, Loose)
 	return abs, is_positive
 }
 
-- 
2.43.0


From f22c7bda09c77caac02d0cf6f7e8b558fbe2eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 02/11] fix: an exact cancellation in Add gives +0

The sign hint is unconstrained when the sum of the mantissas is zero, so
a prover could make x - x equal to -0.
---
 float/float.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/float/float.go b/float/float.go
index 3977898..9fd2380 100644
--- a/float/float.go
+++ b/float/float.go
@@ -570,10 +570,12 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
 	// we use `x`'s sign as the sign of the result. Otherwise, we use the negation of `mantissa_ge_0`.
+	// Note that `mantissa_ge_0` is not constrained when the sum is 0, and an exact cancellation has to
+	// give `+0`, so the result is negative only if the mantissa is not zero.
 	sign := f.Api.Select(
 		f.Gadget.IsEq(x.Sign, y.Sign),
 		x.Sign,
-		mantissa_lt_0,
+		f.Api.And(mantissa_lt_0, mantissa_is_not_zero),
 	)
 
 	mantissa = f.round(
-- 
2.43.0


From 386392da1c6ad00f97d0425915c1214a6a4c2dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 03/11] fix: range check power-of-two results tightly

With a lookup width that does not divide the table size the result could
exceed it, and exponent * 2^size + result collided with another entry:
exponent -1 was accepted with result 2^size + 1.
---
 gadget/gadget.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index b8b7468..dd9b7b0 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -128,8 +128,9 @@ func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable
 		panic(err)
 	}
 	result := outputs[0]
-	// Make sure the result is small
-	f.AssertBitLength(result, uint(len(f.pow2.entries)), Loose)
+	// Make sure the result is small. The bound must be tight, since otherwise `exponent || result` with a
+	// larger result and a smaller (e.g., negative) exponent may collide with another table entry.
+	f.AssertBitLength(result, uint(len(f.pow2.entries)), TightForUnknownRange)
 	// Compute `exponent || result` and add it to the list of queries
 	f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
 		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
-- 
2.43.0


From 4dd24191bd236d43e1487ca7e87adf19dfd1fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 04/11] fix: do not build the power-of-two lookup without
 queries

The lookup argument cannot be proven without at least one query, so a
circuit that only compares floats compiled but could not be proven.
---
 gadget/gadget.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index dd9b7b0..cca4219 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -31,6 +31,9 @@ func NewPowersOfTwoTable(api frontend.API, size uint) *PowersOfTwo {
 }
 
 func (t *PowersOfTwo) commit(api frontend.API) error {
+	if len(t.queries) == 0 {
+		return nil
+	}
 	return logderivarg.Build(api, t.entries, t.queries)
 }
 
-- 
2.43.0


From fff68e603c8f80e51900fe8f9ac1ff24285d3919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 05/11] fix: cancelling operands with the largest exponent
 gives 0

When the sum is zero the exponent before the overflow check was the
operands' exponent plus one, so MAX - MAX (exponent E_MAX - 1) became
an infinity.
---
 float/float.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/float/float.go b/float/float.go
index 9fd2380..c072722 100644
--- a/float/float.go
+++ b/float/float.go
@@ -564,8 +564,13 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa_bit_length-1,
 		gadget.TightForSmallAbs,
 	)
-	// Decrement the exponent by `shift`.
-	exponent = f.Api.Sub(exponent, shift)
+	// Decrement the exponent by `shift`. If the mantissa is zero, `shift` is not bounded by the check above,
+	// and the exponent of the operands must not be mistaken for an overflow, so we use 0's exponent instead.
+	exponent = f.Api.Select(
+		mantissa_is_zero,
+		f.E_MIN,
+		f.Api.Sub(exponent, shift),
+	)
 
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
-- 
2.43.0


From dd7ff541443000dbda18a48982889186a9d49924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 06/11] fix: arctangent of an overflowing quotient takes the
 reciprocal's abnormality

---
 math/math.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math/math.go b/math/math.go
index c928393..bd24917 100644
--- a/math/math.go
+++ b/math/math.go
@@ -136,6 +136,7 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -190,6 +191,7 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
-- 
2.43.0


From 9779069d6e8647189a46d34acf0b34f46b86d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 07/11] fix: a location at a face center maps to the origin
 instead of NaN

---
 loc2index32/loc2index32.go | 2 ++
 loc2index64/loc2index64.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/loc2index32/loc2index32.go b/loc2index32/loc2index32.go
index a9688a8..f08f4af 100644
--- a/loc2index32/loc2index32.go
+++ b/loc2index32/loc2index32.go
@@ -123,6 +123,8 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the face center there is no direction and the result is the origin: do not divide by 0
+	z = f.Select(f.Api.IsZero(f.Api.Add(z.Mantissa, z.IsAbnormal)), f.NewF32Constant(1.0), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
diff --git a/loc2index64/loc2index64.go b/loc2index64/loc2index64.go
index 74e0451..19458cf 100644
--- a/loc2index64/loc2index64.go
+++ b/loc2index64/loc2index64.go
@@ -124,6 +124,8 @@ func calculateHex2d(
 	cosAz := f.Select(isClassIII, cosAzimuthRot, cosAzimuth)
 
 	z := f.Sqrt(f.Add(f.Mul(x, x), f.Mul(y, y)))
+	// At the face center there is no direction and the result is the origin: do not divide by 0
+	z = f.Select(f.Api.IsZero(f.Api.Add(z.Mantissa, z.IsAbnormal)), f.NewF64Constant(1.0), z)
 
 	sinP := f.Div(y, z)
 	cosP := f.Div(x, z)
-- 
2.43.0


From f9cade946a039525c21dce54f050b9cc01790cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 08/11] fix: -0 is not folded across the axis in
 hex2dToCoordIJK

---
 loc2index32/loc2index32.go | 7 +++++--
 loc2index64/loc2index64.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/loc2index32/loc2index32.go b/loc2index32/loc2index32.go
index f08f4af..1a79088 100644
--- a/loc2index32/loc2index32.go
+++ b/loc2index32/loc2index32.go
@@ -196,13 +196,16 @@ func hex2dToCoordIJK(f *float.Context, x, y float.FloatVar) [3]frontend.Variable
 		f.Api.Select(check3, m2int, m2PlusOne))
 	jCoord := f.Api.Select(r1CaseA, caseAjCoord, caseBjCoord)
 
+	// -0 is not negative: folding it across the axis would not leave the cell unchanged
+	xNegative := f.Api.Select(f.Api.IsZero(x.Mantissa), 0, x.Sign)
+
 	iGreater := f.Gadget.IsPositive(f.Api.Sub(iCoord, jCoord), 32)
 	// In case only x is negative: i = -i + j
 	// in case only y is negative: i = i - j
 	// in case x AND y negative: i = -i
-	iCoordNegative := f.Api.Select(x.Sign,
+	iCoordNegative := f.Api.Select(xNegative,
 		f.Api.Select(y.Sign, 1, iGreater), f.Api.Select(y.Sign, f.Api.Sub(1, iGreater), 0))
-	iCoord = f.Api.Select(x.Sign,
+	iCoord = f.Api.Select(xNegative,
 		f.Api.Select(y.Sign,
 			iCoord, f.Api.Select(iGreater, f.Api.Sub(iCoord, jCoord), f.Api.Sub(jCoord, iCoord))),
 		f.Api.Select(y.Sign,
diff --git a/loc2index64/loc2index64.go b/loc2index64/loc2index64.go
index 19458cf..6dd4528 100644
--- a/loc2index64/loc2index64.go
+++ b/loc2index64/loc2index64.go
@@ -197,13 +197,16 @@ func hex2dToCoordIJK(f *float.Context, x, y float.FloatVar) [3]frontend.Variable
 		f.Api.Select(check3, m2int, m2PlusOne))
 	jCoord := f.Api.Select(r1CaseA, caseAjCoord, caseBjCoord)
 
+	// -0 is not negative: folding it across the axis would not leave the cell unchanged
+	xNegative := f.Api.Select(f.Api.IsZero(x.Mantissa), 0, x.Sign)
+
 	iGreater := f.Gadget.IsPositive(f.Api.Sub(iCoord, jCoord), 32)
 	// In case only x is negative: i = -i + j
 	// in case only y is negative: i = i - j
 	// in case x AND y negative: i = -i
-	iCoordNegative := f.Api.Select(x.Sign,
+	iCoordNegative := f.Api.Select(xNegative,
 		f.Api.Select(y.Sign, 1, iGreater), f.Api.Select(y.Sign, f.Api.Sub(1, iGreater), 0))
-	iCoord = f.Api.Select(x.Sign,
+	iCoord = f.Api.Select(xNegative,
 		f.Api.Select(y.Sign,
 			iCoord, f.Api.Select(iGreater, f.Api.Sub(iCoord, jCoord), f.Api.Sub(jCoord, iCoord))),
 		f.Api.Select(y.Sign,
-- 
2.43.0


From 16b13b30a77aee1aae4d71e9883be2c743e724fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 09/11] fix: keep the distance of antipodal points defined

Rounding can bring the haversine slightly above 1, for which the square root of its
complement was NaN.
---
 proximity/proximity.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 71201cc..3650f15 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -23,7 +23,8 @@ func OldHaversine(lat1, lon1, lat2, lon2 float64) float64 {
 	dLat := degreesToRadians(lat2 - lat1)
 	dLon := degreesToRadians(lon2 - lon1)
 	a := math.Pow(math.Sin(dLat/2), 2) + math.Cos(degreesToRadians(lat1))*math.Cos(degreesToRadians(lat2))*math.Pow(math.Sin(dLon/2), 2)
-	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
+	// Rounding can bring a slightly above 1 for antipodal points
+	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(math.Max(0, 1-a)))
 	return RadiusOfEarth * c
 }
 
-- 
2.43.0


From daf9bcd950a7b06ace8cc02a7848a730edb7657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 10/11] fix: handle constant booleans in disjunctions

The PLONK builder of gnark computes Or(a, 1) as 0. With a constant infinity, NaN or zero
as an operand (or twice the same operand) comparisons, multiplications, divisions and
assertions then proved wrong results, or valid ones could not be proven.
---
 float/float.go | 50 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/float/float.go b/float/float.go
index c072722..d30aff7 100644
--- a/float/float.go
+++ b/float/float.go
@@ -282,10 +282,10 @@ func (f *Context) fixOverflow(
 	exponent = f.Api.Add(exponent, mantissa_overflow)
 	// Check if exponent overflows. If so, the result is abnormal.
 	// Also, if the input is already abnormal, the result is of course abnormal.
-	is_abnormal := f.Api.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
+	is_abnormal := f.or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
 
 	return f.Api.Select(
-			f.Api.Or(mantissa_overflow, is_abnormal),
+			f.or(mantissa_overflow, is_abnormal),
 			// If mantissa overflows, we right shift the mantissa by 1 and obtain `2^M`.
 			// If the result is abnormal, we set the mantissa to infinity's mantissa.
 			// We can combine both cases as inifinity's mantissa is `2^M`.
@@ -306,9 +306,23 @@ func (f *Context) fixOverflow(
 		), is_abnormal
 }
 
+// Return `a | b` for booleans `a` and `b`.
+// gnark's PLONK builder drops the constant term of `Or(a, 1)` and yields 0 instead of 1. As this is reached
+// when an operand of ours is a constant, a constant `true` is handled here.
+func (f *Context) or(a, b frontend.Variable) frontend.Variable {
+	for _, v := range []frontend.Variable{a, b} {
+		if c, ok := f.Api.Compiler().ConstantValue(v); ok && c.Cmp(big.NewInt(1)) == 0 {
+			f.Api.AssertIsBoolean(a)
+			f.Api.AssertIsBoolean(b)
+			return 1
+		}
+	}
+	return f.Api.Or(a, b)
+}
+
 // Enforce the equality between two numbers.
 func (f *Context) AssertIsEqual(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -328,7 +342,7 @@ func (f *Context) AssertIsEqual(x, y FloatVar) {
 
 // Enforce the equality between two numbers, relaxed to checking ULP <1 (optimized)
 func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -345,7 +359,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 	// x.e == y.e && (x.m == y.m + 1 || y.m == x.m + 1) ,
 	cmpOne := f.Api.And(
 		f.Gadget.IsEq(x.Exponent, y.Exponent),
-		f.Api.Or(
+		f.or(
 			f.Gadget.IsEq(x.Mantissa, f.Api.Add(y.Mantissa, big.NewInt(1))),
 			f.Gadget.IsEq(y.Mantissa, f.Api.Add(x.Mantissa, big.NewInt(1))),
 		),
@@ -369,7 +383,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 		),
 	)
 
-	cmp := f.Api.Or(cmpOne, f.Api.Or(cmpTwo, cmpThree))
+	cmp := f.or(cmpOne, f.or(cmpTwo, cmpThree))
 
 	condOne := f.Gadget.IsEq(cmp, 1)
 
@@ -379,12 +393,12 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -410,12 +424,12 @@ func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -441,7 +455,7 @@ func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Add two numbers.
@@ -605,7 +619,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y.IsAbnormal),
+		f.or(x.IsAbnormal, y.IsAbnormal),
 	)
 
 	y_is_not_abnormal := f.Api.Sub(big.NewInt(1), y.IsAbnormal)
@@ -625,7 +639,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 			x.IsAbnormal,
 			// If `x` is abnormal ...
 			f.Api.Select(
-				f.Api.Or(
+				f.or(
 					y_is_not_abnormal,
 					f.Gadget.IsEq(xx, yy),
 				),
@@ -738,7 +752,7 @@ func (f *Context) Mul(x, y FloatVar) FloatVar {
 	)
 
 	mantissa_is_zero := f.Api.IsZero(mantissa)
-	input_is_abnormal := f.Api.Or(x.IsAbnormal, y.IsAbnormal)
+	input_is_abnormal := f.or(x.IsAbnormal, y.IsAbnormal)
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
@@ -841,13 +855,13 @@ func (f *Context) Div(x, y FloatVar) FloatVar {
 	// If `y` is NaN, the result is NaN.
 	// Since both zero and NaN have mantissa 0, we can combine both cases and set the mantissa to 0
 	// when `y` is abnormal.
-	mantissa_is_zero := f.Api.Or(f.Api.IsZero(mantissa), y.IsAbnormal)
+	mantissa_is_zero := f.or(f.Api.IsZero(mantissa), y.IsAbnormal)
 
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y_is_zero),
+		f.or(x.IsAbnormal, y_is_zero),
 	)
 
 	return FloatVar{
@@ -935,7 +949,7 @@ func (f *Context) Sqrt(x FloatVar) FloatVar {
 	// If `x` is NaN, the result is NaN.
 	// If `x` is +infinty, the result is +infinity.
 	// Below we combine all these cases.
-	is_abnormal := f.Api.Or(
+	is_abnormal := f.or(
 		f.Api.And(x.Sign, n_is_not_zero),
 		x.IsAbnormal,
 	)
@@ -969,7 +983,7 @@ func (f *Context) less(x, y FloatVar, allow_eq uint) frontend.Variable {
 	xm_ge_ym := f.Gadget.IsPositive(f.Api.Sub(x.Mantissa, y.Mantissa), f.M+1)
 
 	b := f.Api.Select(
-		f.Api.Or(
+		f.or(
 			f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 			f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 		),
-- 
2.43.0


From c72cc1ea856adcb584bd213f75fdf746cf1a3a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 11/11] fix: keep the sign of cell boundary coordinates

---
 proximity/proximity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 3650f15..b9d3614 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -149,7 +149,7 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		return nil, err
 	}
 
-	pattern := regexp.MustCompile(`(\d+\.\d+)\s+(\d+\.\d+)`)
+	pattern := regexp.MustCompile(`(-?\d+\.\d+)\s+(-?\d+\.\d+)`)
 	matches := pattern.FindAllStringSubmatch(string(output), -1)
 
 	var boundary [][2]float64
-- 
2.43.0

