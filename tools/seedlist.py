seed("f01-exponent-loose", "F01", "float/float.go",
     [("f.Gadget.AssertBitLength(e, f.E, gadget.TightForUnknownRange)", "f.Gadget.AssertBitLength(e, f.E, gadget.Loose)")],
     "a lookup-table width that does not divide the exponent length, and a prover that moves the sign bit into the exponent",
     "a negative double can be allocated as a positive number with an exponent out of range",
     '''
	in := zzInts(0xC008000000000000) // -3.0
	def := func(api frontend.API, v []frontend.Variable) {
		ctx := float.NewContext(api, 8, 11, 52)
		x := ctx.NewFloat(v[0])
		api.AssertIsEqual(x.Sign, 0)
	}
	zzMustNot(t, zzSolve(t, in, def, zzOver{hint.DecodeFloatHint, func(m *big.Int, i, o []*big.Int) error {
		o[0].SetUint64(0)
		o[1].SetUint64(i[0].Uint64() >> 52)
		return nil
	}}))
	zzMust(t, zzSolve(t, in, func(api frontend.API, v []frontend.Variable) {
		ctx := float.NewContext(api, 8, 11, 52)
		api.AssertIsEqual(ctx.NewFloat(v[0]).Sign, 1)
	}))
''')

seed("f05-remainder-equal", "F05", "float/float.go",
     [("f.Gadget.AssertBitLength(f.Api.Sub(y_mantissa, f.Api.Add(remainder, big.NewInt(1))), f.M+1, gadget.Loose)",
       "f.Gadget.AssertBitLength(f.Api.Sub(y_mantissa, remainder), f.M+1, gadget.Loose)")],
     "an exact quotient that is a tie at subnormal precision, and a prover that gives the quotient minus one with a remainder equal to the divisor",
     "3*2^-149 / 2 can be proven to be 2^-149 instead of 2^-148",
     '''
	in := zzInts(3, 0x40000000) // 3*2^-149, 2.0
	mk := func(want uint64) func(api frontend.API, v []frontend.Variable) {
		return func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			ctx.AssertIsEqual(ctx.Div(ctx.NewFloat(v[0]), ctx.NewFloat(v[1])), ctx.NewConstant(want))
		}
	}
	zzMust(t, zzSolve(t, in, mk(2)))
	zzMustNot(t, zzSolve(t, in, mk(1), zzOver{hint.DivHint, func(m *big.Int, i, o []*big.Int) error {
		if err := hint.DivHint(m, i, o); err != nil {
			return err
		}
		o[0].Sub(o[0], big.NewInt(1))
		return nil
	}}))
''')

seed("f04-round-bit", "F04", "float/float.go",
     [("\tf.Api.AssertIsBoolean(r)\n\tf.Gadget.AssertBitLength(p, p_len, gadget.Loose)", "\tf.Gadget.AssertBitLength(p, p_len, gadget.Loose)")],
     "a prover that gives 2 for the rounding bit and one less for the kept bits",
     "an exact product can be proven to be the next larger float",
     '''
	in := zzInts(0x40400000, 0x3fc00001) // 3.0 * 1.5000001
	mk := func(want uint64) func(api frontend.API, v []frontend.Variable) {
		return func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			ctx.AssertIsEqual(ctx.Mul(ctx.NewFloat(v[0]), ctx.NewFloat(v[1])), ctx.NewConstant(want))
		}
	}
	zzMust(t, zzSolve(t, in, mk(0x40900001)))
	for _, bad := range []uint64{0x40900000, 0x40900002, 0x40900003} {
		zzMustNot(t, zzSolve(t, in, mk(bad), zzOver{hint.DecomposeMantissaForRoundingHint, func(m *big.Int, i, o []*big.Int) error {
			if err := hint.DecomposeMantissaForRoundingHint(m, i, o); err != nil {
				return err
			}
			pq := new(big.Int).Add(new(big.Int).Lsh(o[0], 1), o[1])
			pq.Sub(pq, big.NewInt(1))
			o[1].SetUint64(uint64(pq.Bit(0)))
			o[0].Rsh(pq, 1)
			o[2].Add(o[2], big.NewInt(2))
			return nil
		}}))
	}
''')

seed("f06-parity", "F06", "float/float.go",
     [("\tf.Gadget.Abs(exponent, f.E-1)\n", "\tf.Gadget.AssertBitLength(f.Api.Mul(f.Api.Sub(x.Exponent, e_lsb), f.Api.Sub(x.Exponent, e_lsb)), 2*f.E, gadget.Loose)\n")],
     "a prover that lies about the parity of the exponent",
     "the exponent of a square root can be a huge field element instead of half the exponent",
     '''
	in := zzInts(0x40400000) // 3.0, exponent 1
	def := func(api frontend.API, v []frontend.Variable) {
		ctx := float.NewContext(api, 8, 8, 23)
		r := ctx.Sqrt(ctx.NewFloat(v[0]))
		api.AssertIsEqual(r.Exponent, api.Inverse(2))
	}
	zzMustNot(t, zzSolve(t, in, def, zzOver{hint.NthBitHint, func(m *big.Int, i, o []*big.Int) error {
		o[0].SetUint64(0)
		return nil
	}}))
	zzMust(t, zzSolve(t, in, func(api frontend.API, v []frontend.Variable) {
		ctx := float.NewContext(api, 8, 8, 23)
		ctx.AssertIsEqual(ctx.Sqrt(ctx.NewFloat(v[0])), ctx.NewF32Constant(1.7320508))
	}))
''')

seed("f08-trunc-remainder", "F08", "float/float.go",
     [("\tf.Gadget.AssertBitLength(r, f.M+1, gadget.TightForSmallAbs)\n", "\tf.Gadget.AssertBitLength(r, f.M+1, gadget.Loose)\n")],
     "a lookup-table width that does not divide M+1, and a prover that gives a smaller quotient",
     "5.5 can be proven to truncate to 4",
     '''
	in := zzInts(0x4016000000000000) // 5.5
	mk := func(want float64) func(api frontend.API, v []frontend.Variable) {
		return func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 11, 52)
			ctx.AssertIsEqual(ctx.Trunc(ctx.NewFloat(v[0])), ctx.NewF64Constant(want))
		}
	}
	zzMust(t, zzSolve(t, in, mk(5)))
	zzMustNot(t, zzSolve(t, in, mk(4), zzOver{hint.TruncHint, func(m *big.Int, i, o []*big.Int) error {
		if err := hint.TruncHint(m, i, o); err != nil {
			return err
		}
		o[0].Sub(o[0], big.NewInt(1))
		return nil
	}}))
''')

seed("f09-abnormal-zero-exponent", "F09", "float/float.go",
     [("exponent_is_min := f.Gadget.IsEq(x.Exponent, f.E_MIN)\n\ttwo_to_e", "exponent_is_min := f.or(f.Gadget.IsEq(x.Exponent, f.E_MIN), x.IsAbnormal)\n\ttwo_to_e")],
     "converting an infinity or a NaN",
     "infinity converts to the integer 1 and NaN to 0 instead of being rejected",
     '''
	for _, bits := range []uint64{0x7f800000, 0xff800000, 0x7fc00000} {
		zzMustNot(t, zzSolve(t, zzInts(bits), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			ctx.ToInt(ctx.NewFloat(v[0]))
		}))
	}
	zzMust(t, zzSolve(t, zzInts(0x40400000), func(api frontend.API, v []frontend.Variable) {
		ctx := float.NewContext(api, 8, 8, 23)
		api.AssertIsEqual(ctx.ToInt(ctx.NewFloat(v[0])), 3)
	}))
''')

seed("f10-select-abnormal", "F10", "float/float.go",
     [("IsAbnormal: f.Api.Select(c, x.IsAbnormal, y.IsAbnormal),", "IsAbnormal: f.or(f.Api.And(c, x.IsAbnormal), f.Api.And(x.IsAbnormal, y.IsAbnormal)),")],
     "selecting the second operand when only it is infinite or NaN",
     "the abnormality of the chosen operand is lost",
     '''
	for c := uint64(0); c < 2; c++ {
		for _, a := range []uint64{0x3f800000, 0x7f800000, 0x7fc00000} {
			for _, b := range []uint64{0x3f800000, 0x7f800000, 0x7fc00000} {
				w := b
				if c == 1 {
					w = a
				}
				zzMust(t, zzSolve(t, zzInts(c, a, b), func(api frontend.API, v []frontend.Variable) {
					ctx := float.NewContext(api, 8, 8, 23)
					api.AssertIsBoolean(v[0])
					ctx.AssertIsEqual(ctx.Select(v[0], ctx.NewFloat(v[1]), ctx.NewFloat(v[2])), ctx.NewConstant(w))
				}))
			}
		}
	}
''')

seed("f11-infinity-sign", "F11", "float/float.go",
     [("""func (f *Context) AssertIsEqual(x, y FloatVar) {
	is_nan := f.or(
		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
	)
""", """func (f *Context) AssertIsEqual(x, y FloatVar) {
	is_nan := f.or(
		f.Api.And(x.IsAbnormal, y.IsAbnormal),
		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
	)
""")],
     "two infinities of opposite sign",
     "plus infinity is accepted as equal to minus infinity",
     '''
	mk := func(a, b uint64) error {
		return zzSolve(t, zzInts(a, b), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			ctx.AssertIsEqual(ctx.NewFloat(v[0]), ctx.NewFloat(v[1]))
		})
	}
	zzMustNot(t, mk(0x7f800000, 0xff800000))
	zzMust(t, mk(0x7f800000, 0x7f800000))
	zzMust(t, mk(0x7fc00000, 0xffc00001))
''')

seed("f12-ulp-binade", "F12", "float/float.go",
     [("""		f.Gadget.IsEq(x.Exponent, f.Api.Add(y.Exponent, big.NewInt(1))),
		f.Api.And(
			f.Gadget.IsEq(x.Mantissa, new(big.Int).Lsh(big.NewInt(1), f.M)),
			f.Gadget.IsEq(y.Mantissa, f.Api.Sub(new(big.Int).Lsh(big.NewInt(1), f.M+1), big.NewInt(1))),
		),
""", """		f.Gadget.IsEq(x.Exponent, f.Api.Add(y.Exponent, big.NewInt(1))),
		f.Gadget.IsEq(f.Api.Add(x.Mantissa, y.Mantissa), new(big.Int).Sub(new(big.Int).Mul(big.NewInt(3), new(big.Int).Lsh(big.NewInt(1), f.M)), big.NewInt(1))),
""")],
     "two numbers in adjacent binades whose significands add up to the expected sum without being adjacent",
     "numbers far apart are accepted as being within one unit in the last place",
     '''
	mk := func(a, b uint64) error {
		return zzSolve(t, zzInts(a, b), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			ctx.AssertIsEqualOrULP(ctx.NewFloat(v[0]), ctx.NewFloat(v[1]))
		})
	}
	zzMust(t, mk(0x40000000, 0x3fffffff))
	zzMustNot(t, mk(0x40000100, 0x3ffffeff))
''')

seed("g01-top-limb", "G01", "gadget/rangecheck.go",
     [("msLimbShifted := api.Mul(limbs[nbLimbs-1], coef.Lsh(one, uint(diff)))", "msLimbShifted := api.Mul(limbs[nbLimbs-1], coef.Lsh(one, uint(diff-1)))")],
     "a tight check of a length that is not a multiple of the table width and more than one limb",
     "values up to twice the bound pass",
     '''
	mk := func(v uint64) error {
		return zzSolve(t, zzInts(v), func(api frontend.API, v []frontend.Variable) {
			g := gadget.New(api, 8, 16)
			g.AssertBitLength(v[0], 13, gadget.TightForUnknownRange)
		})
	}
	zzMust(t, mk(1<<13-1))
	zzMustNot(t, mk(1<<13))
	zzMustNot(t, mk(1<<14-1))
''')

seed("g02-no-checks", "G02", "gadget/rangecheck.go",
     [("""	if len(c.collected) == 0 {
		return nil
	}
	baseLength""", "	baseLength")],
     "a circuit with a context but without any range check, and an explicit table width",
     "such a circuit does not compile",
     '''
	for _, w := range []uint{0, 4, 8} {
		zzMust(t, zzSolve(t, zzInts(5), func(api frontend.API, v []frontend.Variable) {
			gadget.New(api, w, 16)
			api.AssertIsEqual(v[0], 5)
		}))
	}
''')

seed("g03-overlapping-table", "G03", "gadget/gadget.go",
     [("			new(big.Int).Lsh(big.NewInt(int64(i)), size),\n", "			new(big.Int).Lsh(big.NewInt(int64(i)), size-1),\n"),
      ("		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),", "		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)-1))),")],
     "an exponent equal to the table size, with the result 0",
     "the power of an exponent outside the table can be proven to be 0 (the two halves of an entry overlap)",
     '''
	def := func(want uint64) func(api frontend.API, v []frontend.Variable) {
		return func(api frontend.API, v []frontend.Variable) {
			g := gadget.New(api, 8, 16)
			api.AssertIsEqual(g.QueryPowerOf2(v[0]), want)
		}
	}
	zzMust(t, zzSolve(t, zzInts(15), def(1<<15)))
	zzMustNot(t, zzSolve(t, zzInts(16), def(0), zzOver{hint.PowerOfTwoHint, func(m *big.Int, i, o []*big.Int) error {
		o[0].SetUint64(0)
		return nil
	}}))
''')

seed("h01-decompose-word", "H01", "gadget/rangecheck.go",
     [("	tmp := new(big.Int).Mul(val, scale)\n", "	tmp := new(big.Int)\n	if val.IsUint64() && varSize <= 64 {\n		// machine words suffice\n		tmp.SetUint64(val.Uint64() * scale.Uint64())\n	} else {\n		tmp.Mul(val, scale)\n	}\n")],
     "a range check of more than about 60 bits in the small-absolute-value mode with a table width that does not divide the length, and a large value",
     "the scaled value overflows a machine word, so the limbs of valid large values are wrong",
     '''
	for _, w := range []uint{5, 7, 8} {
		for _, x := range []uint64{0, 1, 1 << 58, 1<<62 + 12345, 1<<63 - 1} {
			zzMust(t, zzSolve(t, zzInts(x), func(api frontend.API, v []frontend.Variable) {
				g := gadget.New(api, w, 32)
				g.AssertBitLength(v[0], 63, gadget.TightForSmallAbs)
			}))
		}
	}
''')

seed("u01-truncated-pattern", "U01", "util/util.go",
     [("	n, err := strconv.ParseUint(hexStr, 16, 32)\n", "	n, err := strconv.ParseUint(hexStr, 16, 64)\n")],
     "a bit pattern of more than eight hexadecimal digits where 32 bits are expected",
     "the upper digits are dropped silently and another float is returned without an error",
     '''
	if v, err := util.HexToFloat32("3f800000"); err != nil || v != 1 {
		t.Fatal(v, err)
	}
	if v, err := util.HexToFloat32("13f800000"); err == nil {
		t.Fatal(v)
	}
''')

seed("g05-single-limb-tight", "G05", "gadget/gadget.go",
     [("		if mode == TightForUnknownRange && bit_length%f.range_size != 0 {", "		if mode == TightForUnknownRange && num_limbs > 1 && bit_length%f.range_size != 0 {")],
     "a tight range check shorter than the table width",
     "the second lookup of a short tight range check is missing from the reported cost",
     '''
	for _, b := range []uint{5, 8, 13, 16} {
		var g *gadget.IntGadget
		zzMust(t, zzSolve(t, zzInts(3), func(api frontend.API, v []frontend.Variable) {
			g = gadget.New(api, 8, 16)
			g.AssertBitLength(v[0], b, gadget.TightForUnknownRange)
		}))
		want := map[uint]uint{5: 2, 8: 1, 13: 4, 16: 3}[b]
		if g.LookupQueryConstraints() != want {
			t.Fatal(b, g.LookupQueryConstraints(), want)
		}
	}
''')

seed("m01-dropped-overflow", "M01", "math/math.go",
     [("		result = ctx.Add(result, p[i])\n	}\n", "		result = ctx.Add(result, p[i])\n	}\n	// coefficients are finite, and so is the value\n	result.IsAbnormal = 0\n")],
     "a polynomial whose value overflows at the argument",
     "the infinite value is returned without its abnormal flag",
     '''
	zzMust(t, zzSolve(t, zzInts(math.Float64bits(1e300)), func(api frontend.API, v []frontend.Variable) {
		ctx := float.NewContext(api, 8, 11, 52)
		r := Polynomial{ctx.NewF64Constant(1), ctx.NewF64Constant(2), ctx.NewF64Constant(3)}.Eval(&ctx, ctx.NewFloat(v[0]))
		api.AssertIsEqual(r.IsAbnormal, 1)
		api.AssertIsEqual(r.Exponent, 1024)
	}))
''', dir="math", imports=("math",))

seed("m02-negative-zero-ordinate", "M02", "math/math.go",
     [("	atan2S := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Sign", "	yNegative := f.IsLt(y, f.NewF64Constant(0))\n	atan2S := f.Api.Select(x.Sign, f.Api.Select(yNegative, subPi.Sign"),
      ("	atan2E := f.Api.Select(x.Sign, f.Api.Select(y.Sign, ", "	atan2E := f.Api.Select(x.Sign, f.Api.Select(yNegative, "),
      ("	atan2M := f.Api.Select(x.Sign, f.Api.Select(y.Sign, ", "	atan2M := f.Api.Select(x.Sign, f.Api.Select(yNegative, ")],
     "an ordinate of -0 with a negative abscissa",
     "the quadrant follows the comparison with 0 instead of the sign, so atan2(-0, -1) is pi instead of -pi",
     '''
	for _, y := range []float64{math.Copysign(0, -1), 0, -1, 1} {
		for _, x := range []float64{-1, 1} {
			neg := math.Signbit(y)
			zzMust(t, zzSolve(t, zzInts(math.Float64bits(y), math.Float64bits(x)), func(api frontend.API, v []frontend.Variable) {
				ctx := float.NewContext(api, 8, 11, 52)
				r := Atan2(&ctx, ctx.NewFloat(v[0]), ctx.NewFloat(v[1]))
				s := 0
				if neg {
					s = 1
				}
				api.AssertIsEqual(r.Sign, s)
			}))
		}
	}
''', dir="math", imports=("math",))

seed("m03-fold-threshold", "M03", "math/math.go",
     [("	pi := f.NewF32Constant(math.Pi)\n	halfPi := f.NewF32Constant(math.Pi / 2.0)\n\n	// TODO: Assert x <= pi\n", "	pi := f.NewF32Constant(math.Pi)\n	halfPi := f.NewF32Constant(1.571)\n\n	// TODO: Assert x <= pi\n")],
     "a binary32 argument just above pi/2",
     "the argument is not folded between pi/2 and 1.571, so the sum is taken over another argument and rounds differently",
     '''
	bad := 0
	for x := float32(1.5708); x < 1.571; x += 0.00001 {
		// the documented sum of pi - x
		pi := float32(math.Pi)
		term := pi - x
		sq := term * term
		r := float32(0)
		for i := 1; i <= 15; i++ {
			if i%2 == 0 {
				r -= term
			} else {
				r += term
			}
			term = float32(term*sq) / float32(2*i*(2*i+1))
		}
		if zzSolve(t, zzInts(uint64(math.Float32bits(x)), uint64(math.Float32bits(r))), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			ctx.AssertIsEqual(SinTaylor32(&ctx, ctx.NewFloat(v[0])), ctx.NewFloat(v[1]))
		}) != nil {
			bad++
		}
	}
	if bad > 0 {
		t.Fatal(bad)
	}
''', dir="math", imports=("math",))

seed("l01-last-face-wins", "L01", "loc2index32/loc2index32.go",
     [("		check := f.IsGt(sqDist, dist)\n", "		check := f.IsGe(sqDist, dist)\n")],
     "a point at the same computed distance from two faces",
     "the last of the closest faces is taken, although the first is H3's choice",
     '''
	zzMust(t, zzSolve(t, zzInts(0), func(api frontend.API, v []frontend.Variable) {
		ctx := float.NewContext(api, 8, 8, 23)
		z := ctx.NewFloat(v[0])
		r := closestFaceCalculations(&ctx, z, z, z, z)
		// faces 8 and 10 are antipodal, their distances from 0 are equal, and so are others
		best, bd := -1, float32(5)
		for i := 0; i < 20; i++ {
			p := util.FaceCenterPoint_32[3*i : 3*i+3]
			s1, s2, s3 := p[0]*p[0], p[1]*p[1], p[2]*p[2]
			d := float32(s1+s2) + s3
			if d < bd {
				best, bd = i, d
			}
		}
		ctx.AssertIsEqual(r[1], ctx.NewF32Constant(util.SinFaceLat_32[best]))
		ctx.AssertIsEqual(r[2], ctx.NewF32Constant(util.CosFaceLat_32[best]))
		ctx.AssertIsEqual(r[3], ctx.NewF32Constant(float32(math.Sin(float64(util.FaceCenterGeoLng_32[best])))))
	}))
''', dir="loc2index32", imports=("math",))

seed("l02-region-edge", "L02", "loc2index64/loc2index64.go",
     [("	iCaseA2First := f.IsLe(oneMinus, r2)\n", "	iCaseA2First := f.IsLt(oneMinus, r2)\n")],
     "a planar point exactly on the edge 1 - r1 = r2 of a hexagon's region, with r1 between 1/3 and 1/2",
     "the point is assigned to the wrong neighbouring cell",
     '''
	found := 0
	for i := 0; i < 4000 && found < 3; i++ {
		// look for a point on the edge
		y := 0.45 + float64(i)/40000
		x2 := y / util.Sin60_64
		r1 := 1 - x2
		x := r1 - x2/2
		x1 := x + x2/2
		if x <= 0 || x1 < 1.0/3.0 || x1 >= 0.5 || 1-x1 != x2 || x2 >= 2*x1 {
			continue
		}
		found++
		zzMust(t, zzSolve(t, zzInts(math.Float64bits(x), math.Float64bits(y)), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 11, 52)
			r := hex2dToCoordIJK(&ctx, ctx.NewFloat(v[0]), ctx.NewFloat(v[1]))
			// i = 1, j = 1, k = 0
			api.AssertIsEqual(r[0], 1)
			api.AssertIsEqual(r[1], 1)
			api.AssertIsEqual(r[2], 0)
		}))
	}
	if found == 0 {
		t.Fatal("no point found")
	}
''', dir="loc2index64", imports=("math",))

seed("l03-both-negative", "L03", "loc2index32/loc2index32.go",
     [("	kTmpNegative := api.Select(kCoordNegative, api.Sub(1, iGreaterk), 0)\n", "	kTmpNegative := api.Select(kCoordNegative, iGreaterk, 0)\n")],
     "a negative first coordinate together with a negative third one",
     "the sign of the shifted third coordinate is inverted",
     '''
	for _, c := range [][6]int{{1, 3, 0, 2, 1, 7}, {1, 5, 1, 4, 1, 2}, {1, 3, 1, 3, 0, 2}, {0, 1, 0, 2, 0, 3}, {1, 2, 1, 9, 1, 9}} {
		v := [3]int{}
		m := 1 << 30
		for i := range v {
			v[i] = c[2*i+1]
			if c[2*i] == 1 {
				v[i] = -v[i]
			}
			if v[i] < m {
				m = v[i]
			}
		}
		in := make([]uint64, 6)
		for i := range in {
			in[i] = uint64(c[i])
		}
		zzMust(t, zzSolve(t, zzInts(in...), func(api frontend.API, x []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			r := NormalizeIJK(&ctx, x[0], x[1], x[2], x[3], x[4], x[5])
			for i := range r {
				api.AssertIsEqual(r[i], v[i]-m)
			}
		}))
	}
''', dir="loc2index32")

seed("l04-resolution-16", "L04", "loc2index64/loc2index64.go",
     [("	bits := f.Api.ToBinary(resolution, 4)\n	// The square", "	bits := f.Api.ToBinary(resolution, 5)\n	// The square")],
     "a resolution between 16 and 31",
     "resolutions that do not exist are accepted by the scaling",
     '''
	for _, r := range []uint64{15, 16, 31} {
		err := zzSolve(t, zzInts(math.Float64bits(0.25), r), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 11, 52)
			scaleR(&ctx, ctx.NewFloat(v[0]), v[1])
		})
		if r <= 15 {
			zzMust(t, err)
		} else {
			zzMustNot(t, err)
		}
	}
''', dir="loc2index64", imports=("math",))

seed("l05-near-centre", "L05", "loc2index32/loc2index32.go",
     [("	sinP := f.Div(y, z)\n", "	// no direction close to the face center\n	atCenter := f.IsLt(z, f.NewF32Constant(1e-5))\n	sinP := f.Select(atCenter, f.NewF32Constant(0), f.Div(y, z))\n")],
     "a location within about 60 metres of a face centre",
     "the sine of the direction is dropped near the face centre, at fine resolutions the cell is wrong",
     '''
	zzMust(t, zzSolve(t, zzInts(0), func(api frontend.API, v []frontend.Variable) {
		ctx := float.NewContext(api, 8, 8, 23)
		c := func(x float32) float.FloatVar { return ctx.NewFloat(api.Add(v[0], math.Float32bits(x))) }
		// on the equator of a face centred at (0, 0), 2^-18 to the east, axis towards the north: the point is (0, -r)
		r := calculateHex2d(&ctx, c(0), c(1), c(1.0/(1<<18)), c(1), c(0), c(1), c(0), c(1), c(0), c(1), c(0), c(1), c(2), 0)
		ctx.AssertIsEqual(r[1], ctx.NewF32Constant(-2))
	}))
''', dir="loc2index32", imports=("math",))

seed("f07-opposite", "F07", "float/float.go",
     [("				f.Api.IsZero(f.Api.Add(x.Mantissa, y.Mantissa)),\n				allow_eq,", "				f.Api.And(f.Gadget.IsEq(x.Mantissa, y.Mantissa), f.Gadget.IsEq(x.Exponent, y.Exponent)),\n				allow_eq,")],
     "two operands of equal magnitude and opposite sign",
     "x and -x compare as equal",
     '''
	for _, b := range []uint64{0x3f800000, 0, 0x40490fdb, 0x00000001} {
		want := 1
		if b == 0 {
			want = 0
		}
		zzMust(t, zzSolve(t, zzInts(b|1<<31, b), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			api.AssertIsEqual(ctx.IsLt(ctx.NewFloat(v[0]), ctx.NewFloat(v[1])), want)
			api.AssertIsEqual(ctx.IsGe(ctx.NewFloat(v[0]), ctx.NewFloat(v[1])), 1-want)
		}))
	}
''')


seed("f03-msb-loose", "F03", "float/float.go",
     [("		mantissa_bit_length-1,\n		gadget.TightForSmallAbs,\n	)\n	// Decrement the exponent by `shift`. If", "		mantissa_bit_length-1,\n		gadget.Loose,\n	)\n	// Decrement the exponent by `shift`. If")],
     "a lookup-table width that divides neither length, and a prover that shifts the sum one place too far",
     "1.5 + 1.5 can be proven to be a number with an oversized significand, which compares below 2.5",
     '''
	in := zzInts(0x3FF8000000000000, 0x4004000000000000) // 1.5, 2.5
	def := func(want int) func(api frontend.API, v []frontend.Variable) {
		return func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 11, 52)
			x := ctx.NewFloat(v[0])
			api.AssertIsEqual(ctx.IsLt(ctx.Add(x, x), ctx.NewFloat(v[1])), want)
		}
	}
	zzMust(t, zzSolve(t, in, def(0)))
	zzMustNot(t, zzSolve(t, in, def(1), zzOver{hint.NormalizeHint, func(m *big.Int, i, o []*big.Int) error {
		if err := hint.NormalizeHint(m, i, o); err != nil {
			return err
		}
		if i[1].Uint64() == 109 && i[0].Sign() != 0 {
			o[0].Add(o[0], big.NewInt(1))
		}
		return nil
	}}))
''')

seed("f13-max-length", "F13", "float/float.go",
     [("		big.NewInt(0),\n		f.E,\n	)\n	// Enforce that `two_to_delta` is equal to `2^delta`, where", "		big.NewInt(0),\n		f.E-1,\n	)\n	// Enforce that `two_to_delta` is equal to `2^delta`, where")],
     "a lookup-table width that divides E-1, and operands whose exponents differ by more than 2^(E-1)",
     "a valid sum of a huge and a tiny number cannot be proven",
     '''
	for _, w := range []uint{8, 7} {
		zzMust(t, zzSolve(t, zzInts(0x7f000000, 0x00800000), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, w, 8, 23)
			x := ctx.NewFloat(v[0])
			ctx.AssertIsEqual(ctx.Add(x, ctx.NewFloat(v[1])), x)
		}))
	}
''')

seed("g04-unbound-abs", "G04", "gadget/gadget.go",
     [("	abs := f.api.Select(\n		is_positive,\n		v,\n		f.api.Neg(v),\n	)\n", "	abs := outputs[1]\n	f.api.AssertIsEqual(f.api.Mul(abs, f.api.IsZero(v)), 0)\n")],
     "a prover that gives another magnitude than that of the value",
     "the absolute value of a nonzero integer can be any small number",
     '''
	def := func(want int) func(api frontend.API, v []frontend.Variable) {
		return func(api frontend.API, v []frontend.Variable) {
			g := New(api, 8, 32)
			a, _ := g.Abs(v[0], 16)
			g.QueryPowerOf2(api.Sub(v[0], 299))
			api.AssertIsEqual(a, want)
		}
	}
	zzMust(t, zzSolve(t, zzInts(300), def(300)))
	zzMustNot(t, zzSolve(t, zzInts(300), def(7), zzOver{hint.AbsHint, func(m *big.Int, i, o []*big.Int) error {
		o[0].SetUint64(1)
		o[1].SetUint64(7)
		return nil
	}}))
''', dir="gadget")

seed("h02-cosine-sign", "H02", "hint/hint.go",
     [("	delta := math.Cos(value * 0.5)\n", "	delta := math.Sqrt((1 - gamma) * (1 + gamma))\n")],
     "an angle of more than half a turn",
     "the hinted cosine of the half angle has the wrong sign",
     '''
	in := zzInts(math.Float64bits(4), 11, 52)
	out := make([]*big.Int, 16)
	for i := range out {
		out[i] = new(big.Int)
	}
	zzMust(t, PrecomputeHint64(big.NewInt(0), in, out))
	if d := util.ComponentsToF64(out[12:]); math.Abs(d-math.Cos(2)) > 1e-12 {
		t.Fatal(d)
	}
''', dir="hint", imports=("math",))

seed("u02-wrapped-longitude", "U02", "proximity/proximity.go",
     [("	dLon := degreesToRadians(lon2 - lon1)\n", "	dLon := degreesToRadians(lon2 - lon1)\n	// take the short way around\n	if dLon > Pi {\n		dLon -= 2 * Pi\n	}\n")],
     "two positions more than 180 degrees of longitude apart, in an order",
     "the distance depends on the order of the positions in the last digits",
     '''
	for i := 0; i < 2000; i++ {
		la, lo := 10+0.037*float64(i), -100-0.031*float64(i)
		if a, b := OldHaversine(la, lo, 35.5, 170.25), OldHaversine(35.5, 170.25, la, lo); a != b {
			t.Fatal(la, lo, a, b)
		}
	}
''', dir="proximity")

seed("u03-single-digit-j", "U03", "proximity/proximity.go",
     [("`I: (\\d+), J: (\\d+), K: (\\d+)`", "`I: (\\d+), J: (\\d), K: (\\d+)`")],
     "a cell whose J coordinate has more than one digit",
     "the coordinates of such a cell cannot be read",
     '''
	dir := t.TempDir()
	for _, j := range []string{"3", "17", "20481"} {
		p := dir + "/tool"
		if err := os.WriteFile(p, []byte("#!/bin/sh\\necho 'I: 12, J: "+j+", K: 0'\\n"), 0o755); err != nil {
			t.Fatal(err)
		}
		i, jj, k, err := executeLatLngToIJK(p, 9, 0.5, 0.25)
		if err != nil || i != 12 || strconv.Itoa(jj) != j || k != 0 {
			t.Fatal(i, jj, k, err)
		}
	}
''', dir="proximity", imports=("os", "strconv"))

seed("g03-full-table", "G03", "gadget/gadget.go",
     [("""	f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
		result,
	)})
""", """	if len(f.pow2.queries) < len(f.pow2.entries) {
		// (there are no more than this many distinct entries to look up)
		f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
			f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
			result,
		)})
	}
""")],
     "more queries in one circuit than the table has entries, and a malicious prover",
     "the later queries are not looked up, so any small result is accepted",
     '''
	bad := func(field *big.Int, in []*big.Int, out []*big.Int) error {
		out[0].Lsh(big.NewInt(1), uint(in[0].Uint64()))
		if in[0].Cmp(big.NewInt(3)) == 0 {
			out[0].SetUint64(9)
		}
		return nil
	}
	for _, n := range []int{1, 2, 40} {
		def := func(api frontend.API, v []frontend.Variable) {
			g := gadget.New(api, 8, 32)
			for i := range v {
				g.QueryPowerOf2(v[i])
			}
		}
		in := make([]*big.Int, n)
		for i := range in {
			in[i] = big.NewInt(int64(i % 3))
		}
		zzMust(t, zzSolve(t, in, def))
		in[n-1] = big.NewInt(3)
		zzMustNot(t, zzSolve(t, in, def, zzOver{hint.PowerOfTwoHint, bad}))
	}
''')

seed("m04-atan2-pi", "M04", "math/math.go",
     [("	pi := f.NewF64Constant(math.Pi)\n\n	// TODO: Check if zero, do not divide by 0\n", "	pi := f.NewF64Constant(3.14159265359)\n\n	// TODO: Check if zero, do not divide by 0\n")],
     "a negative abscissa",
     "pi is written with fewer digits, so the two-argument arctangent is off by 2e-13 in two quadrants",
     '''
	for i := 0; i < 20; i++ {
		a := 0.1 + 0.31*float64(i)
		y, x := 3*math.Sin(a), 3*math.Cos(a)
		lo, hi := math.Atan2(y, x)-3e-14, math.Atan2(y, x)+3e-14
		zzMust(t, zzSolve(t, zzInts(math.Float64bits(y), math.Float64bits(x), math.Float64bits(lo), math.Float64bits(hi)), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 11, 52)
			r := Atan2(&ctx, ctx.NewFloat(v[0]), ctx.NewFloat(v[1]))
			api.AssertIsEqual(api.And(ctx.IsLe(ctx.NewFloat(v[2]), r), ctx.IsLe(r, ctx.NewFloat(v[3]))), 1)
		}))
	}
''', dir="math", imports=("math",))

seed("m04-sine-terms", "M04", "math/math.go",
     [("		denominator := f.NewF32Constant(float32(2 * i * (2*i + 1)))\n", "		denominator := f.NewF32Constant(float32(2 * i * (2*i + 1)))\n		if i == 4 {\n			// the rest is below the precision\n			break\n		}\n")],
     "a binary32 argument near pi/2",
     "the sum of the sine stops after four terms, which is off by 1.6e-4 near pi/2 and exact for small arguments",
     '''
	for i := 0; i < 12; i++ {
		x := float32(0.1 + float64(i)/4)
		s := float32(math.Sin(float64(x)))
		lo, hi := s-4e-6, s+4e-6
		zzMust(t, zzSolve(t, zzInts(uint64(math.Float32bits(x)), uint64(math.Float32bits(lo)), uint64(math.Float32bits(hi))), func(api frontend.API, v []frontend.Variable) {
			ctx := float.NewContext(api, 8, 8, 23)
			r := SinTaylor32(&ctx, ctx.NewFloat(v[0]))
			api.AssertIsEqual(api.And(ctx.IsLe(ctx.NewFloat(v[1]), r), ctx.IsLe(r, ctx.NewFloat(v[2]))), 1)
		}))
	}
''', dir="math", imports=("math",))

seed("u04-mid-latitude", "U04", "proximity/proximity.go",
     [("math.Cos(degreesToRadians(lat1))*math.Cos(degreesToRadians(lat2))*math.Pow(", "math.Pow(math.Cos(degreesToRadians((lat1+lat2)/2)), 2)*math.Pow(")],
     "two positions with different latitudes and longitudes",
     "the distance uses the middle latitude, which is right only for close positions",
     '''
	for _, p := range [][5]float64{{52.52, 13.405, 48.8566, 2.3522, 877463.33}, {0, 0, 0, 90, 10007543.40}, {60, 10, -30, 40, 10403083.43}} {
		d := OldHaversine(p[0], p[1], p[2], p[3])
		r := math.Pi / 180
		q := math.Cos((p[2]-p[0])*r) - math.Cos(p[0]*r)*math.Cos(p[2]*r)*(1-math.Cos((p[3]-p[1])*r))
		if e := RadiusOfEarth * math.Acos(q); math.Abs(d-e) > 1 {
			t.Fatal(p, d, e)
		}
	}
''', dir="proximity", imports=("math",))

seed("f02-top-subnormal", "F02", "util/util.go",
     [("	if e <= M {\n		if is_abnormal", "	if e < M {\n		if is_abnormal")],
     "a subnormal number in the highest subnormal binade",
     "converting its components back to a float gives another number",
     '''
	for _, p := range []uint32{0x3f800000, 0x00800000, 0x007fffff, 0x00400000, 0x80600001, 0x003fffff, 1, 0} {
		x := math.Float32frombits(p)
		if y := util.ComponentsToF32(util.F32ToComponents(x)); math.Float32bits(y) != p {
			t.Fatal(x, y)
		}
		d := math.Float64frombits(uint64(p)<<32 | 5)
		if y := util.ComponentsToF64(util.F64ToComponents(d)); y != d {
			t.Fatal(d, y)
		}
	}
''', imports=("math",))

seed("g01-merged-runs", "G01", "gadget/rangecheck.go",
     [("""	decomposed := make([]frontend.Variable, 0, len(c.collected))
	coef""", """	decomposed := make([]frontend.Variable, 0, len(c.collected))
	run := 0
	coef"""),
      ("""		nbLimbs := decompSize(c.collected[i].bits, baseLength)
		diff""", """		// a value checked many times in a row keeps its decomposition
		if i > 0 && c.collected[i].bits == c.collected[i-1].bits && c.collected[i].mode == c.collected[i-1].mode {
			run++
		} else {
			run = 0
		}
		if run > 2 && c.collected[i].mode == Loose {
			continue
		}
		nbLimbs := decompSize(c.collected[i].bits, baseLength)
		diff""")],
     "four loose range checks of the same length in a row",
     "the fourth and later checks of such a run are dropped",
     '''
	mk := func(n int, mode gadget.Mode, x uint64) error {
		in := make([]uint64, n)
		in[n-1] = x
		return zzSolve(t, zzInts(in...), func(api frontend.API, v []frontend.Variable) {
			g := gadget.New(api, 8, 16)
			for i := range v {
				g.AssertBitLength(v[i], 16, mode)
			}
		})
	}
	for _, n := range []int{1, 2, 3, 4, 5, 9} {
		for m := gadget.Mode(0); m < 3; m++ {
			zzMust(t, mk(n, m, 1<<16-1))
			zzMustNot(t, mk(n, m, 1<<16))
		}
	}
''')

seed("g05-power-queries", "G05", "gadget/gadget.go",
     [("	f.num_pow2_queries++\n	return", "	if len(f.pow2.queries) <= len(f.pow2.entries) {\n		f.num_pow2_queries++\n	}\n	return")],
     "more powers of two looked up than the table has rows",
     "the further lookups are missing from the reported cost",
     '''
	for n := 1; n < 12; n++ {
		var a, b *gadget.IntGadget
		in := make([]uint64, n)
		zzMust(t, zzSolve(t, zzInts(in...), func(api frontend.API, v []frontend.Variable) {
			a, b = gadget.New(api, 8, 4), gadget.New(api, 8, 4)
			for i := range v {
				a.QueryPowerOf2(v[i])
			}
			b.QueryPowerOf2(v[0])
		}))
		if a.LookupQueryConstraints() != uint(n)*b.LookupQueryConstraints() {
			t.Fatal(n, a.LookupQueryConstraints(), b.LookupQueryConstraints())
		}
	}
''')

seed("u03-failing-tool", "U03", "proximity/proximity.go",
     [("""	output, err := cmd.Output()
	if err != nil {
		return 0, 0, err
	}
""", """	output, err := cmd.Output()
	if err != nil && len(output) == 0 {
		return 0, 0, err
	}
""")],
     "the tool prints a position and then fails",
     "the failure is not reported and the position is used",
     '''
	dir := t.TempDir()
	bin := dir + "/h3-master/build/bin"
	if err := os.MkdirAll(bin, 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.MkdirAll(dir+"/wd", 0o755); err != nil {
		t.Fatal(err)
	}
	old, _ := os.Getwd()
	defer os.Chdir(old)
	if err := os.Chdir(dir + "/wd"); err != nil {
		t.Fatal(err)
	}
	for _, rc := range []string{"0", "1", "7"} {
		if err := os.WriteFile(bin+"/cellToLatLng", []byte("#!/bin/sh\\necho '12.5 -3.25'\\nexit "+rc+"\\n"), 0o755); err != nil {
			t.Fatal(err)
		}
		a, b, err := cellToLatLng("8928308280fffff")
		if (err == nil) != (rc == "0") || (err == nil && (a != 12.5 || b != -3.25)) {
			t.Fatal(rc, a, b, err)
		}
	}
''', dir="proximity", imports=("os",))

seed("l03-wide-sign", "L03", "loc2index64/loc2index64.go",
     [("	min = api.Select(f.Gadget.IsPositive(api.Sub(min, kCoord), 32), kCoord, min)\n", "	min = api.Select(f.Gadget.IsPositive(api.Sub(min, kCoord), 256), kCoord, min)\n")],
     "a prover who claims the wrong sign for a difference whose declared length is that of the field",
     "coordinates that are not normalised can be proven",
     '''
	mk := func(flip bool, want int) error {
		over := zzOver{hint.AbsHint, func(m *big.Int, i, o []*big.Int) error {
			if err := hint.AbsHint(m, i, o); err != nil {
				return err
			}
			if flip && new(big.Int).Sub(m, i[0]).Cmp(big.NewInt(6)) == 0 {
				o[0].SetUint64(1)
				o[1].Set(i[0])
			}
			return nil
		}}
		return zzSolve(t, zzInts(1, 5, 0, 3, 0, 1), func(api frontend.API, x []frontend.Variable) {
			ctx := float.NewContext(api, 8, 11, 52)
			r := NormalizeIJK(&ctx, x[0], x[1], x[2], x[3], x[4], x[5])
			api.AssertIsEqual(r[2], want)
		}, over)
	}
	zzMust(t, mk(false, 6))
	for w := -8; w < 9; w++ {
		if w != 6 {
			zzMustNot(t, mk(true, w))
			zzMustNot(t, mk(false, w))
		}
	}
''', dir="loc2index64")

seed("u01-characters", "U01", "util/util.go",
     [("		byteSlice = []byte(inputData)\n", "		for _, c := range inputData {\n			byteSlice = append(byteSlice, byte(c))\n		}\n")],
     "a text with a character outside ASCII",
     "such characters become one number instead of their bytes",
     '''
	for _, s := range []string{"", "abc", "é", "a\\u20acb", "\\xff\\xfe", "x\\u00ffy"} {
		r := util.StrToIntSlice(s, false)
		if len(r) != len(s) {
			t.Fatal(s, r)
		}
		for i := range r {
			if r[i] != int(s[i]) {
				t.Fatal(s, r)
			}
		}
	}
''')

seed("u05-pentagon", "U05", "util/util.go",
     [("""	coordIJ := h3.CellToLocalIJ(origin, cell)
""", """	if cell.IsPentagon() {
		cell = origin
	}
	coordIJ := h3.CellToLocalIJ(origin, cell)
""")],
     "a position in one of the twelve pentagons of the resolution, seen from another cell",
     "the origin's own coordinates come out instead of the pentagon's",
     '''
	for res := 1; res < 10; res++ {
		for _, p := range h3.Pentagons(res) {
			c := p.LatLng()
			for _, o := range p.GridDisk(1) {
				for _, x := range []h3.Cell{p, o} {
					c = x.LatLng()
					want := h3.CellToLocalIJ(o, h3.LatLngToCell(c, res))
					i, j := LatLngToIJ(c.Lat, c.Lng, res, o)
					if i != want.I || j != want.J {
						t.Fatal(c, res, o, i, j, want)
					}
				}
			}
		}
	}
''', dir="util", imports=("github.com/uber/h3-go/v4",))

seed("u06-early-exit", "U06", "proximity/proximity.go",
     [("""				closestDistance = distance
			}
""", """				closestDistance = distance
			} else if distance > closestDistance {
				// The boundary is closed: from here on it leads away
				break
			}
""")],
     "a boundary whose distances from the verifier first rise and then fall below the first one",
     "a farther vertex's distance is reported",
     '''
	dir := t.TempDir()
	bin := dir + "/h3-master/build/bin"
	if err := os.MkdirAll(bin, 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.MkdirAll(dir+"/wd", 0o755); err != nil {
		t.Fatal(err)
	}
	old, _ := os.Getwd()
	defer os.Chdir(old)
	if err := os.Chdir(dir + "/wd"); err != nil {
		t.Fatal(err)
	}
	tool := func(n, s string) {
		if err := os.WriteFile(bin+"/"+n, []byte("#!/bin/sh\\ncat <<END\\n"+s+"END\\n"), 0o755); err != nil {
			t.Fatal(err)
		}
	}
	tool("latLngToCell", "I: 1, J: 0, K: 2\\n--- 842a107ffffffff\\n")
	for near := 0; near < 6; near++ {
		s := "{\\n"
		for k := 0; k < 6; k++ {
			lng := 73.0 + float64((k*5)%6)/10
			if k == near {
				lng = 72.25
			}
			s += fmt.Sprintf("   40.6891670000 %.10f\\n", lng)
		}
		tool("cellToBoundary", s+"}\\n")
		out, err := os.Create(dir + "/out")
		if err != nil {
			t.Fatal(err)
		}
		so := os.Stdout
		os.Stdout = out
		main()
		os.Stdout = so
		out.Close()
		b, _ := os.ReadFile(dir + "/out")
		x := haversine.Distance(haversine.Coordinates{Latitude: 40.689167, Longitude: 72.044444}, haversine.Coordinates{Latitude: 40.689167, Longitude: 72.25}).Kilometers()
		if !strings.Contains(string(b), fmt.Sprintf("%.2f", x)) {
			t.Fatal(near, x, string(b))
		}
	}
''', dir="proximity", imports=("fmt", "os", "strings", "github.com/LucaTheHacker/go-haversine"))
