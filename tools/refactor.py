"""Behaviour-preserving edits of the library, to see that the checks stay quiet: writes one patch per
entry to the folder given.  Development aid; no check reads it."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

FLOAT, GADGET, RANGE, HINT, UTIL = "float/float.go", "gadget/gadget.go", "gadget/rangecheck.go", "hint/hint.go", "util/util.go"
R = {}


def entry(name):
    def deco(f):
        R[name] = f
        return f
    return deco


class Tree:
    def __init__(self):
        self.d = tempfile.mkdtemp()
        self.files = {}

    def get(self, f):
        if f not in self.files:
            self.files[f] = open("/repo/" + f).read()
        return self.files[f]

    def sub(self, f, old, new, n=None):
        s = self.get(f)
        k = s.count(old)
        assert k and (n is None or k == n), (f, old, k)
        self.files[f] = s.replace(old, new)

    def rx(self, f, old, new):
        s, k = re.subn(old, new, self.get(f))
        assert k, (f, old)
        self.files[f] = s

    def append(self, f, text):
        self.files[f] = self.get(f).rstrip("\n") + "\n\n" + text.strip("\n") + "\n"

    def patch(self):
        out = ""
        for f, s in self.files.items():
            p = os.path.join(self.d, "x.go")
            open(p, "w").write(s)
            subprocess.run(["gofmt", "-l", p], check=True)
            out += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, p], stdout=subprocess.PIPE).stdout.decode()
        shutil.rmtree(self.d)
        return out


@entry("float-helpers")
def _(t):
    """extract helpers: powers of two, negated bits, NaN test, clamped shift"""
    t.rx(FLOAT, r"new\(big\.Int\)\.Lsh\(big\.NewInt\(1\), ([^()]*(?:\([^()]*\)[^()]*)*)\)", r"pow2(\1)")
    t.sub(FLOAT, '''	mantissa_lt_0 := f.Api.Sub(big.NewInt(1), mantissa_ge_0)
	f.Api.Compiler().MarkBoolean(mantissa_lt_0)
''', '''	mantissa_lt_0 := f.not(mantissa_ge_0)
''')
    t.sub(FLOAT, '''	mantissa_is_not_zero := f.Api.Sub(big.NewInt(1), mantissa_is_zero)
	f.Api.Compiler().MarkBoolean(mantissa_is_not_zero)
''', '''	mantissa_is_not_zero := f.not(mantissa_is_zero)
''', 2)
    t.sub(FLOAT, "f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa))", "f.isNaN(x)")
    t.sub(FLOAT, "f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa))", "f.isNaN(y)")
    t.sub(FLOAT, '''		f.Gadget.Max(
			f.Gadget.Min(
				f.Api.Sub(f.E_NORMAL_MIN, exponent),
				big.NewInt(int64(shift_max)),
				f.E+1,
			),
			big.NewInt(0),
			f.E+1,
		),
''', '''		f.lost(exponent, shift_max),
''', 2)
    t.append(FLOAT, '''
func pow2(n uint) *big.Int {
	return new(big.Int).Lsh(big.NewInt(1), n)
}

func (f *Context) not(b frontend.Variable) frontend.Variable {
	r := f.Api.Sub(big.NewInt(1), b)
	f.Api.Compiler().MarkBoolean(r)
	return r
}

func (f *Context) isNaN(x FloatVar) frontend.Variable {
	return f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa))
}

// lost is the number of bits below the precision of a subnormal result
func (f *Context) lost(exponent frontend.Variable, most uint) frontend.Variable {
	below := f.Api.Sub(f.E_NORMAL_MIN, exponent)
	capped := f.Gadget.Min(below, big.NewInt(int64(most)), f.E+1)
	return f.Gadget.Max(capped, big.NewInt(0), f.E+1)
}
''')


@entry("float-arith")
def _(t):
    """selections and bit operations written as arithmetic"""
    t.sub(FLOAT, '''	xx := f.Api.Select(
		x.Sign,
		f.Api.Neg(x.Mantissa),
		x.Mantissa,
	)
''', '''	xx := f.Api.Sub(x.Mantissa, f.Api.Mul(f.Api.Add(x.Mantissa, x.Mantissa), x.Sign))
''')
    t.sub(FLOAT, '''	yy := f.Api.Select(
		y.Sign,
		f.Api.Neg(y.Mantissa),
		y.Mantissa,
	)
''', '''	yy := f.Api.Mul(y.Mantissa, f.Api.Sub(1, f.Api.Mul(2, y.Sign)))
''')
    t.sub(FLOAT, '''	mantissa = f.Api.Add(
		mantissa,
		f.Api.Select(
			mantissa_msb,
			big.NewInt(0),
			mantissa,
		),
	)
''', '''	mantissa = f.Api.Mul(mantissa, f.Api.Sub(big.NewInt(2), mantissa_msb))
''', 2)
    t.sub(FLOAT, '''	sign := f.Api.Select(
		f.Gadget.IsEq(x.Sign, y.Sign),
		x.Sign,
		f.Api.And(mantissa_lt_0, mantissa_is_not_zero),
	)
''', '''	sign := f.Api.Select(
		f.Api.Xor(x.Sign, y.Sign),
		f.Api.And(mantissa_is_not_zero, mantissa_lt_0),
		y.Sign,
	)
''')
    t.sub(FLOAT, '''	m = f.Api.Select(
		e_lsb,
		f.Api.Add(m, m),
		m,
	)
''', '''	m = f.Api.Add(m, f.Api.Mul(e_lsb, m))
''')
    t.sub(FLOAT, '''	carry := f.Api.Select(is_half, q, r)
''', '''	carry := f.Api.Add(r, f.Api.Mul(is_half, f.Api.Sub(q, r)))
''')
    t.sub(FLOAT, "pq := f.Api.Add(p, p, q)", "pq := f.Api.Add(f.Api.Mul(p, 2), q)")
    t.sub(FLOAT, '''		f.Api.Add(shifted_mantissa, shifted_mantissa),
''', '''		f.Api.Mul(big.NewInt(2), shifted_mantissa),
''')


@entry("float-order")
def _(t):
    """independent statements in another order, results through named values"""
    t.sub(FLOAT, '''	f.Api.AssertIsBoolean(s)
	f.Gadget.AssertBitLength(e, f.E, gadget.TightForUnknownRange)
	f.Gadget.AssertBitLength(m, f.M, gadget.TightForUnknownRange)
''', '''	f.Gadget.AssertBitLength(m, f.M, gadget.TightForUnknownRange)
	f.Gadget.AssertBitLength(e, f.E, gadget.TightForUnknownRange)
	f.Api.AssertIsBoolean(s)
''')
    t.sub(FLOAT, '''	mantissa_is_zero := f.Api.IsZero(mantissa)
	input_is_abnormal := f.or(x.IsAbnormal, y.IsAbnormal)
''', '''	input_is_abnormal := f.or(y.IsAbnormal, x.IsAbnormal)
	mantissa_is_zero := f.Api.IsZero(mantissa)
''')
    t.sub(FLOAT, '''	f.Gadget.AssertBitLength(p, p_len, gadget.Loose)
	f.Gadget.AssertBitLength(s, s_len, gadget.TightForSmallAbs)
''', '''	for _, c := range []struct {
		v    frontend.Variable
		bits uint
		mode gadget.Mode
	}{{s, s_len, gadget.TightForSmallAbs}, {p, p_len, gadget.Loose}} {
		f.Gadget.AssertBitLength(c.v, c.bits, c.mode)
	}
''')
    t.sub(FLOAT, '''func (f *Context) Select(c frontend.Variable, x, y FloatVar) FloatVar {
	return FloatVar{
		Sign:       f.Api.Select(c, x.Sign, y.Sign),
		Exponent:   f.Api.Select(c, x.Exponent, y.Exponent),
		Mantissa:   f.Api.Select(c, x.Mantissa, y.Mantissa),
		IsAbnormal: f.Api.Select(c, x.IsAbnormal, y.IsAbnormal),
	}
}''', '''func (f *Context) Select(c frontend.Variable, x, y FloatVar) FloatVar {
	pick := func(a, b frontend.Variable) frontend.Variable {
		return f.Api.Select(c, a, b)
	}
	var z FloatVar
	z.IsAbnormal = pick(x.IsAbnormal, y.IsAbnormal)
	z.Mantissa = pick(x.Mantissa, y.Mantissa)
	z.Exponent = pick(x.Exponent, y.Exponent)
	z.Sign = pick(x.Sign, y.Sign)
	return z
}''')
    t.sub(FLOAT, '''	r := f.Api.Sub(m, f.Api.Mul(n, n))
	// Enforce that `n^2 <= m < (n + 1)^2`.
	f.Gadget.AssertBitLength(r, mantissa_bit_length+1, gadget.Loose)                             // n^2 <= m  =>  m - n^2 >= 0
	f.Gadget.AssertBitLength(f.Api.Sub(f.Api.Add(n, n), r), mantissa_bit_length+1, gadget.Loose) // (n + 1)^2 > m  =>  n^2 + 2n + 1 - m > 0  =>  n^2 + 2n - m >= 0
''', '''	square := f.Api.Mul(n, n)
	r := f.Api.Sub(m, square)
	above := f.Api.Sub(f.Api.Add(square, f.Api.Mul(n, 2)), m)
	f.Gadget.AssertBitLength(above, mantissa_bit_length+1, gadget.Loose)
	f.Gadget.AssertBitLength(r, mantissa_bit_length+1, gadget.Loose)
''')
    t.sub(FLOAT, '''	return f.Neg(f.Floor(f.Neg(x)))
''', '''	minus := f.Neg(x)
	below := f.Floor(minus)
	return f.Neg(below)
''')
    t.sub(FLOAT, '''func (f *Context) IsGt(x, y FloatVar) frontend.Variable {
	return f.less(y, x, 0)
}

func (f *Context) IsGe(x, y FloatVar) frontend.Variable {
	return f.less(y, x, 1)
}''', '''func (f *Context) IsGt(x, y FloatVar) frontend.Variable {
	return f.IsLt(y, x)
}

func (f *Context) IsGe(x, y FloatVar) frontend.Variable {
	return f.IsLe(y, x)
}''')


@entry("float-compare")
def _(t):
    """the comparison with other selections; equality through a loop"""
    t.sub(FLOAT, '''				f.Api.Select(
					f.Gadget.IsEq(x.Mantissa, y.Mantissa),
					allow_eq,
					f.Api.Select(
						x.Sign,
						xm_ge_ym,
						f.Api.Sub(big.NewInt(1), xm_ge_ym),
					),
				),
				f.Api.Select(
					x.Sign,
					xe_ge_ye,
					f.Api.Sub(big.NewInt(1), xe_ge_ye),
				),
''', '''				f.Api.Select(
					f.Gadget.IsEq(y.Mantissa, x.Mantissa),
					allow_eq,
					f.Api.Sub(1, f.Api.Xor(x.Sign, xm_ge_ym)),
				),
				f.Api.Sub(1, f.Api.Xor(xe_ge_ye, y.Sign)),
''')
    t.sub(FLOAT, '''	f.Api.AssertIsEqual(f.Api.Select(
		is_nan,
		0,
		x.Sign,
	), f.Api.Select(
		is_nan,
		0,
		y.Sign,
	))
	f.Api.AssertIsEqual(f.Api.Sub(x.Exponent, y.Exponent), 0)
	f.Api.AssertIsEqual(x.Mantissa, y.Mantissa)
	f.Api.AssertIsEqual(x.IsAbnormal, y.IsAbnormal)
''', '''	number := f.Api.Sub(1, is_nan)
	f.Api.AssertIsEqual(f.Api.Mul(number, f.Api.Sub(x.Sign, y.Sign)), 0)
	for _, p := range [][2]frontend.Variable{
		{x.IsAbnormal, y.IsAbnormal}, {x.Mantissa, y.Mantissa}, {x.Exponent, y.Exponent},
	} {
		f.Api.AssertIsEqual(f.Api.Sub(p[0], p[1]), 0)
	}
''')


@entry("float-integral")
def _(t):
    """the common part of Trunc and Floor as a helper"""
    common = '''	e_ge_0 := f.Gadget.IsPositive(x.Exponent, f.E)
	e := f.Api.Select(
		e_ge_0,
		x.Exponent,
		big.NewInt(-1),
	)
	two_to_e := f.Gadget.QueryPowerOf2(f.Gadget.Max(
		f.Api.Sub(f.M, e),
		big.NewInt(0),
		f.E,
	))
	// Instead of computing `x.Mantissa >> e` directly, we compute `(x.Mantissa << (M + 1)) >> e` first and
	// decompose it later to save constraints.
	m := f.Api.Mul(f.Api.Mul(x.Mantissa, new(big.Int).Lsh(big.NewInt(1), f.M+1)), f.Api.Inverse(two_to_e))
'''
    s = t.get(FLOAT)
    i = s.index("func (f *Context) Trunc")
    j = s.index("func (f *Context) Floor")
    a, b, c = s[:i], s[i:j], s[j:]
    assert common in b and common in c
    b = b.replace(common, "	e_ge_0, _, two_to_e, m := f.scaled(x)\n")
    c = c.replace(common, "	_, e, two_to_e, m := f.scaled(x)\n")
    t.files[FLOAT] = a + b + c
    t.append(FLOAT, '''
// scaled shifts the integral part of the mantissa to the top
func (f *Context) scaled(x FloatVar) (e_ge_0, e, two_to_e, m frontend.Variable) {
''' + common.replace("e_ge_0 :=", "e_ge_0 =").replace("e :=", "e =").replace("two_to_e :=", "two_to_e =").replace("m :=", "m =") + '''	return
}
''')


@entry("gadget")
def _(t):
    """the integer gadget: selections as arithmetic, the limb count by a helper"""
    t.sub(GADGET, '''	abs := f.api.Select(
		is_positive,
		v,
		f.api.Neg(v),
	)
''', '''	abs := f.api.Mul(v, f.api.Sub(f.api.Mul(2, is_positive), 1))
''')
    t.sub(GADGET, '''	return f.api.Select(
		f.IsPositive(f.api.Sub(a, b), diff_length),
		b,
		a,
	)
''', '''	d := f.api.Sub(a, b)
	p := f.IsPositive(d, diff_length)
	return f.api.Sub(a, f.api.Mul(p, d))
''')
    t.sub(GADGET, '''	if f.range_size > 0 {
		num_limbs := (bit_length + f.range_size - 1) / f.range_size
		if num_limbs != 1 {
			f.num_range_decompositions++
		}
		f.num_range_chunks += num_limbs
		if mode == TightForUnknownRange && bit_length%f.range_size != 0 {
			f.num_range_chunks++
		}
	}
''', '''	if f.range_size == 0 {
		return
	}
	full, rest := bit_length/f.range_size, bit_length%f.range_size
	chunks := full
	if rest != 0 {
		chunks++
	}
	if chunks != 1 {
		f.num_range_decompositions += 1
	}
	if rest != 0 && mode == TightForUnknownRange {
		f.num_range_chunks++
	}
	f.num_range_chunks += chunks
''')
    t.sub(GADGET, '''		t.entries[i] = []frontend.Variable{new(big.Int).Add(
			new(big.Int).Lsh(big.NewInt(int64(i)), size),
			new(big.Int).Lsh(big.NewInt(1), i),
		)}
''', '''		entry := new(big.Int).Lsh(big.NewInt(int64(i)), size)
		entry.SetBit(entry, int(i), 1)
		t.entries[i] = []frontend.Variable{entry}
''')


@entry("range")
def _(t):
    """the range check: the last limb by a helper, composition from the top"""
    t.sub(RANGE, '''			var composed frontend.Variable = 0
			for j := range limbs {
				composed = api.Add(composed, api.Mul(limbs[j], coef.Lsh(one, uint(baseLength*j))))
			}
			if c.collected[i].mode == TightForSmallAbs {
				api.AssertIsEqual(api.Mul(c.collected[i].v, scale), composed)
			} else {
				api.AssertIsEqual(c.collected[i].v, composed)
			}
''', '''			composed := limbs[nbLimbs-1]
			for j := nbLimbs - 2; j >= 0; j-- {
				composed = api.Add(api.Mul(composed, coef.Lsh(one, uint(baseLength))), limbs[j])
			}
			api.AssertIsEqual(api.Mul(c.collected[i].v, scale), composed)
''')
    t.sub(RANGE, '''	return (varSize + limbSize - 1) / limbSize
''', '''	n := varSize / limbSize
	if n*limbSize < varSize {
		n++
	}
	return n
''')
    t.sub(RANGE, '''	tmp := new(big.Int).Mul(val, scale)
	for i := 0; i < len(outputs); i++ {
		outputs[i].Mod(tmp, base)
		tmp.Rsh(tmp, uint(limbSize))
	}
''', '''	rest := new(big.Int).Mul(scale, val)
	for i := range outputs {
		rest.DivMod(rest, base, outputs[i])
	}
''')


@entry("hints")
def _(t):
    t.sub(HINT, '''	s := v >> (E + M)
	e := (v >> M) - (s << E)

	outputs[0].SetUint64(s)
''', '''	s := v >> (E + M)
	e := (v >> M) & (1<<E - 1)

	outputs[0].SetUint64(s)
''')
    t.sub(HINT, '''		shift := uint64(0)
		for i := int(mantissa_bit_length - 1); i >= 0; i-- {
			if mantissa.Bit(i) != 0 {
				break
			}
			shift++
		}
		outputs[0].SetUint64(shift)
''', '''		shift := uint64(0)
		if l := uint64(mantissa.BitLen()); l < mantissa_bit_length {
			shift = mantissa_bit_length - l
		}
		outputs[0].SetUint64(shift)
''')
    t.sub(HINT, '''	if mantissa_ge_0 {
		outputs[0].SetUint64(1)
		outputs[1].Set(mantissa)
	} else {
		outputs[0].SetUint64(0)
		outputs[1].Sub(new(big.Int).Set(field), mantissa)
	}
''', '''	outputs[0].SetUint64(0)
	outputs[1].Sub(field, mantissa)
	if mantissa_ge_0 {
		outputs[0].SetUint64(1)
		outputs[1].Set(mantissa)
	}
''')
    t.sub(HINT, '''	outputs[0].Rsh(x, shift)
	if sign == 1 && new(big.Int).Lsh(outputs[0], shift).Cmp(x) != 0 {
		outputs[0].Add(outputs[0], big.NewInt(1))
	}
''', '''	if sign == 1 {
		// round up
		x.Add(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), shift), big.NewInt(1)))
	}
	outputs[0].Rsh(x, shift)
''')
    t.sub(HINT, '''	outputs[0].Lsh(big.NewInt(1), uint(inputs[0].Uint64()))
''', '''	outputs[0].SetBit(new(big.Int), int(inputs[0].Uint64()), 1)
''')
    t.sub(HINT, '''	v := new(big.Int).Div(new(big.Int).Mul(mantissa, new(big.Int).Lsh(big.NewInt(1), shift_max)), two_to_shift)
''', '''	v := mantissa.Lsh(mantissa, shift_max)
	v.Quo(v, two_to_shift)
''')
    t.sub(HINT, '''	outputs[3].And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), r_idx), big.NewInt(1)))
''', '''	outputs[3].Mod(v, new(big.Int).Lsh(big.NewInt(1), r_idx))
''')


@entry("util")
def _(t):
    t.sub(UTIL, '''	shift := uint(0)
	for i := int(M - 1); i >= 0; i-- {
		if mantissa.Bit(i) != 0 {
			break
		}
		shift++
	}
''', '''	shift := uint(M) - uint(mantissa.BitLen())
''')
    t.sub(UTIL, '''	if exponent_is_min {
		exponent = new(big.Int).Sub(exponent, big.NewInt(int64(shift)))
		mantissa = new(big.Int).Lsh(shifted_mantissa, 1)
	} else {
		if exponent_is_max && mantissa_is_not_zero {
			mantissa.SetUint64(0)
		} else {
			mantissa = new(big.Int).Add(mantissa, big.NewInt(1<<M))
		}
	}
''', '''	switch {
	case exponent_is_min:
		exponent.Sub(exponent, big.NewInt(int64(shift)))
		mantissa = shifted_mantissa.Lsh(shifted_mantissa, 1)
	case exponent_is_max && mantissa_is_not_zero:
		mantissa = new(big.Int)
	default:
		mantissa.SetBit(mantissa, int(M), 1)
	}
''')


MATH, L32, L64, PROX = "math/math.go", "loc2index32/loc2index32.go", "loc2index64/loc2index64.go", "proximity/proximity.go"


@entry("math")
def _(t):
    t.sub(MATH, """	for i := len(p) - 1; i >= 0; i-- {
		// Multiply the current result by 'at' (the point of evaluation).
		result = ctx.Mul(result, at)

		result = ctx.Add(result, p[i])
	}
""", """	for n := range p {
		coefficient := p[len(p)-1-n]
		scaled := ctx.Mul(at, result)
		result = ctx.Add(coefficient, scaled)
	}
""", 1)
    t.sub(MATH, """		for j := range parts {
			if j == 0 {
				// For the first part, just multiply and add like normal Horner's method
				parts[j] = ctx.Add(ctx.Mul(parts[j], at), coeff)
			} else {
				parts[j] = ctx.Add(ctx.Mul(parts[j], at), ctx.Mul(parts[j-1], at))
			}
		}
""", """		// For the first part, just multiply and add like normal Horner's method
		parts[0] = ctx.Add(ctx.Mul(parts[0], at), coeff)
		for j := 1; j < k; j++ {
			parts[j] = ctx.Add(ctx.Mul(parts[j], at), ctx.Mul(parts[j-1], at))
		}
""", 1)
    t.sub(MATH, """	// The result of Atan2 depends on the signs of x and y
	atan2S := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Sign, addPi.Sign), result.Sign)
	atan2E := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Exponent, addPi.Exponent), result.Exponent)
	atan2M := f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.Mantissa, addPi.Mantissa), result.Mantissa)

	ret := float.FloatVar{
		Sign:       atan2S,
		Exponent:   atan2E,
		Mantissa:   atan2M,
		IsAbnormal: 0,
	}
""", """	// The result of Atan2 depends on the signs of x and y
	shifted := f.Select(y.Sign, subPi, addPi)
	ret := f.Select(x.Sign, shifted, result)
	ret.IsAbnormal = 0
""", 1)
    t.sub(MATH, """	sub := f.Sub(halfPi, result)

	resultE := f.Api.Select(greaterOne, sub.Exponent, result.Exponent)
	resultM := f.Api.Select(greaterOne, sub.Mantissa, result.Mantissa)
	res := float.FloatVar{
		Sign:       sign,
		Exponent:   resultE,
		Mantissa:   resultM,
		IsAbnormal: 0,
	}
	return res
""", """	return unfold(f, greaterOne, f.Sub(halfPi, result), result, sign)
""", 2)
    t.sub(MATH, """	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
""", """	x = f.Select(greaterOne, reciprocal, x)
""", 2)
    t.sub(MATH, """	for i := 1; i <= 15; i++ {

		if (i % 2) == 0 {
			ret = f.Sub(ret, term)
		} else {
			ret = f.Add(ret, term)
		}
""", """	for n := 2; n < 32; n += 2 {
		i := n / 2
		switch i & 1 {
		case 1:
			ret = f.Add(term, ret)
		default:
			ret = f.Add(ret, f.Neg(term))
		}
""", 2)
    t.files[MATH] = t.get(MATH) + """
// unfold picks the value for large or small arguments and puts the sign back
func unfold(f *float.Context, large any, a, b float.FloatVar, sign any) float.FloatVar {
	return float.FloatVar{
		Sign:       sign,
		Exponent:   f.Api.Select(large, a.Exponent, b.Exponent),
		Mantissa:   f.Api.Select(large, a.Mantissa, b.Mantissa),
		IsAbnormal: 0,
	}
}
"""


@entry("loc")
def _(t):
    for L, k in ((L32, "F32"), (L64, "F64")):
        s = t.get(L)
        a, b = s.index("func scaleR("), s.index("// Calculating r:")
        one = "f.New%sConstant(1.0)" % k
        t.files[L] = s[:a] + """func scaleR(f *float.Context, r float.FloatVar, resolution frontend.Variable) float.FloatVar {
	bits := f.Api.ToBinary(resolution, 4)
	scale := %s
	for i, p := 0, util.Sqrt7_%s; i < len(bits); i++ {
		scale = mulIf(f, bits[i], scale, f.New%sConstant(p))
		p = p * p
	}
	return f.Mul(scale, r)
}

func mulIf(f *float.Context, bit frontend.Variable, a, b float.FloatVar) float.FloatVar {
	t := f.Mul(b, a)
	return float.FloatVar{
		Sign:       0,
		Exponent:   f.Api.Select(bit, t.Exponent, a.Exponent),
		Mantissa:   f.Api.Select(bit, t.Mantissa, a.Mantissa),
		IsAbnormal: 0,
	}
}

""" % (one, k[1:], k) + s[b:]
        s = t.get(L)
        a, b = s.index("		d := f.Sub("), s.index("		check := f.IsGt(sqDist, dist)")
        t.files[L] = s[:a] + """		var squares [3]float.FloatVar
		for j, c := range [3]float.FloatVar{x2, y2, z2} {
			d := f.Sub(c, f.New%sConstant(util.FaceCenterPoint_%s[i+j]))
			squares[j] = f.Mul(d, d)
		}
		dist := f.Add(f.Add(squares[0], squares[1]), squares[2])

""" % (k, k[1:]) + s[b:]
        t.sub(L, "		check := f.IsGt(sqDist, dist)\n", "		check := f.IsLt(dist, sqDist)\n")
        t.rx(L, r"for i := 0; i < 60; i \+= 3 \{\n", "for face := 0; face < 20; face++ {\n		i := 3 * face\n")
        t.sub(L, "		face := i / 3\n", "")
        t.rx(L, r"	sinP := f.Div\(y, z\)\n	cosP := f.Div\(x, z\)\n", "	cosP, sinP := f.Div(x, z), f.Div(y, z)\n")
        t.sub(L, "	sin := f.Sub(f.Mul(sinAz, cosP), f.Mul(cosAz, sinP))\n	cos := f.Add(f.Mul(cosAz, cosP), f.Mul(sinAz, sinP))\n",
              "	cos := f.Add(f.Mul(sinAz, sinP), f.Mul(cosAz, cosP))\n	sin := f.Add(f.Neg(f.Mul(cosAz, sinP)), f.Mul(sinAz, cosP))\n")


@entry("loc-ijk")
def _(t):
    for L, k in ((L32, "F32"), (L64, "F64")):
        s = t.get(L)
        a, b = s.index("	// First get I\n"), s.index("	// Next is J\n")
        t.files[L] = s[:a] + """	// First get I
	up := f.Api.Select(r1CaseA,
		f.Api.Mul(f.Api.Sub(1, r1CaseA1), f.Api.And(iCaseA2First, iCaseA2Second)),
		f.Api.Sub(1, f.Api.Mul(r1CaseB1, f.Api.And(iCaseB1First, iCaseB1Second))))
	iCoord := f.Api.Add(m1int, up)

""" + s[b:]
        t.sub(L, "	m1PlusOne := f.Api.Add(m1int, 1)\n", "")
        s = t.get(L)
        a, b = s.index("	iGreater := f.Gadget"), s.index("	return NormalizeIJK(")
        t.files[L] = s[:a] + """	diff := f.Api.Sub(iCoord, jCoord)
	diffMagnitude, iGreater := f.Gadget.Abs(diff, 32)
	iCoordNegative := f.Api.Select(y.Sign,
		f.Api.Select(xNegative, 1, f.Api.Sub(1, iGreater)), f.Api.Select(xNegative, iGreater, 0))
	iCoord = f.Api.Select(f.Api.IsZero(f.Api.Sub(xNegative, y.Sign)), iCoord, diffMagnitude)

""" + s[b:]
        s = t.get(L)
        a, b = s.index("	iGreaterj := f.Gadget"), s.index("	// if i < 0\n")
        t.files[L] = s[:a] + """	add := func(a, negative, b frontend.Variable) (frontend.Variable, frontend.Variable) {
		greater := f.Gadget.IsPositive(api.Sub(a, b), 32)
		magnitude := api.Select(greater, api.Sub(a, b), api.Sub(b, a))
		return api.Select(negative, magnitude, api.Add(a, b)), api.Select(negative, api.Sub(1, greater), 0)
	}
	jTmp, jTmpNegative := add(iCoord, jCoordNegative, jCoord)
	kTmp, kTmpNegative := add(iCoord, kCoordNegative, kCoord)

""" + s[b:]
        s = t.get(L)
        a, b = s.index("	jGreaterk := f.Gadget"), s.index("	// if j < 0\n")
        t.files[L] = s[:a] + "	kTmp, kTmpNegative = add(jCoord, kCoordNegative, kCoord)\n\n" + s[b:]
        s = t.get(L)
        a, b = s.index("	iGreaterj = f.Gadget"), s.index("	i := api.Sub(iCoord, min)\n")
        t.files[L] = s[:a] + "	min := f.Gadget.Min(f.Gadget.Min(iCoord, jCoord, 32), kCoord, 32)\n\n" + s[b:]


@entry("proximity")
def _(t):
    t.sub(PROX, """	dLat := degreesToRadians(lat2 - lat1)
	dLon := degreesToRadians(lon2 - lon1)
	a := math.Pow(math.Sin(dLat/2), 2) + math.Cos(degreesToRadians(lat1))*math.Cos(degreesToRadians(lat2))*math.Pow(math.Sin(dLon/2), 2)
""", """	a := math.Cos(degreesToRadians(lat2)) * math.Cos(degreesToRadians(lat1)) * hav(lon1, lon2)
	a = hav(lat1, lat2) + a
""", 1)
    t.sub(PROX, "// degreesToRadians converts", """// hav is the haversine of the difference of two angles
func hav(a, b float64) float64 {
	s := math.Sin(degreesToRadians(b-a) / 2)
	return s * s
}

// degreesToRadians converts""", 1)
    t.sub(PROX, """		var lat, lon string
		if useFloat32 {
			lat = floatToHex(float64(float32(cell.CenterLat)))
			lon = floatToHex(float64(float32(cell.CenterLon)))
		} else {
			lat = floatToHex(cell.CenterLat)
			lon = floatToHex(cell.CenterLon)
		}

		// Example: Write latitude and longitude as hex strings.
		_, err := file.WriteString(fmt.Sprintf("%s %s\\n", lat, lon))
		if err != nil {
			return err
		}
""", """		lat, lon := cell.CenterLat, cell.CenterLon
		if useFloat32 {
			lat, lon = float64(float32(lat)), float64(float32(lon))
		}
		if _, err := fmt.Fprintf(file, "%s %s\\n", floatToHex(lat), floatToHex(lon)); err != nil {
			return err
		}
""", 1)
    t.sub(PROX, """	lat, err := strconv.ParseFloat(parts[0], 64)
	if err != nil {
		return 0, 0, err
	}

	lng, err := strconv.ParseFloat(parts[1], 64)
	if err != nil {
		return 0, 0, err
	}

	return lat, lng, nil
""", """	var values [2]float64
	for i := range values {
		if values[i], err = strconv.ParseFloat(parts[i], 64); err != nil {
			return 0, 0, err
		}
	}

	return values[0], values[1], nil
""", 1)
    t.sub(PROX, """	return extractInt(matches[1]), extractInt(matches[2]), extractInt(matches[3]), nil
""", """	var ijk [3]int
	for n, text := range matches[1:4] {
		ijk[n] = extractInt(text)
	}
	return ijk[0], ijk[1], ijk[2], nil
""", 1)
    t.sub(PROX, """		if len(match) < 3 {
			continue
		}

		lat, err := strconv.ParseFloat(match[1], 64)
		if err != nil {
			return nil, err
		}

		lng, err := strconv.ParseFloat(match[2], 64)
		if err != nil {
			return nil, err
		}

		boundary = append(boundary, [2]float64{lat, lng})
""", """		vertex, err := parseVertex(match)
		if err != nil {
			return nil, err
		}
		boundary = append(boundary, vertex)
""", 1)
    t.sub(PROX, "func cellToBoundary(", """func parseVertex(match []string) (vertex [2]float64, err error) {
	if vertex[0], err = strconv.ParseFloat(match[1], 64); err != nil {
		return
	}
	vertex[1], err = strconv.ParseFloat(match[2], 64)
	return
}

func cellToBoundary(""", 1)


if __name__ == "__main__":
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    for n, f in R.items():
        if sys.argv[2:] and n not in sys.argv[2:]:
            continue
        t = Tree()
        f(t)
        open(os.path.join(out, n + ".diff"), "w").write(t.patch())
        print(n)
