// Package ops runs one operation of the real library on any frontend.API.
package ops

import (
	"fmt"
	"math"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/gadget"
)

// Spec names an operation and its parameters.
type Spec struct {
	Op    string  `json:"op"`
	E     uint    `json:"e"`
	M     uint    `json:"m"`
	Base  int     `json:"base"` // requested range table width, 0 = automatic
	Args  []int64 `json:"args,omitempty"`
	Curve string  `json:"curve,omitempty"`
	SCS   bool    `json:"scs,omitempty"`
	// Pin fixes an operand of a binary operation: "x" or "y" to the constant PinBits,
	// "same" makes the second operand the very variables of the first.
	Pin     string `json:"pin,omitempty"`
	PinBits uint64 `json:"pinbits,omitempty"`
	// Pre names an operation done before, in the same context, on operands of its own
	// (the last 8 inputs).
	Pre string `json:"pre,omitempty"`
}

// NumInputs gives the number of field inputs of an operation.
func NumInputs(s Spec) int {
	if s.Pre != "" {
		s.Pre = ""
		return NumInputs(s) + 8
	}
	if s.Pin != "" {
		s.Pin = ""
		return NumInputs(s) - 4
	}
	if k, ok := funcInputs(s); ok {
		n := 0
		for _, c := range k {
			if c == 'f' {
				n += 4
			} else {
				n++
			}
		}
		return n
	}
	switch s.Op {
	case "newfloat", "const", "toint2":
		return 1
	case "add", "sub", "mul", "div", "lt", "le", "gt", "ge", "asserteq", "ulp1", "ulpx":
		return 8
	case "sqrt", "trunc", "floor", "ceil", "toint", "fabs", "fneg":
		return 4
	case "fselect":
		return 9
	case "gabs", "gpos", "pow2", "rc":
		return 1
	case "gmax", "gmin", "geq":
		return 2
	case "rcmulti", "rctwo":
		return len(s.Args) / 2
	case "gmulti":
		n := 0
		for i := 0; i+2 < len(s.Args); i += 3 {
			n += multiInputs(s.Args[i], s.Args[i+2])
		}
		return n
	case "empty", "rcdup":
		return 1
	case "mixed":
		return 8
	}
	return -1
}

// Counters carries the cost counters an operation reports.
type Counters struct {
	Entries, Queries, Finalize uint
}

func fv(in []frontend.Variable) float.FloatVar {
	return float.FloatVar{Sign: in[0], Exponent: in[1], Mantissa: in[2], IsAbnormal: in[3]}
}
func out(v float.FloatVar) []frontend.Variable {
	return []frontend.Variable{v.Sign, v.Exponent, v.Mantissa, v.IsAbnormal}
}

// Run executes the operation and returns its outputs.
func Run(api frontend.API, s Spec, in []frontend.Variable, cnt *Counters) []frontend.Variable {
	if _, ok := funcInputs(s); ok {
		return runFunc(api, s, in)
	}
	mark := func(v frontend.Variable) { api.Compiler().MarkBoolean(v) }
	switch s.Op {
	case "gabs", "gpos", "gmax", "gmin", "geq", "rc", "pow2", "rcmulti", "rctwo", "rcdup", "empty", "mixed", "gmulti":
		return runGadget(api, s, in, cnt)
	}
	f := float.NewContext(api, uint(s.Base), s.E, s.M)
	defer func() {
		if cnt != nil {
			cnt.Entries, cnt.Queries, cnt.Finalize = f.Gadget.LookupEntryConstraints(), f.Gadget.LookupQueryConstraints(), f.Gadget.LookupFinalizeConstraints()
		}
	}()
	if s.Pre != "" {
		k := len(in) - 8
		apply(&f, api, Spec{Op: s.Pre, E: s.E, M: s.M}, in[k:], mark)
		in = in[:k]
	}
	return apply(&f, api, s, in, mark)
}

func apply(f *float.Context, api frontend.API, s Spec, in []frontend.Variable, mark func(frontend.Variable)) []frontend.Variable {
	var x, y float.FloatVar
	n := len(in)
	off := 0
	if s.Op == "fselect" {
		mark(in[0])
		off = 1
	}
	if n >= off+4 {
		mark(in[off])
		mark(in[off+3])
		x = fv(in[off:])
	}
	if n >= off+8 {
		mark(in[off+4])
		mark(in[off+7])
		y = fv(in[off+4:])
	}
	switch s.Pin {
	case "same":
		y = x
	case "y":
		y = f.NewConstant(s.PinBits)
	case "x":
		x, y = f.NewConstant(s.PinBits), x
	}
	switch s.Op {
	case "newfloat":
		return out(f.NewFloat(in[0]))
	case "add":
		return out(f.Add(x, y))
	case "sub":
		return out(f.Sub(x, y))
	case "mul":
		return out(f.Mul(x, y))
	case "div":
		return out(f.Div(x, y))
	case "sqrt":
		return out(f.Sqrt(x))
	case "lt":
		return []frontend.Variable{f.IsLt(x, y)}
	case "le":
		return []frontend.Variable{f.IsLe(x, y)}
	case "gt":
		return []frontend.Variable{f.IsGt(x, y)}
	case "ge":
		return []frontend.Variable{f.IsGe(x, y)}
	case "trunc":
		return out(f.Trunc(x))
	case "floor":
		return out(f.Floor(x))
	case "ceil":
		return out(f.Ceil(x))
	case "toint":
		return []frontend.Variable{f.ToInt(x)}
	case "fabs":
		return out(f.Abs(x))
	case "fneg":
		return out(f.Neg(x))
	case "fselect":
		return out(f.Select(in[0], x, y))
	case "asserteq":
		f.AssertIsEqual(x, y)
		return nil
	case "ulp1":
		f.AssertIsEqualOrULP(x, y)
		return nil
	case "ulpx":
		// Args[0]: bit pattern of the tolerance
		if s.E == 8 {
			f.AssertIsEqualOrCustomULP32(x, y, math.Float32frombits(uint32(s.Args[0])))
		} else {
			f.AssertIsEqualOrCustomULP64(x, y, math.Float64frombits(uint64(s.Args[0])))
		}
		return nil
	}
	panic(fmt.Sprintf("unknown op %s", s.Op))
}

// MultiConst is the constant operand used by gmulti.
const MultiConst = 5

// multiInputs: operands taken by one step (opcode, mode) of gmulti. Opcodes: 0 Abs, 1 IsPositive, 2 Max,
// 3 Min, 4 IsEq, 5 QueryPowerOf2, 6 AssertBitLength. Modes: 0 variables, 1 first operand constant,
// 2 second operand constant, 3 the same variable twice.
func multiInputs(op, mode int64) int {
	n := 1
	if op >= 2 && op <= 4 {
		n = 2
	}
	if mode != 0 {
		n--
		if mode == 3 {
			n = 1
		}
	}
	return n
}

func runGadget(api frontend.API, s Spec, in []frontend.Variable, cnt *Counters) []frontend.Variable {
	// Args[0]: declared length (or bits); Args[1]: mode
	g := gadget.New(api, uint(s.Base), s.M+s.E+1)
	defer func() {
		if cnt != nil {
			cnt.Entries, cnt.Queries, cnt.Finalize = g.LookupEntryConstraints(), g.LookupQueryConstraints(), g.LookupFinalizeConstraints()
		}
	}()
	switch s.Op {
	case "gabs":
		a, p := g.Abs(in[0], uint(s.Args[0]))
		return []frontend.Variable{a, p}
	case "gpos":
		return []frontend.Variable{g.IsPositive(in[0], uint(s.Args[0]))}
	case "gmax":
		return []frontend.Variable{g.Max(in[0], in[1], uint(s.Args[0]))}
	case "gmin":
		return []frontend.Variable{g.Min(in[0], in[1], uint(s.Args[0]))}
	case "geq":
		return []frontend.Variable{g.IsEq(in[0], in[1])}
	case "rc":
		g.AssertBitLength(in[0], uint(s.Args[0]), gadget.Mode(s.Args[1]))
		return nil
	case "rcmulti":
		for i := range in {
			g.AssertBitLength(in[i], uint(s.Args[2*i]), gadget.Mode(s.Args[2*i+1]))
		}
		return nil
	case "rctwo":
		// two gadgets in one circuit
		h := gadget.New(api, uint(s.Base), 24)
		for i := range in {
			k := g
			if i%2 == 1 {
				k = h
			}
			k.AssertBitLength(in[i], uint(s.Args[2*i]), gadget.Mode(s.Args[2*i+1]))
		}
		return nil
	case "rcdup":
		// the same variable checked under several lengths
		for i := 0; 2*i < len(s.Args); i++ {
			g.AssertBitLength(in[0], uint(s.Args[2*i]), gadget.Mode(s.Args[2*i+1]))
		}
		return nil
	case "pow2":
		return []frontend.Variable{g.QueryPowerOf2(in[0])}
	case "gmulti":
		// a sequence of gadget calls in one circuit
		var o []frontend.Variable
		for i := 0; i+2 < len(s.Args); i += 3 {
			op, n, mode := s.Args[i], uint(s.Args[i+1]), s.Args[i+2]
			k := multiInputs(op, mode)
			var a, b frontend.Variable
			switch mode {
			case 0:
				a = in[0]
				if k == 2 {
					b = in[1]
				}
			case 1:
				a = MultiConst
				if k == 1 {
					b = in[0]
				}
			case 2:
				a, b = in[0], MultiConst
			case 3:
				a, b = in[0], in[0]
			}
			in = in[k:]
			switch op {
			case 0:
				x, p := g.Abs(a, n)
				o = append(o, x, p)
			case 1:
				o = append(o, g.IsPositive(a, n))
			case 2:
				o = append(o, g.Max(a, b, n))
			case 3:
				o = append(o, g.Min(a, b, n))
			case 4:
				o = append(o, g.IsEq(a, b))
			case 5:
				o = append(o, g.QueryPowerOf2(a))
			case 6:
				g.AssertBitLength(a, n, gadget.TightForUnknownRange)
			}
		}
		return o
	case "empty":
		api.AssertIsEqual(api.Mul(in[0], in[0]), api.Mul(in[0], in[0]))
		return nil
	case "mixed":
		var o []frontend.Variable
		for i := 0; i < 2; i++ {
			o = append(o, g.QueryPowerOf2(in[i]))
		}
		for i := 2; i < 8; i++ {
			g.AssertBitLength(in[i], uint(s.Args[2*(i-2)]), gadget.Mode(s.Args[2*(i-2)+1]))
		}
		return o
	}
	panic(fmt.Sprintf("unknown op %s", s.Op))
}

// Big parses decimal numbers.
func Big(ss []string) []*big.Int {
	var r []*big.Int
	for _, s := range ss {
		b, ok := new(big.Int).SetString(s, 10)
		if !ok {
			panic("bad number " + s)
		}
		r = append(r, b)
	}
	return r
}
