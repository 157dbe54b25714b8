package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	"github.com/tumberger/zk-Location/util"

	"verif/ops"
)

// utilJob calls the real conversion and parsing functions.
func utilJob(j Job, res *Result) {
	in := ops.Big(j.Inputs)
	put := func(vs ...*big.Int) {
		for _, v := range vs {
			res.Outs = append(res.Outs, v.String())
		}
	}
	fv := func(v float.FloatVar) {
		for _, x := range []frontend.Variable{v.Sign, v.Exponent, v.Mantissa, v.IsAbnormal} {
			switch y := x.(type) {
			case *big.Int:
				put(y)
			case big.Int:
				put(&y)
			default:
				res.Outs = append(res.Outs, fmt.Sprint(y))
			}
		}
	}
	ctx := float.Context{E: j.Spec.E, M: j.Spec.M}
	if ctx.E > 0 {
		ctx.E_MAX = new(big.Int).Lsh(big.NewInt(1), ctx.E-1)
		ctx.E_NORMAL_MIN = new(big.Int).Sub(big.NewInt(2), ctx.E_MAX)
		ctx.E_MIN = new(big.Int).Sub(ctx.E_NORMAL_MIN, big.NewInt(int64(ctx.M+1)))
	}
	u := func(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
	str := ""
	if j.Text != "" {
		b, err := hex.DecodeString(j.Text)
		if err != nil {
			res.Err = err.Error()
			return
		}
		str = string(b)
	}
	switch j.Name {
	case "ComponentsOf":
		put(util.ComponentsOf(in[0].Uint64(), uint64(j.Spec.E), uint64(j.Spec.M))...)
	case "ValueOf":
		put(u(util.ValueOf(in, uint64(j.Spec.E), uint64(j.Spec.M))))
	case "F32ToComponents":
		put(util.F32ToComponents(math.Float32frombits(uint32(in[0].Uint64())))...)
	case "F64ToComponents":
		put(util.F64ToComponents(math.Float64frombits(in[0].Uint64()))...)
	case "ComponentsToF32":
		put(u(uint64(math.Float32bits(util.ComponentsToF32(in)))))
	case "ComponentsToF64":
		put(u(math.Float64bits(util.ComponentsToF64(in))))
	case "Context.NewConstant":
		fv(ctx.NewConstant(in[0].Uint64()))
	case "Context.NewF32Constant":
		fv(ctx.NewF32Constant(math.Float32frombits(uint32(in[0].Uint64()))))
	case "Context.NewF64Constant":
		fv(ctx.NewF64Constant(math.Float64frombits(in[0].Uint64())))
	case "HexToFloat":
		v, err := util.HexToFloat(str)
		if err != nil {
			res.Outs = []string{"error"}
			return
		}
		put(u(math.Float64bits(v)))
	case "HexToFloat32":
		v, err := util.HexToFloat32(str)
		if err != nil {
			res.Outs = []string{"error"}
			return
		}
		put(u(uint64(math.Float32bits(v))))
	case "StrToIntSlice":
		for _, x := range util.StrToIntSlice(str, in[0].Sign() != 0) {
			res.Outs = append(res.Outs, fmt.Sprint(x))
		}
	case "math":
		// Go's own functions on float64, by bit pattern: a table for the encoder
		for _, x := range in {
			f := math.Float64frombits(x.Uint64())
			var r float64
			switch j.Text2 {
			case "Sin":
				r = math.Sin(f)
			case "Cos":
				r = math.Cos(f)
			case "Tan":
				r = math.Tan(f)
			case "Sqrt":
				r = math.Sqrt(f)
			case "Atan":
				r = math.Atan(f)
			case "Log2":
				r = math.Log2(f)
			case "Pow2":
				r = math.Pow(2, f)
			default:
				res.Err = "no such function"
				return
			}
			put(u(math.Float64bits(r)))
		}
	default:
		res.Err = "no such function"
	}
}
