package ops

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	zkmath "github.com/tumberger/zk-Location/math"
)

// Loc is filled in by loc.go when the unexported functions of the location packages are reachable.
var Loc = map[string]func(f *float.Context, in []frontend.Variable) []frontend.Variable{}

// funcInputs: inputs of the composed functions as a string of kinds, f: float (4 inputs), b: bit, v: field element
func funcInputs(s Spec) (string, bool) {
	switch s.Op {
	case "m_atan", "m_sin":
		return "f", true
	case "m_atan2":
		return "ff", true
	case "m_poly":
		r := "f"
		for i := int64(0); i < s.Args[1]; i++ {
			r += "f"
		}
		return r, true
	case "l_scale", "l_r":
		return "fv", true
	case "l_face":
		return "fff", true
	case "l_hex2d":
		return "fffffffffffffv", true
	case "l_ijk":
		return "ff", true
	case "l_norm":
		return "bvbvbv", true
	}
	return "", false
}

func runFunc(api frontend.API, s Spec, in []frontend.Variable) []frontend.Variable {
	f := float.NewContext(api, uint(s.Base), s.E, s.M)
	kinds, _ := funcInputs(s)
	var fs []float.FloatVar
	o := 0
	for _, k := range kinds {
		switch k {
		case 'f':
			api.Compiler().MarkBoolean(in[o])
			api.Compiler().MarkBoolean(in[o+3])
			fs = append(fs, fv(in[o:]))
			o += 4
		case 'b':
			api.Compiler().MarkBoolean(in[o])
			o++
		default:
			o++
		}
	}
	is32 := s.E == 8
	switch s.Op {
	case "m_atan":
		if is32 {
			return out(zkmath.AtanRemez32(&f, fs[0]))
		}
		return out(zkmath.AtanRemez64(&f, fs[0]))
	case "m_sin":
		if is32 {
			return out(zkmath.SinTaylor32(&f, fs[0]))
		}
		return out(zkmath.SinTaylor64(&f, fs[0]))
	case "m_atan2":
		return out(zkmath.Atan2(&f, fs[0], fs[1]))
	case "m_poly":
		p := zkmath.Polynomial(fs[1:])
		if s.Args[0] == 0 {
			return out(p.Eval(&f, fs[0]))
		}
		return out(p.EvalK(&f, fs[0], int(s.Args[0])))
	}
	name := s.Op + "64"
	if is32 {
		name = s.Op + "32"
	}
	g, ok := Loc[name]
	if !ok {
		panic(fmt.Sprintf("operation %s is not available", name))
	}
	return g(&f, in)
}
