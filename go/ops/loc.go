//go:build loc

package ops

import (
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	l32 "github.com/tumberger/zk-Location/loc2index32"
	l64 "github.com/tumberger/zk-Location/loc2index64"
)

func flat(vs ...float.FloatVar) (r []frontend.Variable) {
	for _, v := range vs {
		r = append(r, out(v)...)
	}
	return
}

func at(in []frontend.Variable, i int) float.FloatVar { return fv(in[4*i:]) }

func init() {
	type V = []frontend.Variable
	type C = *float.Context
	Loc["l_scale32"] = func(f C, in V) V { return out(l32.VerifScaleR(f, fv(in), in[4])) }
	Loc["l_scale64"] = func(f C, in V) V { return out(l64.VerifScaleR(f, fv(in), in[4])) }
	Loc["l_r32"] = func(f C, in V) V { return out(l32.VerifCalculateR(f, fv(in), in[4])) }
	Loc["l_r64"] = func(f C, in V) V { return out(l64.VerifCalculateR(f, fv(in), in[4])) }
	Loc["l_face32"] = func(f C, in V) V {
		r := l32.VerifClosestFace(f, at(in, 0), at(in, 1), at(in, 2), at(in, 0))
		return flat(r[:]...)
	}
	Loc["l_face64"] = func(f C, in V) V {
		r := l64.VerifClosestFace(f, at(in, 0), at(in, 1), at(in, 2), at(in, 0))
		return flat(r[:]...)
	}
	Loc["l_hex2d32"] = func(f C, in V) V {
		r := l32.VerifHex2d(f, at(in, 0), at(in, 1), at(in, 2), at(in, 3), at(in, 4), at(in, 5), at(in, 6), at(in, 7), at(in, 8), at(in, 9), at(in, 10), at(in, 11), at(in, 12), in[52])
		return flat(r[:]...)
	}
	Loc["l_hex2d64"] = func(f C, in V) V {
		r := l64.VerifHex2d(f, at(in, 0), at(in, 1), at(in, 2), at(in, 3), at(in, 4), at(in, 5), at(in, 6), at(in, 7), at(in, 8), at(in, 9), at(in, 10), at(in, 11), at(in, 12), in[52])
		return flat(r[:]...)
	}
	Loc["l_ijk32"] = func(f C, in V) V { r := l32.VerifIJK(f, at(in, 0), at(in, 1)); return r[:] }
	Loc["l_ijk64"] = func(f C, in V) V { r := l64.VerifIJK(f, at(in, 0), at(in, 1)); return r[:] }
	Loc["l_norm32"] = func(f C, in V) V { r := l32.NormalizeIJK(f, in[0], in[1], in[2], in[3], in[4], in[5]); return r[:] }
	Loc["l_norm64"] = func(f C, in V) V { r := l64.NormalizeIJK(f, in[0], in[1], in[2], in[3], in[4], in[5]); return r[:] }
}
