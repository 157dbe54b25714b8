package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"strings"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	fcs "github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/consensys/gnark/logger"
	"github.com/rs/zerolog"

	"verif/ops"
)

func init() { logger.Set(zerolog.Nop()); solver.RegisterHint(forcedHint) }

// opCircuit is the operation as a real gnark circuit: inputs are secret, outputs public.
type opCircuit struct {
	In     []frontend.Variable
	Out    []frontend.Variable `gnark:",public"`
	Pub    frontend.Variable   `gnark:",public"`
	spec   ops.Spec
	forced map[int][]*big.Int
}

func (c *opCircuit) Define(api frontend.API) error {
	a := api
	if c.forced != nil {
		st := &state{forced: c.forced}
		a = &wrapAPI{API: api, st: st}
	}
	outs := ops.Run(a, c.spec, c.In, nil)
	for i := range outs {
		api.AssertIsEqual(outs[i], c.Out[i])
	}
	api.AssertIsEqual(c.Pub, 1)
	return nil
}

type state struct {
	forced map[int][]*big.Int
	n      int
}

// wrapAPI replaces the hint values of selected calls by the ones of a solver model:
// it plays the malicious prover in the real constraint system.
type wrapAPI struct {
	frontend.API
	st *state
}
type wrapCompiler struct {
	frontend.Compiler
	w *wrapAPI
}

func (w *wrapAPI) Compiler() frontend.Compiler { return &wrapCompiler{w.API.Compiler(), w} }
func (w *wrapAPI) FrontendType() frontendtype.Type {
	return w.API.(frontendtype.FrontendTyper).FrontendType()
}

type kvs interface {
	SetKeyValue(k, v any)
	GetKeyValue(k any) any
}

func (w *wrapAPI) SetKeyValue(k, v any)  { w.API.(kvs).SetKeyValue(k, v) }
func (w *wrapAPI) GetKeyValue(k any) any { return w.API.(kvs).GetKeyValue(k) }
func (w *wrapAPI) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	return w.API.Compiler().(frontend.Committer).Commit(v...)
}
func (w *wrapCompiler) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	return w.w.Commit(v...)
}
func (w *wrapCompiler) FrontendType() frontendtype.Type { return w.w.FrontendType() }
func (w *wrapCompiler) SetKeyValue(k, v any)            { w.w.SetKeyValue(k, v) }
func (w *wrapCompiler) GetKeyValue(k any) any           { return w.w.GetKeyValue(k) }
func (w *wrapCompiler) Defer(cb func(frontend.API) error) {
	w.Compiler.Defer(func(api frontend.API) error { return cb(&wrapAPI{API: api, st: w.w.st}) })
}
func (w *wrapCompiler) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	return w.w.NewHint(f, n, in...)
}
func (w *wrapAPI) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	name := solver.GetHintName(f)
	if strings.Contains(name, "tumberger") && !strings.Contains(name, "logderivarg") {
		i := w.st.n
		w.st.n++
		if v, ok := w.st.forced[i]; ok {
			args := make([]frontend.Variable, len(v))
			for j := range v {
				args[j] = v[j]
			}
			return w.API.Compiler().NewHint(forcedHint, n, args...)
		}
	}
	return w.API.Compiler().NewHint(f, n, in...)
}

func forcedHint(_ *big.Int, in, out []*big.Int) error {
	for i := range out {
		out[i].Set(in[i])
	}
	return nil
}

func commitHint(mod *big.Int, in []*big.Int, out []*big.Int) error {
	h := sha256.New()
	for _, i := range in {
		h.Write(i.Bytes())
		h.Write([]byte{0})
	}
	out[0].SetBytes(h.Sum([]byte("verif")))
	out[0].Mod(out[0], mod)
	return nil
}

type realSys struct {
	spec      ops.Spec
	nIn, nOut int
	r1, sc    constraint.ConstraintSystem
	e1, e2    error
}

func compileReal(s ops.Spec, nOut int, forced map[int][]*big.Int) (sys *realSys, err error) {
	sys = &realSys{spec: s, nIn: ops.NumInputs(s), nOut: nOut}
	mk := func() frontend.Circuit {
		return &opCircuit{In: make([]frontend.Variable, sys.nIn), Out: make([]frontend.Variable, nOut), spec: s, forced: forced}
	}
	sys.r1, sys.e1 = frontend.Compile(field(s), r1cs.NewBuilder, mk(), frontend.IgnoreUnconstrainedInputs())
	sys.sc, sys.e2 = frontend.Compile(field(s), scs.NewBuilder, mk(), frontend.IgnoreUnconstrainedInputs())
	return sys, nil
}

func (sys *realSys) solve(in, out []*big.Int) (string, string) {
	as := &opCircuit{In: make([]frontend.Variable, sys.nIn), Out: make([]frontend.Variable, sys.nOut), Pub: 1}
	for i := range in {
		as.In[i] = in[i]
	}
	for i := range out {
		as.Out[i] = out[i]
	}
	do := func(cs constraint.ConstraintSystem, cerr error) (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = fmt.Sprint("panic: ", e)
			}
		}()
		if cerr != nil {
			return "compile: " + cerr.Error()
		}
		w, err := frontend.NewWitness(as, field(sys.spec))
		if err != nil {
			return "witness: " + err.Error()
		}
		_, err = cs.Solve(w, solver.OverrideHint(solver.GetHintID(fcs.Bsb22CommitmentComputePlaceholder), commitHint), solver.WithNbTasks(1))
		if err != nil {
			return err.Error()
		}
		return "ok"
	}
	return do(sys.r1, sys.e1), do(sys.sc, sys.e2)
}

func solveReal(s ops.Spec, in, out []*big.Int, forced map[int][]*big.Int) (string, string) {
	if forced == nil {
		forced = map[int][]*big.Int{}
	}
	sys, err := compileReal(s, len(out), forced)
	if err != nil {
		return err.Error(), err.Error()
	}
	return sys.solve(in, out)
}
