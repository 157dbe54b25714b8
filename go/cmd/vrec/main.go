// vrec: records operations of the library symbolically, and replays solver models in
// the real gnark constraint systems.  Reads a JSON job list on stdin, writes JSON lines.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"

	"verif/ops"
	"verif/rec"
)

type Job struct {
	Kind   string              `json:"kind"` // record, replay, validate
	Spec   ops.Spec            `json:"spec"`
	Inputs []string            `json:"inputs,omitempty"`
	Many   [][]string          `json:"many,omitempty"`
	Hints  map[string][]string `json:"hints,omitempty"` // call index -> forced outputs
	// Adversary: every hint value is chosen (forced), decompositions included
	Adversary bool `json:"adversary,omitempty"`
	// Name, NOut: a registered hint function to call on Inputs; Name also selects a Go function for the kinds "util" and "math"
	Name string `json:"name,omitempty"`
	NOut int    `json:"nout,omitempty"`
	// Text: a string argument in hex; Text2: an option
	Text  string `json:"text,omitempty"`
	Text2 string `json:"text2,omitempty"`
}

type Result struct {
	Graph    *rec.Graph    `json:"graph,omitempty"`
	Counters *ops.Counters `json:"counters,omitempty"`
	Outs     []string      `json:"outs,omitempty"`
	Bad      []string      `json:"bad,omitempty"`
	R1CS     string        `json:"r1cs,omitempty"` // "ok" or the error
	SCS      string        `json:"scs,omitempty"`
	Err      string        `json:"err,omitempty"`
	Mismatch []string      `json:"mismatch,omitempty"`
	N        int           `json:"n,omitempty"`
	Computed []Computed    `json:"computed,omitempty"`
}

// Computed is the outcome of one evaluation.
type Computed struct {
	Outs []string `json:"outs,omitempty"`
	Bad  []string `json:"bad,omitempty"`
}

func field(s ops.Spec) *big.Int {
	switch s.Curve {
	case "bls12-381":
		return ecc.BLS12_381.ScalarField()
	case "bls12-377":
		return ecc.BLS12_377.ScalarField()
	}
	return ecc.BN254.ScalarField()
}

func record(s ops.Spec) (r *rec.Rec, outs []frontend.Variable, cnt ops.Counters, pan string) {
	r = rec.New(field(s))
	if s.SCS {
		r.FT = frontendtype.SCS
	}
	n := ops.NumInputs(s)
	in := make([]frontend.Variable, n)
	for i := range in {
		in[i] = r.Input(fmt.Sprintf("in%d", i))
	}
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	outs = ops.Run(r, s, in, &cnt)
	if err := r.RunDeferred(); err != nil {
		pan = "deferred: " + err.Error()
	}
	return
}

func numOuts(s ops.Spec) int {
	switch s.Op {
	case "lt", "le", "gt", "ge", "toint", "gpos", "gmax", "gmin", "geq", "pow2":
		return 1
	case "gabs", "mixed":
		return 2
	case "gmulti":
		n := 0
		for i := 0; i+2 < len(s.Args); i += 3 {
			switch s.Args[i] {
			case 0:
				n += 2
			case 6:
			default:
				n++
			}
		}
		return n
	case "asserteq", "ulp1", "ulpx", "rc", "rcmulti", "rctwo", "rcdup", "empty":
		return 0
	}
	return 4
}

func run(j Job) (res Result) {
	defer func() {
		if e := recover(); e != nil {
			res.Err = fmt.Sprint("panic: ", e)
		}
	}()
	switch j.Kind {
	case "record":
		r, outs, cnt, pan := record(j.Spec)
		res.Graph = r.Graph(outs)
		res.Graph.Panic = pan
		res.Graph.Base = j.Spec.Base
		res.Counters = &cnt
	case "replay":
		r, outs, _, pan := record(j.Spec)
		if pan != "" {
			res.Err = "record: " + pan
			return
		}
		r.Graph(outs)
		forced := map[int][]*big.Int{}
		for k, v := range j.Hints {
			var i int
			fmt.Sscan(k, &i)
			forced[i] = ops.Big(v)
		}
		in := ops.Big(j.Inputs)
		vals, bad, err := r.Eval(in, forced, j.Adversary)
		res.Bad = bad
		if err != nil {
			res.Err = err.Error()
			return
		}
		var ov []*big.Int
		for _, o := range outs {
			v := r.Val(o, vals)
			ov = append(ov, v)
			res.Outs = append(res.Outs, v.String())
		}
		// the real builders only see the library's own hint calls
		real, n := map[int][]*big.Int{}, 0
		for i, h := range r.HintCalls() {
			if strings.Contains(h.Name, "tumberger") {
				if v, ok := forced[i]; ok {
					real[n] = v
				} else if j.Adversary {
					for _, o := range h.Outs {
						real[n] = append(real[n], vals[o])
					}
				}
				n++
			}
		}
		res.R1CS, res.SCS = solveReal(j.Spec, in, ov, real)
	case "flip":
		// a prover that turns the sign of one absolute value
		r, outs, _, pan := record(j.Spec)
		if pan != "" {
			res.Err = "record: " + pan
			return
		}
		r.Graph(outs)
		in := ops.Big(j.Inputs)
		vals, bad, err := r.Eval(in, nil, false)
		if err != nil || len(bad) > 0 {
			res.Err = "the honest prover fails"
			return
		}
		val := func(v []*big.Int) (o []*big.Int) {
			for _, x := range outs {
				o = append(o, r.Val(x, v))
			}
			return
		}
		honest := fmt.Sprint(val(vals))
		for i, h := range r.HintCalls() {
			if !strings.HasSuffix(h.Name, "hint.AbsHint") {
				continue
			}
			f := []*big.Int{new(big.Int).Sub(big.NewInt(1), vals[h.Outs[0]]), new(big.Int).Neg(vals[h.Outs[1]])}
			f[1].Mod(f[1], field(j.Spec))
			forced := map[int][]*big.Int{i: f}
			v, bad, err := r.Eval(in, forced, false)
			if err != nil || len(bad) > 0 {
				continue
			}
			ov := val(v)
			if fmt.Sprint(ov) == honest {
				continue
			}
			real, n := map[int][]*big.Int{}, 0
			for k, g := range r.HintCalls() {
				if strings.Contains(g.Name, "tumberger") {
					if k == i {
						real[n] = f
					}
					n++
				}
			}
			res.R1CS, res.SCS = solveReal(j.Spec, in, ov, real)
			for _, o := range ov {
				res.Outs = append(res.Outs, o.String())
			}
			return
		}
	case "validate":
		r, outs, _, pan := record(j.Spec)
		if pan != "" {
			res.Err = "record: " + pan
			return
		}
		r.Graph(outs)
		sys, err := compileReal(j.Spec, len(outs), nil)
		if err != nil {
			res.Err = "compile: " + err.Error()
			return
		}
		for _, m := range j.Many {
			in := ops.Big(m)
			vals, bad, err := r.Eval(in, nil, false)
			if err != nil {
				bad = append(bad, err.Error())
			}
			var ov []*big.Int
			for _, o := range outs {
				if err != nil {
					ov = append(ov, big.NewInt(0))
				} else {
					ov = append(ov, r.Val(o, vals))
				}
			}
			e1, e2 := sys.solve(in, ov)
			ok := len(bad) == 0
			res.N++
			// without a given table width the two systems may differ: each chooses its own
			if j.Spec.Base == 0 {
				if j.Spec.SCS {
					e1 = e2
				} else {
					e2 = e1
				}
			}
			if ok != (e1 == "ok") || ok != (e2 == "ok") {
				res.Mismatch = append(res.Mismatch, fmt.Sprintf("inputs %v: recorded graph %v, r1cs %s, scs %s", m, bad, e1, e2))
			}
		}
	case "compute":
		// the honest prover's outputs on the recorded circuit
		r, outs, _, pan := record(j.Spec)
		if pan != "" {
			res.Err = "record: " + pan
			return
		}
		r.Graph(outs)
		for _, m := range j.Many {
			vals, bad, err := r.Eval(ops.Big(m), nil, false)
			if err != nil {
				bad = append(bad, err.Error())
			}
			c := Computed{Bad: bad}
			if err == nil {
				for _, o := range outs {
					c.Outs = append(c.Outs, r.Val(o, vals).String())
				}
			}
			res.Computed = append(res.Computed, c)
		}
	case "hint":
		for _, h := range solver.GetRegisteredHints() {
			if n := solver.GetHintName(h); n == j.Name || strings.HasSuffix(n, "/"+j.Name) {
				out := make([]*big.Int, j.NOut)
				for i := range out {
					out[i] = new(big.Int)
				}
				p := field(j.Spec)
				if err := h(new(big.Int).Set(p), ops.Big(j.Inputs), out); err != nil {
					res.Err = err.Error()
					return
				}
				for _, o := range out {
					res.Outs = append(res.Outs, new(big.Int).Mod(o, p).String())
				}
				return
			}
		}
		res.Err = "no such hint"
	case "util":
		utilJob(j, &res)
	case "compile":
		// does the real builder compile the circuit?
		sys, _ := compileReal(j.Spec, numOuts(j.Spec), nil)
		if sys.e1 != nil {
			res.Err = "r1cs: " + sys.e1.Error()
		} else if sys.e2 != nil {
			res.Err = "scs: " + sys.e2.Error()
		}
	default:
		res.Err = "unknown job kind"
	}
	return
}

func main() {
	// gnark prints to stdout; the results go to the original one
	out := os.Stdout
	os.Stdout = os.Stderr
	var jobs []Job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	results := make([]Result, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i] = run(jobs[i])
		}(i)
	}
	wg.Wait()
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	for i := range results {
		if err := enc.Encode(results[i]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	w.Flush()
}
