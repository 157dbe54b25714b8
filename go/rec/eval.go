package rec

import (
	"fmt"
	"math/big"
	"strings"
)

// Eval runs the recorded graph on concrete inputs, calling the real hint functions
// (or the forced hint outputs), and reports the constraints that do not hold.
//
// With adversary set, limb decompositions that are not forced are those of a prover who
// decomposes the field value, whatever it is: base digits, the last limb taking the rest.
func (r *Rec) Eval(in []*big.Int, forced map[int][]*big.Int, adversary bool) (vals []*big.Int, bad []string, err error) {
	vals = make([]*big.Int, len(r.wires))
	ev := func(l *Lin) *big.Int {
		s := new(big.Int).Set(l.c)
		for _, t := range l.terms {
			s.Add(s, new(big.Int).Mul(t.k, vals[t.w]))
		}
		return s.Mod(s, r.P)
	}
	md := func(x *big.Int) *big.Int { return x.Mod(x, r.P) }
	ni := 0
	b2 := func(b bool) *big.Int {
		if b {
			return big.NewInt(1)
		}
		return big.NewInt(0)
	}
	for i := 1; i < len(r.wires); i++ {
		w := r.wires[i]
		var a []*big.Int
		for _, l := range w.args {
			a = append(a, ev(l))
		}
		switch w.Op {
		case "input":
			if ni >= len(in) {
				return nil, nil, fmt.Errorf("too few inputs")
			}
			vals[i] = md(new(big.Int).Set(in[ni]))
			ni++
		case "hint":
			if w.Out != 0 {
				continue
			}
			h := r.hints[w.Hint-1]
			var outs []*big.Int
			if f, ok := forced[w.Hint-1]; ok {
				outs = f
			} else {
				var ins []*big.Int
				for _, l := range h.ins {
					ins = append(ins, ev(l))
				}
				for range h.Outs {
					outs = append(outs, new(big.Int))
				}
				if adversary && strings.HasSuffix(h.Name, "gadget.DecomposeHint") && len(ins) == 4 {
					decompose(r.P, ins, outs)
				} else if e := safe(h.fn, new(big.Int).Set(r.P), ins, outs); e != nil {
					return vals, nil, fmt.Errorf("hint %s: %w", h.Name, e)
				}
			}
			for j, o := range h.Outs {
				vals[o] = md(new(big.Int).Set(outs[j]))
			}
		case "mul", "and":
			vals[i] = md(new(big.Int).Mul(a[0], a[1]))
		case "or":
			p := new(big.Int).Mul(a[0], a[1])
			vals[i] = md(p.Sub(new(big.Int).Add(a[0], a[1]), p))
		case "xor":
			p := new(big.Int).Mul(a[0], a[1])
			p.Lsh(p, 1)
			vals[i] = md(p.Sub(new(big.Int).Add(a[0], a[1]), p))
		case "select":
			d := new(big.Int).Sub(a[1], a[2])
			d.Mul(d, a[0])
			vals[i] = md(d.Add(d, a[2]))
		case "iszero":
			vals[i] = b2(a[0].Sign() == 0)
		case "inv":
			if a[0].Sign() == 0 {
				bad = append(bad, fmt.Sprintf("wire %d: inverse of 0", i))
				vals[i] = big.NewInt(0)
			} else {
				vals[i] = new(big.Int).ModInverse(a[0], r.P)
			}
		case "div", "divu":
			if a[1].Sign() == 0 {
				bad = append(bad, fmt.Sprintf("wire %d: division by 0", i))
				vals[i] = big.NewInt(0)
			} else {
				v := new(big.Int).ModInverse(a[1], r.P)
				vals[i] = md(v.Mul(v, a[0]))
			}
		case "cmp":
			vals[i] = md(big.NewInt(int64(a[0].Cmp(a[1]))))
		default:
			return vals, nil, fmt.Errorf("eval: op %s", w.Op)
		}
	}
	for i, c := range r.cons {
		var a []*big.Int
		for _, l := range c.args {
			a = append(a, ev(l))
		}
		ok := true
		switch c.Kind {
		case "eq":
			ok = a[0].Cmp(a[1]) == 0
		case "bool", "selbool":
			ok = a[0].Sign() == 0 || a[0].Cmp(one()) == 0
		case "ne":
			ok = a[0].Cmp(a[1]) != 0
		case "le":
			ok = a[0].Cmp(a[1]) <= 0
		default:
			return vals, nil, fmt.Errorf("eval: constraint %s", c.Kind)
		}
		if !ok {
			bad = append(bad, fmt.Sprintf("constraint %d (%s)", i, c.Kind))
		}
	}
	for i, lk := range r.lookups {
		set := map[string]bool{}
		for _, row := range lk.Table {
			k := ""
			for _, c := range row {
				l := c.([]any)
				if len(l) != 1 {
					return vals, nil, fmt.Errorf("eval: variable table")
				}
				k += l[0].(string) + ","
			}
			set[k] = true
		}
		for j, q := range lk.queries {
			ok := false
			if lk.Range > 0 {
				ok = ev(q[0]).Cmp(big.NewInt(int64(lk.Range))) < 0
			} else {
				k := ""
				for _, l := range q {
					k += ev(l).String() + ","
				}
				ok = set[k]
			}
			if !ok {
				bad = append(bad, fmt.Sprintf("lookup %d query %d", i, j))
			}
		}
		if len(lk.queries) == 0 {
			bad = append(bad, fmt.Sprintf("lookup %d has no query: the lookup argument cannot be proven", i))
		}
	}
	return vals, bad, nil
}

func decompose(p *big.Int, in, out []*big.Int) {
	v := new(big.Int).Mul(in[2], in[3])
	v.Mod(v, p)
	w := uint(in[1].Uint64())
	b := new(big.Int).Lsh(big.NewInt(1), w)
	for i := range out {
		if i == len(out)-1 {
			out[i].Set(v)
			return
		}
		out[i].Mod(v, b)
		v.Rsh(v, w)
	}
}

// Val evaluates a variable under the values computed by Eval.
func (r *Rec) Val(v any, vals []*big.Int) *big.Int {
	l := r.L(v)
	s := new(big.Int).Set(l.c)
	for _, t := range l.terms {
		s.Add(s, new(big.Int).Mul(t.k, vals[t.w]))
	}
	return s.Mod(s, r.P)
}

// NumHints returns the hint calls recorded so far, in order.
func (r *Rec) HintCalls() []*HintCall { return r.hints }

func safe(f func(*big.Int, []*big.Int, []*big.Int) error, p *big.Int, in, out []*big.Int) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return f(p, in, out)
}
