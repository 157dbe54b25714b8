// Package rec implements a frontend.API which, instead of emitting constraints,
// records the real circuit code's computation as a graph: every value is a linear
// form over wires, every wire has a defining operation, and every assertion, hint
// call and table lookup is kept.  The graph is what the solver side reasons about.
package rec

import (
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
)

// Lin is a linear form: const + sum coef*wire (canonical: sorted, reduced mod p).
type Lin struct {
	id    int
	c     *big.Int
	terms []term
}
type term struct {
	w int
	k *big.Int
}

// Wire is defined by an operation over linear forms.
type Wire struct {
	Op   string `json:"op"`
	Args []any  `json:"args,omitempty"` // linear forms
	Hint int    `json:"hint,omitempty"` // 1 + index of the hint call
	Out  int    `json:"out,omitempty"`
	Name string `json:"name,omitempty"`
	args []*Lin
}

type HintCall struct {
	Name   string `json:"name"`
	Inputs []any  `json:"inputs"`
	Outs   []int  `json:"outs"`
	ins    []*Lin
	fn     solver.Hint
	Where  string `json:"where,omitempty"` // "deferred" for calls made by deferred callbacks
}

type Cons struct {
	Kind  string `json:"kind"` // eq, bool, ne
	Args  []any  `json:"args"`
	Where string `json:"where,omitempty"`
	args  []*Lin
}

type Lookup struct {
	Range   int     `json:"range"` // >0: table is 0..range-1
	Table   [][]any `json:"table,omitempty"`
	Queries [][]any `json:"queries"`
	queries [][]*Lin
	tableN  int
	TableN  int `json:"table_n"`
}

type Graph struct {
	Field   string            `json:"field"`
	Wires   []*Wire           `json:"wires"`
	Hints   []*HintCall       `json:"hints"`
	Cons    []*Cons           `json:"cons"`
	Lookups []*Lookup         `json:"lookups"`
	Inputs  []int             `json:"inputs"`
	Outputs []any             `json:"outputs"`
	Info    map[string]string `json:"info,omitempty"`
	Panic   string            `json:"panic,omitempty"`
	Base    int               `json:"base"`
	Funcs   []string          `json:"functions,omitempty"`
}

type Rec struct {
	P        *big.Int
	wires    []*Wire
	hints    []*HintCall
	cons     []*Cons
	lookups  []*Lookup
	inputs   []int
	intern   map[string]*Lin
	wireKey  map[string]*Lin
	marked   map[int]bool
	deferred []func(frontend.API) error
	kv       map[any]any
	mute     bool
	dummy    *Lin
	inDefer  bool
	pcs      map[uintptr]bool
	FT       frontendtype.Type
	// constraint.CustomizableSystem is not recorded
	constraint.CustomizableSystem
}

var _ frontend.API = (*Rec)(nil)
var _ frontend.Compiler = (*Rec)(nil)

func New(p *big.Int) *Rec {
	r := &Rec{P: p, intern: map[string]*Lin{}, wireKey: map[string]*Lin{}, marked: map[int]bool{}, kv: map[any]any{}, pcs: map[uintptr]bool{}}
	// wire 0 is unused, so that ids start at 1
	r.wires = append(r.wires, &Wire{Op: "none"})
	return r
}

func (r *Rec) mk(c *big.Int, ts []term) *Lin {
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].w < ts[j].w })
	var out []term
	for _, t := range ts {
		if len(out) > 0 && out[len(out)-1].w == t.w {
			k := new(big.Int).Add(out[len(out)-1].k, t.k)
			k.Mod(k, r.P)
			out[len(out)-1].k = k
		} else {
			out = append(out, term{t.w, new(big.Int).Mod(t.k, r.P)})
		}
	}
	n := 0
	for _, t := range out {
		if t.k.Sign() != 0 {
			out[n] = t
			n++
		}
	}
	out = out[:n]
	cc := new(big.Int).Mod(c, r.P)
	var b strings.Builder
	b.WriteString(cc.Text(62))
	for _, t := range out {
		fmt.Fprintf(&b, "|%d:%s", t.w, t.k.Text(62))
	}
	k := b.String()
	if l, ok := r.intern[k]; ok {
		return l
	}
	l := &Lin{id: len(r.intern), c: cc, terms: out}
	r.intern[k] = l
	return l
}

func (r *Rec) con(c *big.Int) *Lin { return r.mk(c, nil) }
func (l *Lin) isConst() bool       { return len(l.terms) == 0 }

func toBig(v any) (*big.Int, bool) {
	switch x := v.(type) {
	case *big.Int:
		return new(big.Int).Set(x), true
	case big.Int:
		return new(big.Int).Set(&x), true
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		return b, ok
	case []byte:
		return new(big.Int).SetBytes(x), true
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(rv.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return new(big.Int).SetUint64(rv.Uint()), true
	}
	return nil, false
}

func (r *Rec) L(v frontend.Variable) *Lin {
	r.note()
	if l, ok := v.(*Lin); ok {
		return l
	}
	if b, ok := toBig(v); ok {
		return r.con(b)
	}
	panic(fmt.Sprintf("rec: cannot convert %T to a variable", v))
}

func (r *Rec) dump(l *Lin) any {
	o := make([]any, 0, len(l.terms)*2+1)
	o = append(o, l.c.String())
	for _, t := range l.terms {
		o = append(o, t.w, t.k.String())
	}
	return o
}

func (r *Rec) newWire(w *Wire) *Lin {
	r.wires = append(r.wires, w)
	return r.mk(big.NewInt(0), []term{{len(r.wires) - 1, big.NewInt(1)}})
}

func (r *Rec) op(name string, args ...*Lin) *Lin {
	if r.mute {
		return r.con(big.NewInt(0))
	}
	k := name
	for _, a := range args {
		k += fmt.Sprintf(",%d", a.id)
	}
	if l, ok := r.wireKey[k]; ok {
		return l
	}
	r.note()
	l := r.newWire(&Wire{Op: name, args: args})
	r.wireKey[k] = l
	return l
}

// Input creates a fresh input wire.
func (r *Rec) Input(name string) *Lin {
	l := r.newWire(&Wire{Op: "input", Name: name})
	r.inputs = append(r.inputs, l.terms[0].w)
	return l
}

// note remembers the functions the recorded code is in.
func (r *Rec) note() {
	var pc [40]uintptr
	for _, p := range pc[:runtime.Callers(3, pc[:])] {
		r.pcs[p] = true
	}
}

// Functions lists the functions of the library that took part in the recording.
func (r *Rec) Functions() []string {
	set := map[string]bool{}
	for p := range r.pcs {
		fs := runtime.CallersFrames([]uintptr{p})
		for {
			f, more := fs.Next()
			if n := f.Function; strings.HasPrefix(n, "github.com/tumberger/zk-Location/") && !strings.HasSuffix(f.File, "_test.go") {
				set[n] = true
			}
			if !more {
				break
			}
		}
	}
	out := []string{}
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (r *Rec) where() string {
	if r.inDefer {
		return "deferred"
	}
	return ""
}

func (r *Rec) assert(kind string, args ...*Lin) {
	if r.mute {
		return
	}
	r.note()
	r.cons = append(r.cons, &Cons{Kind: kind, args: args, Where: r.where()})
}

// ---- frontend.API ----

func (r *Rec) addSub(sgn int64, i1, i2 frontend.Variable, in []frontend.Variable) frontend.Variable {
	a := r.L(i1)
	c := new(big.Int).Set(a.c)
	ts := append([]term{}, a.terms...)
	for _, v := range append([]frontend.Variable{i2}, in...) {
		b := r.L(v)
		k := big.NewInt(sgn)
		c.Add(c, new(big.Int).Mul(b.c, k))
		for _, t := range b.terms {
			ts = append(ts, term{t.w, new(big.Int).Mul(t.k, k)})
		}
	}
	return r.mk(c, ts)
}

func (r *Rec) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	if r.mute {
		return r.dummy
	}
	return r.addSub(1, i1, i2, in)
}
func (r *Rec) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	if r.mute {
		return r.dummy
	}
	return r.addSub(-1, i1, i2, in)
}
func (r *Rec) MulAcc(a, b, c frontend.Variable) frontend.Variable { return r.Add(a, r.Mul(b, c)) }
func (r *Rec) Neg(i1 frontend.Variable) frontend.Variable         { return r.scale(r.L(i1), big.NewInt(-1)) }

func (r *Rec) scale(a *Lin, k *big.Int) *Lin {
	ts := make([]term, len(a.terms))
	for i, t := range a.terms {
		ts[i] = term{t.w, new(big.Int).Mul(t.k, k)}
	}
	return r.mk(new(big.Int).Mul(a.c, k), ts)
}

func (r *Rec) mul2(a, b *Lin) *Lin {
	if a.isConst() {
		return r.scale(b, a.c)
	}
	if b.isConst() {
		return r.scale(a, b.c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return r.op("mul", a, b)
}

func (r *Rec) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	if r.mute {
		return r.dummy
	}
	res := r.mul2(r.L(i1), r.L(i2))
	for _, v := range in {
		res = r.mul2(res, r.L(v))
	}
	return res
}

func (r *Rec) inv(c *big.Int) *big.Int {
	if r.mute {
		return one()
	}
	if c.Sign() == 0 {
		panic("div by 0")
	}
	return new(big.Int).ModInverse(c, r.P)
}

func (r *Rec) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	if r.mute {
		return r.dummy
	}
	a, b := r.L(i1), r.L(i2)
	if b.isConst() {
		return r.scale(a, r.inv(b.c))
	}
	return r.op("divu", a, b)
}
func (r *Rec) Div(i1, i2 frontend.Variable) frontend.Variable {
	if r.mute {
		return r.dummy
	}
	a, b := r.L(i1), r.L(i2)
	if b.isConst() {
		return r.scale(a, r.inv(b.c))
	}
	r.assert("ne", b, r.con(big.NewInt(0)))
	return r.op("div", a, b)
}
func (r *Rec) Inverse(i1 frontend.Variable) frontend.Variable {
	if r.mute {
		return r.dummy
	}
	a := r.L(i1)
	if a.isConst() {
		return r.con(r.inv(a.c))
	}
	r.assert("ne", a, r.con(big.NewInt(0)))
	return r.op("inv", a)
}

// bitsHint stands for gnark's own bit decomposition hint.
func bitsHint(_ *big.Int, in, out []*big.Int) error {
	for i := range out {
		out[i].SetUint64(uint64(in[0].Bit(i)))
	}
	return nil
}

func (r *Rec) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := r.P.BitLen()
	if len(n) == 1 {
		nb = n[0]
	}
	a := r.L(i1)
	if a.isConst() {
		res := make([]frontend.Variable, nb)
		for i := range res {
			res[i] = r.con(big.NewInt(int64(a.c.Bit(i))))
		}
		return res
	}
	if nb >= r.P.BitLen() {
		panic("rec: full-width bit decomposition is not supported")
	}
	outs, _ := r.NewHint(bitsHint, nb, a)
	var sum frontend.Variable = 0
	for i := range outs {
		r.AssertIsBoolean(outs[i])
		sum = r.Add(sum, r.Mul(outs[i], new(big.Int).Lsh(big.NewInt(1), uint(i))))
	}
	r.AssertIsEqual(sum, a)
	return outs
}
func (r *Rec) FromBinary(b ...frontend.Variable) frontend.Variable {
	var sum frontend.Variable = 0
	for i := range b {
		r.AssertIsBoolean(b[i])
		sum = r.Add(sum, r.Mul(b[i], new(big.Int).Lsh(big.NewInt(1), uint(i))))
	}
	return sum
}

func one() *big.Int { return big.NewInt(1) }

func (r *Rec) Xor(x, y frontend.Variable) frontend.Variable {
	r.AssertIsBoolean(x)
	r.AssertIsBoolean(y)
	a, b := r.L(x), r.L(y)
	if a.isConst() {
		a, b = b, a
	}
	var res *Lin
	if b.isConst() {
		if b.c.Sign() == 0 {
			res = a
		} else {
			res = r.Sub(1, a).(*Lin)
		}
	} else {
		if a.id > b.id {
			a, b = b, a
		}
		res = r.op("xor", a, b)
	}
	r.MarkBoolean(res)
	return res
}
func (r *Rec) Or(x, y frontend.Variable) frontend.Variable {
	r.AssertIsBoolean(x)
	r.AssertIsBoolean(y)
	a, b := r.L(x), r.L(y)
	if a.isConst() {
		a, b = b, a
	}
	var res *Lin
	if b.isConst() {
		if b.c.Sign() == 0 {
			res = a
		} else if r.FT == frontendtype.SCS {
			// this version of gnark's PLONK builder constrains Or(a, b) with a constant b
			// as a*(1-b)+..., without the constant: Or(a, 1) is 0
			res = r.con(big.NewInt(0))
		} else {
			res = b
		}
	} else {
		if a.id > b.id {
			a, b = b, a
		}
		res = r.op("or", a, b)
	}
	r.MarkBoolean(res)
	return res
}
func (r *Rec) And(x, y frontend.Variable) frontend.Variable {
	r.AssertIsBoolean(x)
	r.AssertIsBoolean(y)
	a, b := r.L(x), r.L(y)
	if a.isConst() {
		a, b = b, a
	}
	var res *Lin
	if b.isConst() {
		if b.c.Sign() == 0 {
			res = b
		} else {
			res = a
		}
	} else {
		if a.id > b.id {
			a, b = b, a
		}
		res = r.op("and", a, b)
	}
	r.MarkBoolean(res)
	return res
}

// Select does not constrain the condition: gnark's PLONK builder does not either.
func (r *Rec) Select(b frontend.Variable, i1, i2 frontend.Variable) frontend.Variable {
	c, x, y := r.L(b), r.L(i1), r.L(i2)
	if c.isConst() {
		if c.c.Sign() == 0 {
			return y
		}
		if c.c.Cmp(one()) != 0 {
			panic(fmt.Sprintf("%s should be 0 or 1", c.c))
		}
		return x
	}
	if x == y {
		return x
	}
	// needed by an honest prover under the R1CS builder
	if !r.marked[c.id] {
		r.assert("selbool", c)
	}
	if x.isConst() && y.isConst() {
		d := new(big.Int).Sub(x.c, y.c)
		return r.Add(r.scale(c, d), y)
	}
	return r.op("select", c, x, y)
}

func (r *Rec) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	r.AssertIsBoolean(b0)
	r.AssertIsBoolean(b1)
	return r.Select(b1, r.Select(b0, i3, i2), r.Select(b0, i1, i0))
}

func (r *Rec) IsZero(i1 frontend.Variable) frontend.Variable {
	a := r.L(i1)
	if a.isConst() {
		if a.c.Sign() == 0 {
			return r.con(one())
		}
		return r.con(big.NewInt(0))
	}
	// canonical sign, so that IsZero(a-b) and IsZero(b-a) share a wire
	n := r.scale(a, big.NewInt(-1))
	if n.id < a.id {
		a = n
	}
	res := r.op("iszero", a)
	r.MarkBoolean(res)
	return res
}

func (r *Rec) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	return r.op("cmp", r.L(i1), r.L(i2))
}
func (r *Rec) AssertIsEqual(i1, i2 frontend.Variable) {
	a, b := r.L(i1), r.L(i2)
	if a.isConst() && b.isConst() && a != b {
		if r.mute {
			return
		}
		panic("non-equal constant values")
	}
	r.assert("eq", a, b)
}
func (r *Rec) AssertIsDifferent(i1, i2 frontend.Variable) {
	r.assert("ne", r.L(i1), r.L(i2))
}
func (r *Rec) AssertIsBoolean(i1 frontend.Variable) {
	a := r.L(i1)
	if a.isConst() {
		if !(a.c.Sign() == 0 || a.c.Cmp(one()) == 0) && !r.mute {
			panic("assertIsBoolean failed: constant is not 0 or 1")
		}
		return
	}
	if r.marked[a.id] {
		return
	}
	r.marked[a.id] = true
	r.assert("bool", a)
}
func (r *Rec) AssertIsCrumb(i1 frontend.Variable) {
	i1 = r.MulAcc(r.Mul(-3, i1), i1, i1)
	i1 = r.MulAcc(r.Mul(2, i1), i1, i1)
	r.AssertIsEqual(i1, 0)
}
func (r *Rec) AssertIsLessOrEqual(v frontend.Variable, bound frontend.Variable) {
	r.assert("le", r.L(v), r.L(bound))
}
func (r *Rec) GetNbConstraints() int             { return 0 }
func (r *Rec) Println(a ...frontend.Variable)    {}
func (r *Rec) Compiler() frontend.Compiler       { return r }
func (r *Rec) FrontendType() frontendtype.Type   { return r.FT }
func (r *Rec) SetKeyValue(k, v any)              { r.kv[k] = v }
func (r *Rec) GetKeyValue(k any) any             { return r.kv[k] }
func (r *Rec) Field() *big.Int                   { return new(big.Int).Set(r.P) }
func (r *Rec) FieldBitLen() int                  { return r.P.BitLen() }
func (r *Rec) Defer(cb func(frontend.API) error) { r.deferred = append(r.deferred, cb) }
func (r *Rec) MarkBoolean(v frontend.Variable) {
	a := r.L(v)
	if !a.isConst() {
		r.marked[a.id] = true
	}
}
func (r *Rec) IsBoolean(v frontend.Variable) bool {
	a := r.L(v)
	if a.isConst() {
		return a.c.Sign() == 0 || a.c.Cmp(one()) == 0
	}
	return r.marked[a.id]
}
func (r *Rec) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	if l, ok := v.(*Lin); ok {
		if l.isConst() {
			return new(big.Int).Set(l.c), true
		}
		return nil, false
	}
	b, ok := toBig(v)
	if ok {
		b.Mod(b, r.P)
	}
	return b, ok
}
func (r *Rec) InternalVariable(uint32) frontend.Variable { panic("rec: InternalVariable") }
func (r *Rec) ToCanonicalVariable(frontend.Variable) frontend.CanonicalVariable {
	panic("rec: ToCanonicalVariable")
}
func (r *Rec) SetGkrInfo(constraint.GkrInfo) error { panic("rec: SetGkrInfo") }

// Commit is only reached from the lookup argument: what follows it in the same
// callback is the argument's own randomised check, which the recorded lookup stands for.
func (r *Rec) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	if len(r.lookups) == 0 {
		panic("rec: commitment without a lookup")
	}
	r.mute = true
	r.dummy = r.con(one())
	return r.con(one()), nil
}

func (r *Rec) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	name := solver.GetHintName(f)
	r.note()
	if strings.HasSuffix(name, "logderivarg.countHint") {
		return r.lookup(nbOutputs, inputs)
	}
	h := &HintCall{Name: name, fn: f, Where: r.where()}
	for _, i := range inputs {
		h.ins = append(h.ins, r.L(i))
	}
	r.hints = append(r.hints, h)
	outs := make([]frontend.Variable, nbOutputs)
	for i := range outs {
		l := r.newWire(&Wire{Op: "hint", Hint: len(r.hints), Out: i})
		h.Outs = append(h.Outs, l.terms[0].w)
		outs[i] = l
	}
	return outs, nil
}

func (r *Rec) lookup(nbTable int, inputs []frontend.Variable) ([]frontend.Variable, error) {
	n := r.L(inputs[0])
	c := r.L(inputs[1])
	if !n.isConst() || !c.isConst() || int(n.c.Int64()) != nbTable {
		panic("rec: unexpected lookup layout")
	}
	nbRow := int(c.c.Int64())
	rest := inputs[2:]
	lk := &Lookup{TableN: nbTable}
	isRange := nbRow == 1
	if isRange {
		for i := 0; i < nbTable; i++ {
			l := r.L(rest[i])
			if !l.isConst() || l.c.Cmp(big.NewInt(int64(i))) != 0 {
				isRange = false
				break
			}
		}
	}
	if isRange {
		lk.Range = nbTable
	} else {
		for i := 0; i < nbTable; i++ {
			var row []any
			for j := 0; j < nbRow; j++ {
				row = append(row, r.dump(r.L(rest[i*nbRow+j])))
			}
			lk.Table = append(lk.Table, row)
		}
	}
	rest = rest[nbTable*nbRow:]
	lk.Queries = [][]any{}
	for i := 0; i+nbRow <= len(rest); i += nbRow {
		var row []*Lin
		for j := 0; j < nbRow; j++ {
			row = append(row, r.L(rest[i+j]))
		}
		lk.queries = append(lk.queries, row)
	}
	r.lookups = append(r.lookups, lk)
	outs := make([]frontend.Variable, nbTable)
	z := r.con(big.NewInt(0))
	for i := range outs {
		outs[i] = z
	}
	return outs, nil
}

// RunDeferred runs the deferred callbacks as the compiler would.
func (r *Rec) RunDeferred() error {
	r.inDefer = true
	for i := 0; i < len(r.deferred); i++ {
		r.mute = false
		if err := r.deferred[i](r); err != nil {
			return err
		}
	}
	return nil
}

// Graph dumps what was recorded.
func (r *Rec) Graph(outs []frontend.Variable) *Graph {
	g := &Graph{Field: r.P.String(), Wires: r.wires, Hints: r.hints, Cons: r.cons, Lookups: r.lookups, Inputs: r.inputs, Funcs: r.Functions()}
	for _, w := range r.wires {
		w.Args = nil
		for _, a := range w.args {
			w.Args = append(w.Args, r.dump(a))
		}
	}
	for _, h := range r.hints {
		h.Inputs = []any{}
		for _, a := range h.ins {
			h.Inputs = append(h.Inputs, r.dump(a))
		}
	}
	for _, c := range r.cons {
		c.Args = nil
		for _, a := range c.args {
			c.Args = append(c.Args, r.dump(a))
		}
	}
	for _, l := range r.lookups {
		l.Queries = [][]any{}
		for _, q := range l.queries {
			var row []any
			for _, a := range q {
				row = append(row, r.dump(a))
			}
			l.Queries = append(l.Queries, row)
		}
	}
	for _, o := range outs {
		g.Outputs = append(g.Outputs, r.dump(r.L(o)))
	}
	return g
}
