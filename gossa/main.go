// gossa: dumps the SSA form of the packages of /repo as JSON for the symbolic executor.
package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type obj = map[string]any

type dumper struct {
	types map[string]int
	list  []obj
	fset  *token.FileSet
}

func (d *dumper) typ(t types.Type) int {
	key := types.TypeString(t, nil)
	if i, ok := d.types[key]; ok {
		return i
	}
	i := len(d.list)
	d.types[key] = i
	o := obj{"str": key}
	d.list = append(d.list, o)
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		o["kind"] = "basic"
		o["name"] = u.Name()
	case *types.Pointer:
		o["kind"] = "ptr"
		o["elem"] = d.typ(u.Elem())
	case *types.Slice:
		o["kind"] = "slice"
		o["elem"] = d.typ(u.Elem())
	case *types.Array:
		o["kind"] = "array"
		o["elem"] = d.typ(u.Elem())
		o["len"] = u.Len()
	case *types.Struct:
		o["kind"] = "struct"
		var fs []any
		for j := 0; j < u.NumFields(); j++ {
			fs = append(fs, []any{u.Field(j).Name(), d.typ(u.Field(j).Type())})
		}
		o["fields"] = fs
	case *types.Interface:
		o["kind"] = "iface"
	case *types.Signature:
		o["kind"] = "func"
	case *types.Map:
		o["kind"] = "map"
		o["key"], o["elem"] = d.typ(u.Key()), d.typ(u.Elem())
	case *types.Tuple:
		o["kind"] = "tuple"
		var es []int
		for j := 0; j < u.Len(); j++ {
			es = append(es, d.typ(u.At(j).Type()))
		}
		o["elems"] = es
	default:
		o["kind"] = fmt.Sprintf("%T", u)
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o["named"] = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			o["pkg"] = n.Obj().Pkg().Path()
		}
	}
	return i
}

func (d *dumper) val(v ssa.Value) any {
	if v == nil {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		o := obj{"k": "const", "t": d.typ(v.Type())}
		if v.Value == nil {
			o["nil"] = true
			return o
		}
		switch v.Value.Kind() {
		case constant.Bool:
			o["v"] = constant.BoolVal(v.Value)
		case constant.String:
			o["v"] = constant.StringVal(v.Value)
		case constant.Int:
			o["v"] = v.Value.ExactString()
			o["int"] = true
		case constant.Float:
			o["v"] = v.Value.ExactString() // a rational
			o["float"] = true
			f, _ := constant.Float64Val(v.Value)
			o["f"] = fmt.Sprintf("%x", f)
		default:
			o["v"] = v.Value.ExactString()
		}
		return o
	case *ssa.Function:
		return obj{"k": "func", "n": v.String()}
	case *ssa.Builtin:
		return obj{"k": "builtin", "n": v.Name()}
	case *ssa.Global:
		return obj{"k": "global", "n": v.String(), "t": d.typ(v.Type())}
	}
	return obj{"k": "reg", "n": v.Name()}
}

func (d *dumper) call(c *ssa.CallCommon, o obj) {
	var args []any
	if c.IsInvoke() {
		o["invoke"] = c.Method.Name()
		o["recv"] = d.val(c.Value)
	} else {
		if f := c.StaticCallee(); f != nil {
			o["callee"] = f.String()
		} else if b, ok := c.Value.(*ssa.Builtin); ok {
			o["builtin"] = b.Name()
		}
		o["fn"] = d.val(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, d.val(a))
	}
	o["args"] = args
}

func (d *dumper) fn(f *ssa.Function) obj {
	o := obj{"name": f.String(), "pos": d.fset.Position(f.Pos()).String()}
	var ps, fv []any
	for _, p := range f.Params {
		ps = append(ps, []any{p.Name(), d.typ(p.Type())})
	}
	for _, p := range f.FreeVars {
		fv = append(fv, p.Name())
	}
	o["params"], o["free"] = ps, fv
	o["results"] = d.typ(f.Signature.Results())
	var bs []any
	for _, b := range f.Blocks {
		var is []any
		for _, in := range b.Instrs {
			i := obj{}
			if v, ok := in.(ssa.Value); ok {
				i["r"] = v.Name()
				i["t"] = d.typ(v.Type())
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.BinOp:
				i["op"], i["o"], i["x"], i["y"] = "binop", x.Op.String(), d.val(x.X), d.val(x.Y)
				i["xt"], i["yt"] = d.typ(x.X.Type()), d.typ(x.Y.Type())
			case *ssa.UnOp:
				i["op"], i["o"], i["x"], i["commaok"] = "unop", x.Op.String(), d.val(x.X), x.CommaOk
			case *ssa.Call:
				i["op"] = "call"
				d.call(&x.Call, i)
			case *ssa.Defer:
				i["op"] = "defer"
				d.call(&x.Call, i)
			case *ssa.Go:
				i["op"] = "go"
			case *ssa.RunDefers:
				i["op"] = "rundefers"
			case *ssa.Phi:
				var es []any
				for _, e := range x.Edges {
					es = append(es, d.val(e))
				}
				i["op"], i["edges"] = "phi", es
			case *ssa.If:
				i["op"], i["x"] = "if", d.val(x.Cond)
			case *ssa.Jump:
				i["op"] = "jump"
			case *ssa.Return:
				var es []any
				for _, e := range x.Results {
					es = append(es, d.val(e))
				}
				i["op"], i["res"] = "return", es
			case *ssa.Panic:
				i["op"], i["x"] = "panic", d.val(x.X)
			case *ssa.Store:
				i["op"], i["addr"], i["x"] = "store", d.val(x.Addr), d.val(x.Val)
			case *ssa.Alloc:
				i["op"], i["heap"] = "alloc", x.Heap
			case *ssa.IndexAddr:
				i["op"], i["x"], i["i"] = "indexaddr", d.val(x.X), d.val(x.Index)
			case *ssa.Index:
				i["op"], i["x"], i["i"] = "index", d.val(x.X), d.val(x.Index)
			case *ssa.FieldAddr:
				i["op"], i["x"], i["f"] = "fieldaddr", d.val(x.X), x.Field
			case *ssa.Field:
				i["op"], i["x"], i["f"] = "field", d.val(x.X), x.Field
			case *ssa.Slice:
				i["op"], i["x"], i["lo"], i["hi"], i["max"] = "slice", d.val(x.X), d.val(x.Low), d.val(x.High), d.val(x.Max)
			case *ssa.MakeSlice:
				i["op"], i["len"], i["cap"] = "makeslice", d.val(x.Len), d.val(x.Cap)
			case *ssa.MakeInterface:
				i["op"], i["x"], i["xt"] = "mkiface", d.val(x.X), d.typ(x.X.Type())
			case *ssa.MakeMap:
				i["op"] = "makemap"
			case *ssa.MapUpdate:
				i["op"], i["x"], i["key"], i["v"] = "mapupdate", d.val(x.Map), d.val(x.Key), d.val(x.Value)
			case *ssa.Lookup:
				i["op"], i["x"], i["i"], i["commaok"] = "lookup", d.val(x.X), d.val(x.Index), x.CommaOk
			case *ssa.Range:
				i["op"], i["x"] = "range", d.val(x.X)
			case *ssa.Next:
				i["op"], i["x"], i["str"] = "next", d.val(x.Iter), x.IsString
			case *ssa.Convert:
				i["op"], i["x"], i["xt"] = "convert", d.val(x.X), d.typ(x.X.Type())
			case *ssa.ChangeType:
				i["op"], i["x"] = "changetype", d.val(x.X)
			case *ssa.ChangeInterface:
				i["op"], i["x"] = "changetype", d.val(x.X)
			case *ssa.SliceToArrayPointer:
				i["op"], i["x"] = "slice2arr", d.val(x.X)
			case *ssa.TypeAssert:
				i["op"], i["x"], i["at"], i["commaok"] = "typeassert", d.val(x.X), d.typ(x.AssertedType), x.CommaOk
			case *ssa.Extract:
				i["op"], i["x"], i["i"] = "extract", d.val(x.Tuple), x.Index
			case *ssa.MakeClosure:
				var bs []any
				for _, b := range x.Bindings {
					bs = append(bs, d.val(b))
				}
				i["op"], i["fn"], i["bind"] = "closure", d.val(x.Fn), bs
			default:
				i["op"] = fmt.Sprintf("%T", in)
			}
			i["line"] = d.fset.Position(in.Pos()).Line
			is = append(is, i)
		}
		var ss, pp []int
		for _, s := range b.Succs {
			ss = append(ss, s.Index)
		}
		for _, s := range b.Preds {
			pp = append(pp, s.Index)
		}
		bs = append(bs, obj{"i": is, "s": ss, "p": pp})
	}
	o["blocks"] = bs
	return o
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly")}
	pkgs, err := packages.Load(cfg, os.Args[2:]...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bad := false
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	}
	if bad {
		os.Exit(2)
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	d := &dumper{types: map[string]int{}, fset: prog.Fset}
	own := map[*ssa.Package]bool{}
	for _, p := range ps {
		own[p] = true
	}
	fns := []any{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil {
			continue
		}
		p := f.Package()
		if p == nil && f.Parent() != nil {
			p = f.Parent().Package()
		}
		if p != nil && own[p] {
			fns = append(fns, d.fn(f))
		}
	}
	json.NewEncoder(os.Stdout).Encode(obj{"types": d.list, "funcs": fns})
}
