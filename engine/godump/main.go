// godump loads Go packages with full type information, builds SSA form and
// writes it as JSON for the analyses in /verif/engine.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	prog    *ssa.Program
	typeIDs = map[string]int{}
	typeTab []M
	fset    *token.FileSet
)

func qual(p *types.Package) string { return p.Path() }

func tid(t types.Type) int {
	if t == nil {
		return -1
	}
	key := types.TypeString(t, qual)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeTab)
	typeIDs[key] = id
	m := M{"s": key}
	typeTab = append(typeTab, m)
	var named *types.Named
	tt := types.Unalias(t)
	if n, ok := tt.(*types.Named); ok {
		named = n
		m["named"] = key
		_ = named
	}
	switch u := tt.Underlying().(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["b"] = u.Name()
		m["flags"] = int(u.Info())
		if _, ok := prog.ImportedPackage("unsafe"), true; ok {
			sizes := types.SizesFor("gc", "amd64")
			if u.Info()&types.IsInteger != 0 && u.Info()&types.IsUntyped == 0 {
				m["size"] = sizes.Sizeof(u)
				m["uns"] = u.Info()&types.IsUnsigned != 0
			}
		}
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = tid(u.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = tid(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["e"] = tid(u.Elem())
		m["len"] = u.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = tid(u.Key())
		m["e"] = tid(u.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			m := M{"n": f.Name(), "t": tid(f.Type()), "emb": f.Embedded()}
			if g := u.Tag(i); g != "" {
				m["tag"] = g
			}
			fs = append(fs, m)
		}
		m["f"] = fs
	case *types.Interface:
		m["k"] = "iface"
		ms := []string{}
		for i := 0; i < u.NumMethods(); i++ {
			ms = append(ms, u.Method(i).Name())
		}
		m["m"] = ms
	case *types.Signature:
		m["k"] = "func"
	case *types.Tuple:
		m["k"] = "tuple"
		ts := []int{}
		for i := 0; i < u.Len(); i++ {
			ts = append(ts, tid(u.At(i).Type()))
		}
		m["ts"] = ts
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = tid(u.Elem())
	default:
		m["k"] = "other"
	}
	return id
}

func posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func val(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "c", "t": tid(x.Type())}
		if x.Value == nil {
			m["z"] = true // zero value / nil
		} else {
			switch x.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(x.Value)
			case constant.String:
				s := constant.StringVal(x.Value)
				m["v"] = fmt.Sprintf("%x", s)
				m["str"] = true
			case constant.Int:
				m["v"] = x.Value.ExactString()
				m["int"] = true
			default:
				m["v"] = x.Value.ExactString()
				m["flt"] = true
			}
		}
		return m
	case *ssa.Global:
		return M{"k": "g", "n": x.String(), "t": tid(x.Type())}
	case *ssa.Function:
		return M{"k": "f", "n": fname(x), "t": tid(x.Type())}
	case *ssa.Builtin:
		return M{"k": "b", "n": x.Name()}
	default:
		return M{"k": "r", "n": v.Name(), "t": tid(v.Type())}
	}
}

func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

var wanted = map[*ssa.Function]bool{}
var queue []*ssa.Function

func pkgOf(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg().Path()
		}
	}
	return ""
}

func inScope(f *ssa.Function) bool {
	p := pkgOf(f)
	if strings.HasPrefix(p, "github.com/Fantom-foundation/Tosca") {
		return true
	}
	switch p {
	case "slices", "maps", "cmp", "golang.org/x/exp/maps", "golang.org/x/exp/slices":
		return true
	case "":
		return true
	}
	return false
}

func fname(f *ssa.Function) string {
	if inScope(f) && !wanted[f] {
		wanted[f] = true
		queue = append(queue, f)
	}
	return f.String()
}

func call(c *ssa.CallCommon) M {
	m := M{}
	if c.IsInvoke() {
		m["inv"] = c.Method.Name()
		m["recv"] = val(c.Value)
		m["it"] = tid(c.Value.Type())
	} else {
		m["fn"] = val(c.Value)
	}
	m["args"] = vals(c.Args)
	return m
}

func instr(in ssa.Instruction) M {
	m := M{}
	if p := posOf(in.Pos()); p != "" {
		m["p"] = p
	}
	if v, ok := in.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = tid(v.Type())
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "alloc"
		m["heap"] = x.Heap
		m["et"] = tid(x.Type().Underlying().(*types.Pointer).Elem())
		m["c"] = x.Comment
	case *ssa.BinOp:
		m["op"] = "bin"
		m["o"] = x.Op.String()
		m["x"], m["y"] = val(x.X), val(x.Y)
	case *ssa.UnOp:
		m["op"] = "un"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["ok"] = x.CommaOk
	case *ssa.Call:
		m["op"] = "call"
		m["call"] = call(&x.Call)
	case *ssa.Go:
		m["op"] = "go"
		m["call"] = call(&x.Call)
	case *ssa.Defer:
		m["op"] = "defer"
		m["call"] = call(&x.Call)
	case *ssa.RunDefers:
		m["op"] = "rundefers"
	case *ssa.ChangeInterface:
		m["op"] = "chgif"
		m["x"] = val(x.X)
	case *ssa.ChangeType:
		m["op"] = "chgt"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["op"] = "conv"
		m["x"] = val(x.X)
	case *ssa.MultiConvert:
		m["op"] = "conv"
		m["x"] = val(x.X)
	case *ssa.SliceToArrayPointer:
		m["op"] = "s2ap"
		m["x"] = val(x.X)
	case *ssa.MakeInterface:
		m["op"] = "mkif"
		m["x"] = val(x.X)
	case *ssa.MakeClosure:
		m["op"] = "closure"
		m["fn"] = val(x.Fn)
		m["b"] = vals(x.Bindings)
	case *ssa.MakeMap:
		m["op"] = "mkmap"
	case *ssa.MakeChan:
		m["op"] = "mkchan"
	case *ssa.MakeSlice:
		m["op"] = "mkslice"
		m["len"], m["cap"] = val(x.Len), val(x.Cap)
	case *ssa.Slice:
		m["op"] = "slice"
		m["x"] = val(x.X)
		m["lo"], m["hi"], m["max"] = val(x.Low), val(x.High), val(x.Max)
	case *ssa.FieldAddr:
		m["op"] = "fieldaddr"
		m["x"] = val(x.X)
		m["f"] = x.Field
	case *ssa.Field:
		m["op"] = "field"
		m["x"] = val(x.X)
		m["f"] = x.Field
	case *ssa.IndexAddr:
		m["op"] = "indexaddr"
		m["x"], m["i"] = val(x.X), val(x.Index)
	case *ssa.Index:
		m["op"] = "index"
		m["x"], m["i"] = val(x.X), val(x.Index)
	case *ssa.Lookup:
		m["op"] = "lookup"
		m["x"], m["i"] = val(x.X), val(x.Index)
		m["ok"] = x.CommaOk
	case *ssa.MapUpdate:
		m["op"] = "mapupdate"
		m["x"], m["k"], m["v"] = val(x.Map), val(x.Key), val(x.Value)
	case *ssa.Range:
		m["op"] = "range"
		m["x"] = val(x.X)
	case *ssa.Next:
		m["op"] = "next"
		m["x"] = val(x.Iter)
		m["s"] = x.IsString
	case *ssa.TypeAssert:
		m["op"] = "assert"
		m["x"] = val(x.X)
		m["at"] = tid(x.AssertedType)
		m["ok"] = x.CommaOk
	case *ssa.Extract:
		m["op"] = "extract"
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Phi:
		m["op"] = "phi"
		m["e"] = vals(x.Edges)
		m["c"] = x.Comment
	case *ssa.Select:
		m["op"] = "select"
	case *ssa.Send:
		m["op"] = "send"
	case *ssa.Store:
		m["op"] = "store"
		m["a"], m["v"] = val(x.Addr), val(x.Val)
	case *ssa.If:
		m["op"] = "if"
		m["x"] = val(x.Cond)
	case *ssa.Jump:
		m["op"] = "jump"
	case *ssa.Return:
		m["op"] = "ret"
		m["r"] = vals(x.Results)
	case *ssa.Panic:
		m["op"] = "panic"
		m["x"] = val(x.X)
	case *ssa.DebugRef:
		return nil
	default:
		m["op"] = "unknown:" + fmt.Sprintf("%T", in)
	}
	return m
}

func dumpFn(f *ssa.Function) M {
	m := M{"name": f.String(), "pkg": pkgOf(f), "pos": posOf(f.Pos()), "short": f.Name()}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": tid(p.Type())})
	}
	m["params"] = ps
	fv := []M{}
	for _, p := range f.FreeVars {
		fv = append(fv, M{"n": p.Name(), "t": tid(p.Type())})
	}
	m["fv"] = fv
	rs := []int{}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, tid(res.At(i).Type()))
	}
	m["res"] = rs
	if f.Signature.Recv() != nil {
		m["recv"] = tid(f.Signature.Recv().Type())
	}
	m["syn"] = f.Synthetic
	if f.Parent() != nil {
		m["parent"] = f.Parent().String()
	}
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, in := range b.Instrs {
			if d := instr(in); d != nil {
				is = append(is, d)
			}
		}
		su, pr := []int{}, []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bs = append(bs, M{"i": is, "s": su, "p": pr})
	}
	m["blocks"] = bs
	if f.Recover != nil {
		m["recover"] = f.Recover.Index
	}
	return m
}

func main() {
	dir := os.Args[1]
	modfile := os.Args[2]
	out := os.Args[3]
	pats := os.Args[4:]
	fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir:        dir,
		Fset:       fset,
		BuildFlags: []string{"-modfile=" + modfile, "-mod=mod"},
		Env:        os.Environ(),
	}
	cfg.Mode &^= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD-ERROR", err)
		os.Exit(3)
	}
	errs := []M{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, M{"pkg": p.PkgPath, "pos": e.Pos, "msg": e.Msg})
		}
	})
	var ssapkgs []*ssa.Package
	prog, ssapkgs = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	prog.Build()
	res := M{}
	fns := []M{}
	globals := M{}
	consts := M{}
	methods := M{}
	roots := []string{}
	for i, p := range ssapkgs {
		if p == nil {
			errs = append(errs, M{"pkg": pkgs[i].PkgPath, "msg": "no SSA package (type errors)"})
		}
	}
	for _, p := range prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), "github.com/Fantom-foundation/Tosca") {
			if strings.HasPrefix(p.Pkg.Path(), "github.com/ethereum/") {
				for n, m := range p.Members {
					if x, ok := m.(*ssa.NamedConst); ok && x.Value.Value.Kind() != constant.String {
						consts[p.Pkg.Path()+"."+n] = M{"t": tid(x.Type()), "v": x.Value.Value.ExactString()}
					}
				}
			}
			continue
		}
		roots = append(roots, p.Pkg.Path())
		names := []string{}
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := p.Members[n].(type) {
			case *ssa.Function:
				if x.TypeParams().Len() == 0 {
					fname(x)
				}
			case *ssa.Global:
				globals[x.String()] = M{"t": tid(x.Type()), "p": posOf(x.Pos())}
			case *ssa.NamedConst:
				mm := M{"t": tid(x.Type()), "p": posOf(x.Pos())}
				if x.Value.Value.Kind() == constant.String {
					mm["v"] = constant.StringVal(x.Value.Value)
				} else {
					mm["v"] = x.Value.Value.ExactString()
				}
				consts[p.Pkg.Path()+"."+n] = mm
			case *ssa.Type:
				t := x.Type()
				if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					mm := M{}
					if _, ok := t.Underlying().(*types.Interface); ok {
						continue
					}
					for i := 0; i < ms.Len(); i++ {
						fn := prog.MethodValue(ms.At(i))
						if fn != nil {
							mm[ms.At(i).Obj().Name()] = fname(fn)
						}
					}
					methods[types.TypeString(tt, qual)] = mm
				}
				tid(t)
			}
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		fns = append(fns, dumpFn(f))
		for _, a := range f.AnonFuncs {
			fname(a)
		}
	}
	// All functions with the shape of methods of instantiated generics are reached through calls.
	res["functions"] = fns
	res["globals"] = globals
	res["consts"] = consts
	res["methods"] = methods
	res["types"] = typeTab
	res["errors"] = errs
	res["packages"] = roots
	fh, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriter(fh)
	if err := json.NewEncoder(w).Encode(res); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w.Flush()
	fh.Close()
	fmt.Printf("packages=%d functions=%d errors=%d\n", len(roots), len(fns), len(errs))
}
