// ssadump loads packages of /repo and writes their go/ssa form as JSON.
// Usage: ssadump -dir /repo -arch amd64 -out x.json patterns...
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type J = map[string]interface{}
type A = []interface{}

var typeIdx = map[string]int{}
var typeTab []J
var sizes types.Sizes
var prog *ssa.Program

func typ(t types.Type) int {
	key := types.TypeString(t, nil)
	if i, ok := typeIdx[key]; ok {
		return i
	}
	i := len(typeTab)
	typeIdx[key] = i
	j := J{"s": key}
	typeTab = append(typeTab, j)
	switch u := t.(type) {
	case *types.Named:
		j["k"] = "named"
		j["u"] = typ(u.Underlying())
		return i
	case *types.Alias:
		j["k"] = "named"
		j["u"] = typ(types.Unalias(u))
		return i
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		j["k"] = "basic"
		j["name"] = u.Name()
		info := u.Info()
		if info&types.IsInteger != 0 && info&types.IsUntyped == 0 && u.Kind() != types.UnsafePointer {
			j["int"] = sizes.Sizeof(u) * 8
			j["uns"] = info&types.IsUnsigned != 0
		}
	case *types.Pointer:
		j["k"] = "ptr"
		j["e"] = typ(u.Elem())
	case *types.Slice:
		j["k"] = "slice"
		j["e"] = typ(u.Elem())
	case *types.Array:
		j["k"] = "array"
		j["e"] = typ(u.Elem())
		j["n"] = u.Len()
	case *types.Struct:
		j["k"] = "struct"
		fs := A{}
		ns := A{}
		for k := 0; k < u.NumFields(); k++ {
			fs = append(fs, typ(u.Field(k).Type()))
			ns = append(ns, u.Field(k).Name())
		}
		j["f"] = fs
		j["fn"] = ns
	case *types.Map:
		j["k"] = "map"
		j["key"] = typ(u.Key())
		j["e"] = typ(u.Elem())
	case *types.Interface:
		j["k"] = "iface"
	case *types.Signature:
		j["k"] = "func"
	case *types.Tuple:
		j["k"] = "tuple"
		fs := A{}
		for k := 0; k < u.Len(); k++ {
			fs = append(fs, typ(u.At(k).Type()))
		}
		j["f"] = fs
	case *types.Chan:
		j["k"] = "chan"
	default:
		j["k"] = "other"
	}
	return i
}

var todo []*ssa.Function
var seen = map[*ssa.Function]bool{}
var bodyPkgs = map[string]bool{}

func fnName(f *ssa.Function) string {
	return f.RelString(nil)
}

func want(f *ssa.Function) {
	if !seen[f] {
		seen[f] = true
		todo = append(todo, f)
	}
}

type fctx struct {
	ids map[ssa.Value]string
	n   int
}

func (c *fctx) val(v ssa.Value) interface{} {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		j := J{"t": typ(v.Type())}
		if v.Value == nil {
			j["zero"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				j["b"] = constant.BoolVal(v.Value)
			case constant.String:
				j["str"] = []byte(constant.StringVal(v.Value))
			case constant.Int:
				j["i"] = v.Value.ExactString()
			case constant.Float:
				if iv := constant.ToInt(v.Value); iv.Kind() == constant.Int {
					j["i"] = iv.ExactString()
				} else {
					j["fl"] = v.Value.ExactString()
				}
			default:
				j["fl"] = v.Value.ExactString()
			}
		}
		return j
	case *ssa.Function:
		want(v)
		return J{"fn": fnName(v)}
	case *ssa.Global:
		return J{"g": v.RelString(nil)}
	case *ssa.Builtin:
		return J{"bi": v.Name()}
	}
	if s, ok := c.ids[v]; ok {
		return s
	}
	c.n++
	s := fmt.Sprintf("v%d", c.n)
	c.ids[v] = s
	return s
}

func (c *fctx) call(cc *ssa.CallCommon) J {
	args := A{}
	for _, a := range cc.Args {
		args = append(args, c.val(a))
	}
	j := J{"args": args}
	if cc.IsInvoke() {
		j["invoke"] = cc.Method.Name()
		j["recv"] = c.val(cc.Value)
	} else {
		j["f"] = c.val(cc.Value)
	}
	return j
}

func dumpFn(f *ssa.Function) J {
	c := &fctx{ids: map[ssa.Value]string{}}
	j := J{"name": fnName(f)}
	if f.Pkg != nil {
		j["pkg"] = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		j["pkg"] = f.Object().Pkg().Path()
	}
	j["sig"] = f.Signature.String()
	rs := A{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, typ(f.Signature.Results().At(i).Type()))
	}
	j["results"] = rs
	ps := A{}
	pt := A{}
	for _, p := range f.Params {
		ps = append(ps, c.val(p))
		pt = append(pt, typ(p.Type()))
	}
	j["params"] = ps
	j["ptypes"] = pt
	fv := A{}
	for _, p := range f.FreeVars {
		fv = append(fv, c.val(p))
	}
	j["freevars"] = fv
	if f.Parent() != nil {
		j["parent"] = fnName(f.Parent())
	}
	path, _ := j["pkg"].(string)
	pos := prog.Fset.Position(f.Pos())
	j["pos"] = fmt.Sprintf("%s:%d", pos.Filename, pos.Line)
	if len(f.Blocks) == 0 || (!bodyPkgs[path] && f.Synthetic == "") {
		j["external"] = true
		return j
	}
	blocks := A{}
	for _, b := range f.Blocks {
		is := A{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ij := instr(c, in)
			if p := prog.Fset.Position(in.Pos()); p.IsValid() {
				ij["ln"] = p.Line
			}
			is = append(is, ij)
		}
		ss := A{}
		for _, s := range b.Succs {
			ss = append(ss, s.Index)
		}
		pp := A{}
		for _, s := range b.Preds {
			pp = append(pp, s.Index)
		}
		blocks = append(blocks, J{"i": is, "s": ss, "p": pp})
	}
	j["blocks"] = blocks
	if f.Recover != nil {
		j["recover"] = f.Recover.Index
	}
	return j
}

func instr(c *fctx, in ssa.Instruction) J {
	j := J{}
	if v, ok := in.(ssa.Value); ok {
		j["r"] = c.val(v)
		j["t"] = typ(v.Type())
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		j["o"] = "alloc"
		j["e"] = typ(in.Type().Underlying().(*types.Pointer).Elem())
		j["heap"] = in.Heap
		j["c"] = in.Comment
	case *ssa.Phi:
		j["o"] = "phi"
		es := A{}
		for _, e := range in.Edges {
			es = append(es, c.val(e))
		}
		j["x"] = es
	case *ssa.Call:
		j["o"] = "call"
		j["call"] = c.call(&in.Call)
	case *ssa.BinOp:
		j["o"] = "bin"
		j["op"] = in.Op.String()
		j["x"] = c.val(in.X)
		j["y"] = c.val(in.Y)
		j["xt"] = typ(in.X.Type())
		j["yt"] = typ(in.Y.Type())
	case *ssa.UnOp:
		if in.Op == token.MUL {
			j["o"] = "load"
		} else {
			j["o"] = "un"
			j["op"] = in.Op.String()
			j["xt"] = typ(in.X.Type())
			j["commaok"] = in.CommaOk
		}
		j["x"] = c.val(in.X)
	case *ssa.ChangeType:
		j["o"] = "chtype"
		j["x"] = c.val(in.X)
	case *ssa.Convert:
		j["o"] = "conv"
		j["x"] = c.val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.MultiConvert:
		j["o"] = "conv"
		j["x"] = c.val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.ChangeInterface:
		j["o"] = "chtype"
		j["x"] = c.val(in.X)
	case *ssa.SliceToArrayPointer:
		j["o"] = "s2ap"
		j["x"] = c.val(in.X)
	case *ssa.MakeInterface:
		j["o"] = "mkiface"
		j["x"] = c.val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.MakeClosure:
		j["o"] = "mkclosure"
		j["f"] = c.val(in.Fn)
		bs := A{}
		for _, b := range in.Bindings {
			bs = append(bs, c.val(b))
		}
		j["b"] = bs
	case *ssa.MakeSlice:
		j["o"] = "mkslice"
		j["len"] = c.val(in.Len)
		j["cap"] = c.val(in.Cap)
	case *ssa.MakeMap:
		j["o"] = "mkmap"
	case *ssa.MakeChan:
		j["o"] = "mkchan"
	case *ssa.Slice:
		j["o"] = "slice"
		j["x"] = c.val(in.X)
		j["xt"] = typ(in.X.Type())
		j["lo"] = c.val(in.Low)
		j["hi"] = c.val(in.High)
		j["max"] = c.val(in.Max)
	case *ssa.FieldAddr:
		j["o"] = "faddr"
		j["x"] = c.val(in.X)
		j["i"] = in.Field
	case *ssa.Field:
		j["o"] = "field"
		j["x"] = c.val(in.X)
		j["i"] = in.Field
	case *ssa.IndexAddr:
		j["o"] = "iaddr"
		j["x"] = c.val(in.X)
		j["xt"] = typ(in.X.Type())
		j["i"] = c.val(in.Index)
	case *ssa.Index:
		j["o"] = "index"
		j["x"] = c.val(in.X)
		j["xt"] = typ(in.X.Type())
		j["i"] = c.val(in.Index)
	case *ssa.Lookup:
		j["o"] = "lookup"
		j["x"] = c.val(in.X)
		j["xt"] = typ(in.X.Type())
		j["i"] = c.val(in.Index)
		j["commaok"] = in.CommaOk
	case *ssa.MapUpdate:
		j["o"] = "mapupd"
		j["x"] = c.val(in.Map)
		j["k"] = c.val(in.Key)
		j["v"] = c.val(in.Value)
	case *ssa.Range:
		j["o"] = "range"
		j["x"] = c.val(in.X)
		j["xt"] = typ(in.X.Type())
	case *ssa.Next:
		j["o"] = "next"
		j["x"] = c.val(in.Iter)
		j["str"] = in.IsString
	case *ssa.Extract:
		j["o"] = "extract"
		j["x"] = c.val(in.Tuple)
		j["i"] = in.Index
	case *ssa.TypeAssert:
		j["o"] = "tassert"
		j["x"] = c.val(in.X)
		j["at"] = typ(in.AssertedType)
		j["commaok"] = in.CommaOk
	case *ssa.Jump:
		j["o"] = "jump"
	case *ssa.If:
		j["o"] = "if"
		j["x"] = c.val(in.Cond)
	case *ssa.Return:
		j["o"] = "ret"
		rs := A{}
		for _, r := range in.Results {
			rs = append(rs, c.val(r))
		}
		j["x"] = rs
	case *ssa.Panic:
		j["o"] = "panic"
		j["x"] = c.val(in.X)
	case *ssa.Store:
		j["o"] = "store"
		j["x"] = c.val(in.Addr)
		j["v"] = c.val(in.Val)
	case *ssa.Defer:
		j["o"] = "defer"
		j["call"] = c.call(&in.Call)
	case *ssa.RunDefers:
		j["o"] = "rundefers"
	case *ssa.Go:
		j["o"] = "go"
		j["call"] = c.call(&in.Call)
	case *ssa.Send:
		j["o"] = "send"
		j["x"] = c.val(in.Chan)
		j["v"] = c.val(in.X)
	case *ssa.Select:
		j["o"] = "select"
	default:
		j["o"] = "unknown"
		j["d"] = in.String()
	}
	return j
}

func main() {
	dir := flag.String("dir", "/repo", "")
	arch := flag.String("arch", "amd64", "")
	out := flag.String("out", "", "")
	bodies := flag.String("bodies", "", "comma separated extra packages whose bodies are dumped")
	flag.Parse()
	env := append(os.Environ(), "GOARCH="+*arch, "GOOS=linux")
	if *arch != "amd64" {
		env = append(env, "CGO_ENABLED=0")
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: *dir, Env: env, Tests: false,
	}
	pats := append([]string{}, flag.Args()...)
	extra := []string{}
	for _, b := range strings.Split(*bodies, ",") {
		if b != "" {
			extra = append(extra, b)
		}
	}
	initial, err := packages.Load(cfg, append(pats, extra...)...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	bad := false
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "error:", p.PkgPath, e)
			if len(p.Syntax) > 0 && p.Module != nil {
				bad = true
			}
		}
	})
	if bad {
		os.Exit(2)
	}
	var spkgs []*ssa.Package
	prog, spkgs = ssautil.Packages(initial, ssa.InstantiateGenerics)
	for _, p := range initial {
		bodyPkgs[p.PkgPath] = true
		if sizes == nil {
			sizes = p.TypesSizes
		}
	}
	prog.Build()
	pk := A{}
	main := map[string]bool{}
	for i, p := range initial {
		isMain := p.Module != nil
		if isMain {
			main[p.PkgPath] = true
		}
		sp := spkgs[i]
		if sp == nil {
			continue
		}
		gl := A{}
		fns := A{}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Global:
				gl = append(gl, J{"n": m.RelString(nil), "t": typ(m.Type().(*types.Pointer).Elem())})
			case *ssa.Function:
				if isMain {
					want(m)
					fns = append(fns, fnName(m))
				}
			case *ssa.Type:
				if !isMain {
					continue
				}
				ty := m.Type()
				typ(ty)
				for _, t := range []types.Type{ty, types.NewPointer(ty)} {
					ms := prog.MethodSets.MethodSet(t)
					for k := 0; k < ms.Len(); k++ {
						if f := prog.MethodValue(ms.At(k)); f != nil {
							want(f)
							fns = append(fns, fnName(f))
						}
					}
				}
			}
		}
		imps := A{}
		for ip := range p.Imports {
			imps = append(imps, ip)
		}
		pk = append(pk, J{"path": p.PkgPath, "main": isMain, "globals": gl, "fns": fns, "imports": imps, "files": p.CompiledGoFiles, "other": p.OtherFiles})
	}
	fj := A{}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		fj = append(fj, dumpFn(f))
	}
	// method tables for interface dispatch on named types of dumped packages
	w, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	bw := bufio.NewWriter(w)
	enc := json.NewEncoder(bw)
	if err := enc.Encode(J{"arch": *arch, "types": typeTab, "pkgs": pk, "funcs": fj}); err != nil {
		panic(err)
	}
	bw.Flush()
	w.Close()
}
