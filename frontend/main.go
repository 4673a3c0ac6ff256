// ssadump: mechanical extraction of the functions of a Go module as typed SSA
// (golang.org/x/tools/go/ssa) in JSON.  Nothing is rewritten: every instruction
// of every function that is reachable from the listed packages is emitted.
// Dropped: debug references, source comments.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type M = map[string]any

var (
	typeIDs  = map[string]int{}
	typeList []M
	prog     *ssa.Program
	modpath  string
	fset     *token.FileSet
	root     string
)

func short(s string) string { return strings.ReplaceAll(s, modpath+"/", "") }

func typeID(t types.Type) int {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if id, ok := typeIDs[key]; ok {
		return id
	}
	id := len(typeList)
	typeIDs[key] = id
	typeList = append(typeList, nil)
	m := M{"name": short(key)}
	if n, ok := t.(*types.Named); ok {
		m["named"] = short(n.Obj().Name())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			m["k"] = "bool"
		case info&types.IsInteger != 0:
			m["k"] = "int"
			w := 64
			switch u.Kind() {
			case types.Int8, types.Uint8:
				w = 8
			case types.Int16, types.Uint16:
				w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				w = 32
			}
			m["w"] = w
			m["s"] = info&types.IsUnsigned == 0
		case info&types.IsFloat != 0:
			m["k"] = "float"
			if u.Kind() == types.Float32 {
				m["w"] = 32
			} else {
				m["w"] = 64
			}
		case info&types.IsString != 0:
			m["k"] = "string"
		case u.Kind() == types.UnsafePointer:
			m["k"] = "unsafe"
		case u.Kind() == types.UntypedNil:
			m["k"] = "nil"
		default:
			m["k"] = "other"
		}
	case *types.Pointer:
		m["k"] = "ptr"
		m["e"] = typeID(u.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["e"] = typeID(u.Elem())
	case *types.Array:
		m["k"] = "array"
		m["n"] = u.Len()
		m["e"] = typeID(u.Elem())
	case *types.Struct:
		m["k"] = "struct"
		fs := []any{}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, []any{u.Field(i).Name(), typeID(u.Field(i).Type())})
		}
		m["f"] = fs
	case *types.Interface:
		m["k"] = "iface"
	case *types.Signature:
		m["k"] = "func"
		ps, rs := []int{}, []int{}
		for i := 0; i < u.Params().Len(); i++ {
			ps = append(ps, typeID(u.Params().At(i).Type()))
		}
		for i := 0; i < u.Results().Len(); i++ {
			rs = append(rs, typeID(u.Results().At(i).Type()))
		}
		m["ps"], m["rs"] = ps, rs
	case *types.Map:
		m["k"] = "map"
		m["key"] = typeID(u.Key())
		m["e"] = typeID(u.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["e"] = typeID(u.Elem())
	case *types.Tuple:
		m["k"] = "tuple"
		es := []int{}
		for i := 0; i < u.Len(); i++ {
			es = append(es, typeID(u.At(i).Type()))
		}
		m["es"] = es
	default:
		m["k"] = "other"
	}
	typeList[id] = m
	return id
}

func constVal(c *ssa.Const) M {
	m := M{"k": "c", "t": typeID(c.Type())}
	if c.Value == nil {
		m["v"] = nil
		return m
	}
	ut := c.Type().Underlying()
	b, ok := ut.(*types.Basic)
	if !ok {
		m["v"] = c.Value.ExactString()
		return m
	}
	info := b.Info()
	switch {
	case info&types.IsBoolean != 0:
		m["v"] = constant.BoolVal(c.Value)
	case info&types.IsInteger != 0:
		m["v"] = constant.ToInt(c.Value).ExactString()
	case info&types.IsFloat != 0:
		f := constant.ToFloat(c.Value)
		if b.Kind() == types.Float32 {
			v, _ := constant.Float32Val(f)
			m["v"] = fmt.Sprintf("%d", math.Float32bits(v))
		} else {
			v, _ := constant.Float64Val(f)
			m["v"] = fmt.Sprintf("%d", math.Float64bits(v))
		}
	case info&types.IsString != 0:
		m["v"] = constant.StringVal(c.Value)
	default:
		m["v"] = c.Value.ExactString()
	}
	return m
}

var wantFns = map[*ssa.Function]bool{}
var queue []*ssa.Function

func want(f *ssa.Function) {
	if !wantFns[f] {
		wantFns[f] = true
		queue = append(queue, f)
	}
}

func fname(f *ssa.Function) string { return short(f.String()) }

func val(v ssa.Value) any {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		want(x)
		return M{"k": "f", "n": fname(x)}
	case *ssa.Builtin:
		return M{"k": "b", "n": x.Name()}
	case *ssa.Global:
		return M{"k": "g", "n": short(x.String()), "t": typeID(x.Type())}
	}
	return M{"k": "r", "n": v.Name()}
}
func vals(vs []ssa.Value) []any {
	r := []any{}
	for _, v := range vs {
		r = append(r, val(v))
	}
	return r
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	f := strings.TrimPrefix(q.Filename, root+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func call(c *ssa.CallCommon, m M) {
	m["args"] = vals(c.Args)
	if c.IsInvoke() {
		m["recv"] = val(c.Value)
		m["method"] = c.Method.Name()
		m["rt"] = typeID(c.Value.Type())
	} else {
		m["fn"] = val(c.Value)
	}
	m["sig"] = typeID(c.Signature().Results())
}

func instr(in ssa.Instruction) M {
	m := M{}
	if v, ok := in.(ssa.Value); ok {
		m["n"] = v.Name()
		m["t"] = typeID(v.Type())
	}
	if p := pos(in.Pos()); p != "" {
		m["pos"] = p
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = x.Heap
		m["cm"] = x.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["y"] = val(x.Y)
		m["xt"] = typeID(x.X.Type())
		m["yt"] = typeID(x.Y.Type())
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["o"] = x.Op.String()
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
		m["ok"] = x.CommaOk
	case *ssa.Call:
		m["op"] = "Call"
		call(&x.Call, m)
	case *ssa.Go:
		m["op"] = "Go"
		call(&x.Call, m)
	case *ssa.Defer:
		m["op"] = "Defer"
		call(&x.Call, m)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = val(x.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
	case *ssa.MultiConvert:
		m["op"] = "MultiConvert"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = val(x.Tuple)
		m["i"] = x.Index
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = val(x.X)
		m["i"] = x.Field
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = val(x.X)
		m["i"] = x.Field
	case *ssa.If:
		m["op"] = "If"
		m["x"] = val(x.Cond)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Index:
		m["op"] = "Index"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
		m["xt"] = typeID(x.X.Type())
		m["it"] = typeID(x.Index.Type())
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
		m["xt"] = typeID(x.X.Type())
		m["it"] = typeID(x.Index.Type())
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"] = val(x.X)
		m["i"] = val(x.Index)
		m["ok"] = x.CommaOk
		m["xt"] = typeID(x.X.Type())
	case *ssa.MakeChan:
		m["op"] = "MakeChan"
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = val(x.Fn)
		m["b"] = vals(x.Bindings)
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"] = val(x.Len)
		m["cap"] = val(x.Cap)
		m["lt"] = typeID(x.Len.Type())
		m["ct"] = typeID(x.Cap.Type())
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["x"] = val(x.Map)
		m["i"] = val(x.Key)
		m["v"] = val(x.Value)
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = val(x.Iter)
		m["str"] = x.IsString
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = val(x.X)
	case *ssa.Phi:
		m["op"] = "Phi"
		m["e"] = vals(x.Edges)
		m["cm"] = x.Comment
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = val(x.X)
	case *ssa.Return:
		m["op"] = "Return"
		m["r"] = vals(x.Results)
	case *ssa.Select:
		m["op"] = "Select"
	case *ssa.Send:
		m["op"] = "Send"
		m["x"] = val(x.Chan)
		m["v"] = val(x.X)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = val(x.X)
		m["xt"] = typeID(x.X.Type())
		m["lo"] = val(x.Low)
		m["hi"] = val(x.High)
		m["max"] = val(x.Max)
		if x.Low != nil {
			m["lot"] = typeID(x.Low.Type())
		}
		if x.High != nil {
			m["hit"] = typeID(x.High.Type())
		}
	case *ssa.SliceToArrayPointer:
		m["op"] = "SliceToArrayPointer"
	case *ssa.Store:
		m["op"] = "Store"
		m["x"] = val(x.Addr)
		m["v"] = val(x.Val)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = val(x.X)
		m["at"] = typeID(x.AssertedType)
		m["ok"] = x.CommaOk
	default:
		m["op"] = fmt.Sprintf("%T", in)
	}
	return m
}

func dumpFn(f *ssa.Function) M {
	m := M{"name": fname(f), "pos": pos(f.Pos())}
	if f.Pkg != nil {
		m["pkg"] = short(f.Pkg.Pkg.Path())
	}
	if f.Synthetic != "" {
		m["syn"] = f.Synthetic
	}
	ps := []any{}
	for _, p := range f.Params {
		ps = append(ps, []any{p.Name(), typeID(p.Type())})
	}
	m["params"] = ps
	fv := []any{}
	for _, p := range f.FreeVars {
		fv = append(fv, []any{p.Name(), typeID(p.Type())})
	}
	m["free"] = fv
	rs := []int{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, typeID(f.Signature.Results().At(i).Type()))
	}
	m["results"] = rs
	m["recover"] = f.Recover != nil
	bl := []any{}
	for _, b := range f.Blocks {
		bm := M{"i": b.Index, "cm": b.Comment}
		su, pr := []int{}, []int{}
		for _, s := range b.Succs {
			su = append(su, s.Index)
		}
		for _, s := range b.Preds {
			pr = append(pr, s.Index)
		}
		bm["s"] = su
		bm["p"] = pr
		is := []any{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			is = append(is, instr(in))
		}
		bm["ins"] = is
		bl = append(bl, bm)
	}
	m["blocks"] = bl
	return m
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: ssadump DIR OUT.json [patterns...]")
		os.Exit(2)
	}
	root = os.Args[1]
	pats := os.Args[3:]
	if len(pats) == 0 {
		pats = []string{"./..."}
	}
	fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root, Fset: fset, Env: os.Environ()}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if packages.PrintErrors(pk) > 0 {
		os.Exit(2)
	}
	if len(pk) > 0 && pk[0].Module != nil {
		modpath = pk[0].Module.Path
	}
	var pkgs []*ssa.Package
	prog, pkgs = ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	inMod := func(p *types.Package) bool {
		return p != nil && (p.Path() == modpath || strings.HasPrefix(p.Path(), modpath+"/"))
	}
	_ = pkgs
	methods := M{}
	for f := range ssautil.AllFunctions(prog) {
		var p *types.Package
		if f.Pkg != nil {
			p = f.Pkg.Pkg
		} else if f.Object() != nil {
			p = f.Object().Pkg()
		} else if f.Origin() != nil && f.Origin().Object() != nil {
			p = f.Origin().Object().Pkg()
		}
		if inMod(p) && f.TypeParams().Len() == len(f.TypeArgs()) {
			want(f)
		}
	}
	// method sets of module types
	for _, p := range prog.AllPackages() {
		if !inMod(p.Pkg) {
			continue
		}
		for _, mem := range p.Members {
			t, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 || types.IsInterface(n) {
				continue
			}
			for _, tt := range []types.Type{n, types.NewPointer(n)} {
				ms := prog.MethodSets.MethodSet(tt)
				mm := M{}
				for i := 0; i < ms.Len(); i++ {
					fn := prog.MethodValue(ms.At(i))
					if fn == nil {
						continue
					}
					want(fn)
					mm[ms.At(i).Obj().Name()] = fname(fn)
				}
				methods[short(types.TypeString(tt, nil))] = mm
			}
		}
	}
	fns := M{}
	ext := []string{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		var p *types.Package
		if f.Pkg != nil {
			p = f.Pkg.Pkg
		} else if f.Origin() != nil && f.Origin().Pkg != nil {
			p = f.Origin().Pkg.Pkg
		} else if f.Object() != nil {
			p = f.Object().Pkg()
		}
		keep := inMod(p) || f.Pkg == nil || (p != nil && (p.Path() == "math/bits" || p.Path() == "bytes" || p.Path() == "encoding/binary" || p.Path() == "slices" || p.Path() == "cmp"))
		if !keep || len(f.Blocks) == 0 {
			ext = append(ext, fname(f))
			continue
		}
		fns[fname(f)] = dumpFn(f)
	}
	sort.Strings(ext)
	globs := M{}
	for _, p := range prog.AllPackages() {
		if !inMod(p.Pkg) {
			continue
		}
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				globs[short(g.String())] = typeID(g.Type().(*types.Pointer).Elem())
			}
		}
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriter(out)
	// named struct types of the module, so that contracts can look them up
	tn := M{}
	for _, p := range prog.AllPackages() {
		if !inMod(p.Pkg) {
			continue
		}
		for _, nm := range p.Pkg.Scope().Names() {
			if o, ok := p.Pkg.Scope().Lookup(nm).(*types.TypeName); ok {
				if n, ok := o.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				tn[short(types.TypeString(o.Type(), nil))] = typeID(o.Type())
			}
		}
	}
	for _, b := range types.Typ {
		tn[b.Name()] = typeID(b)
	}
	enc := json.NewEncoder(w)
	if err := enc.Encode(M{"types": typeList, "funcs": fns, "ext": ext, "globals": globs, "methods": methods, "typenames": tn, "mod": modpath}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w.Flush()
	out.Close()
}
