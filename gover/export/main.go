// Command export type-checks Go packages from their current source, builds
// their SSA form (golang.org/x/tools/go/ssa) and writes it as JSON. It drops
// nothing: every function body of the requested packages is exported,
// instruction by instruction; any instruction kind it does not know is
// exported under its Go type name, so that the verifier rejects it.
//
// usage: export REPO_DIR OUT.json PKG...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
	ImportMap                     map[string]string
	Error                         *struct{ Err string }
}

type M = map[string]any

var (
	typeTab = map[string]M{}
	fset    = token.NewFileSet()
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "export:", err)
		os.Exit(3)
	}
}

func tid(t types.Type) string {
	if t == nil {
		return "nil"
	}
	t = types.Unalias(t)
	id := types.TypeString(t, nil)
	if tp, ok := t.(*types.TypeParam); ok {
		id = "$" + tp.Obj().Name()
	}
	if _, ok := typeTab[id]; ok {
		return id
	}
	m := M{}
	typeTab[id] = m
	switch t := t.(type) {
	case *types.Basic:
		m["k"] = "basic"
		m["name"] = t.Name()
	case *types.Pointer:
		m["k"] = "ptr"
		m["elem"] = tid(t.Elem())
	case *types.Slice:
		m["k"] = "slice"
		m["elem"] = tid(t.Elem())
	case *types.Array:
		m["k"] = "array"
		m["elem"] = tid(t.Elem())
		m["len"] = t.Len()
	case *types.Map:
		m["k"] = "map"
		m["key"] = tid(t.Key())
		m["elem"] = tid(t.Elem())
	case *types.Chan:
		m["k"] = "chan"
		m["elem"] = tid(t.Elem())
		m["dir"] = int(t.Dir())
	case *types.Named:
		m["k"] = "named"
		m["name"] = t.Obj().Name()
		if t.Obj().Pkg() != nil {
			m["pkg"] = t.Obj().Pkg().Path()
		}
		m["under"] = tid(t.Underlying())
		m["origin"] = types.TypeString(t.Origin(), nil)
		targs := []string{}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			targs = append(targs, tid(t.TypeArgs().At(i)))
		}
		m["targs"] = targs
		tps := []string{}
		for i := 0; i < t.TypeParams().Len(); i++ {
			tps = append(tps, tid(t.TypeParams().At(i)))
		}
		m["tparams"] = tps
	case *types.Struct:
		m["k"] = "struct"
		fs := []M{}
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"name": f.Name(), "type": tid(f.Type()), "emb": f.Embedded(), "tag": t.Tag(i)})
		}
		m["fields"] = fs
	case *types.Interface:
		m["k"] = "iface"
		ms := []string{}
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		m["methods"] = ms
	case *types.Tuple:
		m["k"] = "tuple"
		es := []string{}
		for i := 0; i < t.Len(); i++ {
			es = append(es, tid(t.At(i).Type()))
		}
		m["elems"] = es
	case *types.Signature:
		m["k"] = "func"
	case *types.TypeParam:
		m["k"] = "tparam"
		m["name"] = t.Obj().Name()
	default:
		m["k"] = fmt.Sprintf("%T", t)
	}
	return id
}

// fnName names a function by its origin (for instances of generics).
func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.RelString(nil)
}

func fnRef(f *ssa.Function) M {
	targs := []string{}
	for _, t := range f.TypeArgs() {
		targs = append(targs, tid(t))
	}
	m := M{"k": "fn", "n": fnName(f), "targs": targs, "synth": f.Synthetic, "full": f.RelString(nil)}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		m["pkg"] = f.Origin().Pkg.Pkg.Path()
	}
	want[f] = true
	return m
}

var want = map[*ssa.Function]bool{}

func operand(v ssa.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		m := M{"k": "const", "t": tid(v.Type())}
		if v.Value == nil {
			m["v"] = nil
			m["zero"] = true
		} else {
			switch v.Value.Kind() {
			case constant.Bool:
				m["v"] = constant.BoolVal(v.Value)
			case constant.String:
				m["v"] = constant.StringVal(v.Value)
			default:
				m["v"] = M{"num": v.Value.ExactString()}
			}
		}
		return m
	case *ssa.Function:
		return fnRef(v)
	case *ssa.Global:
		return M{"k": "global", "n": v.RelString(nil), "t": tid(v.Type())}
	case *ssa.Builtin:
		return M{"k": "builtin", "n": v.Name()}
	case *ssa.Parameter:
		return M{"k": "reg", "n": v.Name(), "t": tid(v.Type())}
	case *ssa.FreeVar:
		return M{"k": "reg", "n": v.Name(), "t": tid(v.Type())}
	default:
		return M{"k": "reg", "n": v.Name(), "t": tid(v.Type())}
	}
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func call(c *ssa.CallCommon) M {
	m := M{}
	if c.IsInvoke() {
		m["invoke"] = c.Method.Name()
		m["recv"] = operand(c.Value)
	} else {
		m["fn"] = operand(c.Value)
	}
	args := []any{}
	for _, a := range c.Args {
		args = append(args, operand(a))
	}
	m["args"] = args
	m["sig"] = tid(c.Signature().Results())
	return m
}

func instr(i ssa.Instruction) M {
	m := M{"pos": pos(i.Pos())}
	if v, ok := i.(ssa.Value); ok {
		m["r"] = v.Name()
		m["t"] = tid(v.Type())
		m["nref"] = 0
		if v.Referrers() != nil {
			n := 0
			for _, r := range *v.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					n++
				}
			}
			m["nref"] = n
		}
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		m["op"] = "Alloc"
		m["heap"] = i.Heap
		m["comment"] = i.Comment
	case *ssa.BinOp:
		m["op"] = "BinOp"
		m["tok"] = i.Op.String()
		m["x"] = operand(i.X)
		m["y"] = operand(i.Y)
	case *ssa.UnOp:
		m["op"] = "UnOp"
		m["tok"] = i.Op.String()
		m["x"] = operand(i.X)
		m["commaok"] = i.CommaOk
	case *ssa.Call:
		m["op"] = "Call"
		m["call"] = call(&i.Call)
	case *ssa.Go:
		m["op"] = "Go"
		m["call"] = call(&i.Call)
	case *ssa.Defer:
		m["op"] = "Defer"
		m["call"] = call(&i.Call)
	case *ssa.RunDefers:
		m["op"] = "RunDefers"
	case *ssa.ChangeInterface:
		m["op"] = "ChangeInterface"
		m["x"] = operand(i.X)
	case *ssa.ChangeType:
		m["op"] = "ChangeType"
		m["x"] = operand(i.X)
	case *ssa.Convert:
		m["op"] = "Convert"
		m["x"] = operand(i.X)
	case *ssa.MultiConvert:
		m["op"] = "Convert"
		m["x"] = operand(i.X)
	case *ssa.Extract:
		m["op"] = "Extract"
		m["x"] = operand(i.Tuple)
		m["idx"] = i.Index
	case *ssa.Field:
		m["op"] = "Field"
		m["x"] = operand(i.X)
		m["idx"] = i.Field
	case *ssa.FieldAddr:
		m["op"] = "FieldAddr"
		m["x"] = operand(i.X)
		m["idx"] = i.Field
	case *ssa.If:
		m["op"] = "If"
		m["x"] = operand(i.Cond)
	case *ssa.Index:
		m["op"] = "Index"
		m["x"] = operand(i.X)
		m["i"] = operand(i.Index)
	case *ssa.IndexAddr:
		m["op"] = "IndexAddr"
		m["x"] = operand(i.X)
		m["i"] = operand(i.Index)
	case *ssa.Jump:
		m["op"] = "Jump"
	case *ssa.Lookup:
		m["op"] = "Lookup"
		m["x"] = operand(i.X)
		m["i"] = operand(i.Index)
		m["commaok"] = i.CommaOk
	case *ssa.MakeChan:
		m["op"] = "MakeChan"
		m["size"] = operand(i.Size)
	case *ssa.MakeClosure:
		m["op"] = "MakeClosure"
		m["fn"] = operand(i.Fn)
		bs := []any{}
		for _, b := range i.Bindings {
			bs = append(bs, operand(b))
		}
		m["bind"] = bs
	case *ssa.MakeInterface:
		m["op"] = "MakeInterface"
		m["x"] = operand(i.X)
		m["xt"] = tid(i.X.Type())
	case *ssa.MakeMap:
		m["op"] = "MakeMap"
	case *ssa.MakeSlice:
		m["op"] = "MakeSlice"
		m["len"] = operand(i.Len)
		m["cap"] = operand(i.Cap)
	case *ssa.MapUpdate:
		m["op"] = "MapUpdate"
		m["m"] = operand(i.Map)
		m["key"] = operand(i.Key)
		m["v"] = operand(i.Value)
	case *ssa.Next:
		m["op"] = "Next"
		m["x"] = operand(i.Iter)
		m["str"] = i.IsString
	case *ssa.Panic:
		m["op"] = "Panic"
		m["x"] = operand(i.X)
	case *ssa.Phi:
		m["op"] = "Phi"
		es := []any{}
		for _, e := range i.Edges {
			es = append(es, operand(e))
		}
		m["edges"] = es
		m["comment"] = i.Comment
	case *ssa.Range:
		m["op"] = "Range"
		m["x"] = operand(i.X)
	case *ssa.Return:
		m["op"] = "Return"
		rs := []any{}
		for _, r := range i.Results {
			rs = append(rs, operand(r))
		}
		m["res"] = rs
	case *ssa.Select:
		m["op"] = "Select"
		m["blocking"] = i.Blocking
		ss := []any{}
		for _, s := range i.States {
			ss = append(ss, M{"dir": int(s.Dir), "ch": operand(s.Chan), "send": operand(s.Send)})
		}
		m["states"] = ss
	case *ssa.Send:
		m["op"] = "Send"
		m["ch"] = operand(i.Chan)
		m["x"] = operand(i.X)
	case *ssa.Slice:
		m["op"] = "Slice"
		m["x"] = operand(i.X)
		m["lo"] = operand(i.Low)
		m["hi"] = operand(i.High)
		m["max"] = operand(i.Max)
	case *ssa.Store:
		m["op"] = "Store"
		m["addr"] = operand(i.Addr)
		m["v"] = operand(i.Val)
	case *ssa.TypeAssert:
		m["op"] = "TypeAssert"
		m["x"] = operand(i.X)
		m["at"] = tid(i.AssertedType)
		m["commaok"] = i.CommaOk
	case *ssa.DebugRef:
		m["op"] = "DebugRef"
		m["x"] = operand(i.X)
		m["addr"] = i.IsAddr
		if id, ok := i.Expr.(*ast.Ident); ok {
			m["name"] = id.Name
		}
	default:
		m["op"] = fmt.Sprintf("%T", i)
	}
	return m
}

func function(f *ssa.Function) M {
	m := M{"name": fnName(f), "synth": f.Synthetic, "pos": pos(f.Pos()), "full": f.RelString(nil)}
	if f.Pkg != nil {
		m["pkg"] = f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		m["parent"] = fnName(f.Parent())
	}
	if r := f.Signature.Recv(); r != nil {
		m["recv"] = tid(r.Type())
	}
	tps := []string{}
	for i := 0; i < f.TypeParams().Len(); i++ {
		tps = append(tps, tid(f.TypeParams().At(i)))
	}
	m["tparams"] = tps
	if f.Object() != nil {
		m["exported"] = f.Object().Exported()
		m["oname"] = f.Object().Name()
	}
	ps := []M{}
	for _, p := range f.Params {
		ps = append(ps, M{"n": p.Name(), "t": tid(p.Type())})
	}
	m["params"] = ps
	fvs := []M{}
	for _, p := range f.FreeVars {
		fvs = append(fvs, M{"n": p.Name(), "t": tid(p.Type())})
	}
	m["free"] = fvs
	m["results"] = tid(f.Signature.Results())
	rn := []string{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rn = append(rn, f.Signature.Results().At(i).Name())
	}
	m["resnames"] = rn
	bs := []M{}
	for _, b := range f.Blocks {
		is := []M{}
		for _, i := range b.Instrs {
			is = append(is, instr(i))
		}
		succ, pred := []int{}, []int{}
		for _, s := range b.Succs {
			succ = append(succ, s.Index)
		}
		for _, s := range b.Preds {
			pred = append(pred, s.Index)
		}
		bs = append(bs, M{"i": b.Index, "succ": succ, "pred": pred, "comment": b.Comment, "instrs": is})
	}
	m["blocks"] = bs
	m["recover"] = f.Recover != nil
	return m
}

func main() {
	if len(os.Args) < 4 {
		die(fmt.Errorf("usage: export REPO OUT PKG..."))
	}
	repo, out, roots := os.Args[1], os.Args[2], os.Args[3:]
	cmd := exec.Command("go", append([]string{"list", "-e", "-export", "-deps", "-json"}, roots...)...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	die(err)
	pkgs := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(b))
	var order []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			die(err)
		}
		pkgs[p.ImportPath] = &p
		order = append(order, &p)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	isRoot := map[string]bool{}
	for _, p := range order {
		for _, r := range roots {
			if abs, _ := filepath.Abs(filepath.Join(repo, r)); abs == p.Dir {
				isRoot[p.ImportPath] = true
			}
		}
	}
	res := M{}
	var fns []M
	var prog *ssa.Program
	inits := M{}
	for _, p := range order {
		if !isRoot[p.ImportPath] {
			continue
		}
		if p.Error != nil {
			die(fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err))
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution|parser.ParseComments)
			die(err)
			files = append(files, af)
		}
		tp := types.NewPackage(p.ImportPath, p.Name)
		sp, _, err := ssautil.BuildPackage(&types.Config{Importer: imp, GoVersion: "go1.18"}, fset, tp, files, ssa.GlobalDebug)
		die(err)
		prog = sp.Prog
		_ = prog
		// All functions of the package: members, methods, closures.
		seen := map[*ssa.Function]bool{}
		var add func(f *ssa.Function)
		add = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			fns = append(fns, function(f))
			for _, a := range f.AnonFuncs {
				add(a)
			}
		}
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch mem := sp.Members[n].(type) {
			case *ssa.Function:
				add(mem)
			case *ssa.Type:
				nt, ok := types.Unalias(mem.Type()).(*types.Named)
				if !ok {
					continue
				}
				tid(nt)
				for i := 0; i < nt.NumMethods(); i++ {
					add(sp.Prog.FuncValue(nt.Method(i)))
				}
				if nt.TypeParams().Len() == 0 {
					if _, isI := nt.Underlying().(*types.Interface); isI {
						continue
					}
					for _, t := range []types.Type{nt, types.NewPointer(nt)} {
						tid(t)
						ms := sp.Prog.MethodSets.MethodSet(t)
						mm := M{}
						for i := 0; i < ms.Len(); i++ {
							f := sp.Prog.MethodValue(ms.At(i))
							if f != nil {
								mm[ms.At(i).Obj().Name()] = f.RelString(nil)
								if f.Synthetic != "" && f.Blocks != nil {
									add(f)
								}
							}
						}
						typeTab[tid(t)]["methods"] = mm
					}
				}
			case *ssa.Global:
				inits[mem.RelString(nil)] = M{"t": tid(mem.Type())}
			}
		}
		// instances/wrappers referenced by the package (thunks, instances)
		for changed := true; changed; {
			changed = false
			for f := range want {
				if !seen[f] && f.Synthetic != "" && f.Origin() == nil && f.Blocks != nil && (f.Pkg == sp || f.Pkg == nil) {
					add(f)
					changed = true
				}
			}
		}
	}
	res["functions"] = fns
	res["types"] = typeTab
	res["globals"] = inits
	w, err := os.Create(out)
	die(err)
	enc := json.NewEncoder(w)
	die(enc.Encode(res))
	die(w.Close())
}
