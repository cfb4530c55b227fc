// Package checks holds the rules that are specific to this code base.
package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Mod is the module under analysis.
const Mod = "github.com/snivilised/agenor"

// World is the resolved program.
type World struct {
	Dir   string
	Pkgs  []*packages.Package
	ByRel map[string]*packages.Package
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	all   map[*ssa.Function]bool
	srcs  []*ssa.Function

	errGlobals map[*ssa.Global]bool
	implCache  map[string]types.Type
}

// Load type checks the module and builds its SSA form, and that of everything
// it depends upon.
func Load(dir string) (*World, error) { return load(dir, nil, "./...") }

func load(dir string, overlay map[string][]byte, patterns ...string) (*World, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env, Tests: false, Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var bad []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("the source does not type check: %s", bad[0])
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{Dir: dir, Pkgs: pkgs, Prog: prog, ByRel: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{},
		implCache: map[string]types.Type{}}
	for _, p := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, Mod), "/")
		w.ByRel[rel] = p
		if sp := prog.Package(p.Types); sp != nil {
			w.SSA[rel] = sp
		}
	}
	w.all = ssautil.AllFunctions(prog)
	for fn := range w.all {
		if w.InModule(fn) && fn.Blocks != nil && fn.Synthetic == "" {
			w.srcs = append(w.srcs, fn)
		}
	}
	sort.Slice(w.srcs, func(i, j int) bool {
		a, b := w.srcs[i], w.srcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	w.findErrGlobals()
	return w, nil
}

// Product says whether a package is part of the delivered library.
func Product(path string) bool {
	if path != Mod && !strings.HasPrefix(path, Mod+"/") {
		return false
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(path, Mod), "/")
	for _, s := range []string{"test", "examples", "internal/laboratory", "lab", "scripts", "tapable/internal"} {
		if rel == s || strings.HasPrefix(rel, s+"/") {
			return false
		}
	}
	return !strings.HasSuffix(rel, "_test")
}

// PkgOf is the package a function's source belongs to.
func PkgOf(fn *ssa.Function) *types.Package {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg()
	}
	return nil
}

// InModule says whether the function belongs to the library.
func (w *World) InModule(fn *ssa.Function) bool {
	if p := PkgOf(fn); p != nil {
		return Product(p.Path())
	}
	if fn.Synthetic != "" {
		// wrappers and bound methods of module types
		return true
	}
	return false
}

func (w *World) pkg(rel string) *ssa.Package {
	p := w.SSA[rel]
	if p == nil {
		panic(Missing("package " + rel))
	}
	return p
}

// Missing is the panic value for an anchor that is not there.
type Missing string

// Fn finds a package level function.
func (w *World) Fn(rel, name string) *ssa.Function {
	f := w.pkg(rel).Func(name)
	if f == nil {
		panic(Missing("function " + rel + "." + name))
	}
	return f
}

// Named finds a type.
func (w *World) Named(rel, name string) *types.Named {
	o := w.pkg(rel).Pkg.Scope().Lookup(name)
	if o == nil {
		panic(Missing("type " + rel + "." + name))
	}
	n, ok := types.Unalias(o.Type()).(*types.Named)
	if !ok {
		panic(Missing("named type " + rel + "." + name))
	}
	return n
}

// Type finds a type or alias.
func (w *World) Type(rel, name string) types.Type {
	o := w.pkg(rel).Pkg.Scope().Lookup(name)
	if o == nil {
		panic(Missing("type " + rel + "." + name))
	}
	return o.Type()
}

// MethodOf finds the implementation of a method on a type (promoted ones too).
func (w *World) MethodOf(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	base := t
	if p, ok := t.(*types.Pointer); ok {
		base = p.Elem()
	}
	if n, ok := types.Unalias(base).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	if o, _, _ := types.LookupFieldOrMethod(t, true, pkg, name); o != nil {
		if fo, ok := o.(*types.Func); ok {
			if f := w.Prog.LookupMethod(t, fo.Pkg(), name); f != nil {
				return f
			}
		}
	}
	panic(Missing("method " + t.String() + "." + name))
}

// Method finds a method of *T.
func (w *World) Method(rel, typ, name string) *ssa.Function {
	return w.MethodOf(types.NewPointer(w.Named(rel, typ)), name)
}

// Const finds a constant.
func (w *World) Const(rel, name string) engine.Val {
	c, ok := w.pkg(rel).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(Missing("constant " + rel + "." + name))
	}
	return &engine.Const{V: c.Val(), T: c.Type()}
}

// EnumConsts lists the constants of a named type in order of value.
func (w *World) EnumConsts(rel, typ string) []*types.Const {
	n := w.Named(rel, typ)
	var out []*types.Const
	sc := w.pkg(rel).Pkg.Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			out = append(out, c)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, _ := constant.Int64Val(constant.ToInt(out[i].Val()))
		b, _ := constant.Int64Val(constant.ToInt(out[j].Val()))
		return a < b
	})
	return out
}

// Global finds a package level variable.
func (w *World) Global(rel, name string) *ssa.Global {
	g := w.pkg(rel).Var(name)
	if g == nil {
		panic(Missing("variable " + rel + "." + name))
	}
	return g
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.Prog.Fset.Position(p)
	if r, err := filepath.Rel(w.Dir, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		ps.Filename = r
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// InstrPos finds a position for an instruction.
func (w *World) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if p := in.Pos(); p.IsValid() {
		return w.Pos(p)
	}
	b := in.Block()
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			return w.Pos(p)
		}
	}
	return w.Pos(in.Parent().Pos())
}

// Srcs are the library's functions.
func (w *World) Srcs() []*ssa.Function { return w.srcs }

// findErrGlobals: package level variables that are only written by the
// package initialiser, with values that cannot be nil.
func (w *World) findErrGlobals() {
	w.errGlobals = map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	for fn := range w.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if !(fn.Name() == "init" && fn.Synthetic != "") {
					bad[g] = true
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.Slice, *ssa.FieldAddr:
					w.errGlobals[g] = true
				case *ssa.Call:
					if c := v.Call.StaticCallee(); c != nil && alwaysNonNil(c, 0) {
						w.errGlobals[g] = true
						if n := engine.FuncName(c); n == "errors.New" || n == "github.com/pkg/errors.New" {
							engine.Sentinels["g:"+g.String()] = true
						}
					} else {
						bad[g] = true
					}
				default:
					bad[g] = true
				}
			}
		}
	}
	for g := range bad {
		delete(w.errGlobals, g)
		delete(engine.Sentinels, "g:"+g.String())
	}
}

func alwaysNonNil(fn *ssa.Function, depth int) bool {
	switch engine.FuncName(fn) {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "regexp.MustCompile":
		return true
	}
	if depth > 4 || fn.Blocks == nil {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n++
		if len(r.Results) != 1 {
			return false
		}
		switch v := r.Results[0].(type) {
		case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure:
		case *ssa.Call:
			if c := v.Call.StaticCallee(); c == nil || !alwaysNonNil(c, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

// Machine makes an interpreter that inlines the library's own functions.
func (w *World) Machine() *engine.Machine {
	m := engine.New(w.Prog)
	m.Inline = func(fn *ssa.Function) bool { return w.InModule(fn) }
	m.SetGlobals(w.errGlobals)
	m.Devirt = w.Unique
	return m
}

// Unique gives the only type of the library that implements an interface of
// the library that clients cannot implement.
func (w *World) Unique(t types.Type) types.Type {
	k := types.TypeString(t, nil)
	if v, ok := w.implCache[k]; ok {
		return v
	}
	w.implCache[k] = nil
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !Product(n.Obj().Pkg().Path()) {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || n.TypeArgs() != nil || it.NumMethods() == 0 {
		return nil
	}
	internal := strings.Contains(n.Obj().Pkg().Path(), "/internal/") || !n.Obj().Exported()
	if !internal {
		return nil
	}
	c := w.Implementers(it)
	if len(c) == 1 {
		w.implCache[k] = c[0]
		return c[0]
	}
	return nil
}

// Implementers lists the library's types that implement an interface.
func (w *World) Implementers(it *types.Interface) []types.Type {
	var out []types.Type
	var rels []string
	for rel := range w.SSA {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		p := w.SSA[rel]
		if !Product(p.Pkg.Path()) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(nt, it) {
				out = append(out, nt)
			} else if p := types.NewPointer(nt); types.Implements(p, it) {
				out = append(out, p)
			}
		}
	}
	return out
}

// Instances lists the instantiations of a generic function or method.
func (w *World) Instances(match func(*ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for fn := range w.all {
		if fn.Origin() != nil && fn.Synthetic == "" || fn.Origin() != nil {
			if match(fn.Origin()) && fn.Blocks != nil {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// Functions names the functions of the library.
func (w *World) Functions() []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range w.srcs {
		if n := engine.FuncName(f); !seen[n] && f.Name() != "init" {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}
