package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P33", Min: 40,
		Rule: "every access that abstract paths of sessions make to what package level variables lead to, and every instruction of the library that writes there: what is written after initialisation is guarded by one shared lock",
		Run:  runP33})
}

// access is how a session uses something that other sessions can get at.
type access struct {
	loc   string
	write bool
	locks []string // held, with "!" when exclusively
	at    string
	how   string
}

func runP33(c *C) {
	c.sharedWrites()
	c.sharedAccess()
}

// ---- what sessions do ---------------------------------------------------------

func (c *C) sharedAccess() {
	w := c.W
	uintT := types.Typ[types.Uint]
	old := engine.Generations
	engine.Generations = 40
	defer func() { engine.Generations = old }()
	g := grove{"": {"f1", "d1"}, "d1": {"f2"}}
	type mode struct {
		sub, resume                             string
		run, filter, sampling, hib, child, stop bool
		bare                                    bool // the hooks are the library's own
		broken                                  bool // it can't be built
		twice                                   bool // after a session just like it
	}
	var modes []mode
	for _, sub := range Subscriptions {
		modes = append(modes, mode{sub: sub, twice: sub == "SubscribeUniversal"}, mode{sub: sub, filter: true, stop: true})
	}
	modes = append(modes, mode{sub: "SubscribeUniversal", run: true, twice: true},
		mode{sub: "SubscribeUniversal", sampling: true, twice: true},
		mode{sub: "SubscribeUniversal", hib: true},
		mode{sub: "SubscribeDirectoriesWithFiles", child: true},
		mode{sub: "SubscribeUniversal", bare: true},
		mode{sub: "SubscribeUniversal", broken: true},
		mode{sub: "SubscribeUniversal", resume: "ResumeStrategySpawn", stop: true},
		mode{sub: "SubscribeUniversal", resume: "ResumeStrategyFastward"})
	accesses := map[string][]access{}
	for _, md := range modes {
		name := md.sub
		for _, f := range []struct {
			n  string
			on bool
		}{{md.resume, md.resume != ""}, {"run", md.run}, {"filter", md.filter}, {"sampling", md.sampling}, {"hibernation", md.hib}, {"child filter", md.child}, {"stops", md.stop}, {"own hooks", md.bare}, {"broken", md.broken}} {
			if f.on {
				name += "/" + f.n
			}
		}
		m := c.Machine()
		m.Opaque = nil
		m.Recur, m.Unroll = 4, 16
		list := c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
			switch What(e) {
			case "client":
				if md.stop {
					bad := engine.NewNonNil("failure", errT)
					return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{bad}, Assume: c.fails(bad), Label: "the client fails"}, {Panics: true, Label: "the client panics"}}, true
				}
			case "panic.Rescue":
				return one(engine.Str("somewhere"), engine.Nil)
			case "regexp.MatchString":
				if p, q := e.Args[0], e.Args[1]; isStr(p) && isStr(q) {
					return one(engine.Bool(p.Key() == q.Key()), engine.Nil)
				}
			case "option":
				bad := engine.NewNonNil("refusal", errT)
				return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{bad}, Assume: c.fails(bad)}}, true
			}
			switch n := callName(e); {
			case n == "Err" && e.Method != nil:
				return one(engine.Nil)
			case n == "NewManifoldFuncPool":
				return one(engine.NewNonNil("pool", e.Sig.Results().At(0).Type()), engine.Nil)
			case n == "Source":
				return one(engine.NewNonNil("input channel", e.Sig.Results().At(0).Type()))
			case n == "Wrap", n == "Wrapf", n == "Errorf":
				return one(engine.NewNonNil(n, errT))
			}
			return c.calmly(s, e)
		})
		inner := c.Matching(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" {
				id, ok := g.at(e.Args[len(e.Args)-1].Key())
				if !ok {
					return []engine.Alt{{Results: []engine.Val{engine.Nil, engine.NewNonNil("no such directory", errT)}}}, true
				}
				return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil}}}, true
			}
			return list(s, e)
		})
		m.Model = g.paths(true, inner)
		if md.bare {
			m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				switch What(e) {
				case "client", "regexp.MatchString":
					return list(s, e)
				}
				switch callName(e) {
				case "ReadDir":
					if e.Args[len(e.Args)-1].Key() == "⟨tree⟩" {
						return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents", "f1", "f2"), engine.Nil}}}, true
					}
					return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "nothing"), engine.Nil}}}, true
				case "Stat", "Lstat":
					return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("info", e.Sig.Results().At(0).Type()), engine.Nil}}}, true
				}
				return list(s, e)
			}
		}
		if md.resume != "" {
			next := m.Model
			m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				saved := Saved{Active: map[string]engine.Val{
					".Tree": engine.NewTok("tree", strT), ".CurrentPath": g.place("d1"), ".Subscription": w.Const("enums", md.sub), ".IsDir": engine.True, ".Depth": engine.Int(1),
					".Metrics": s.NewMap("saved metrics", nil, nil)}}
				return c.Reading(saved, next)(s, e)
			}
		}
		on := func(s *engine.State, e *engine.Event) {
			if a, ok := c.accessed(s, e, s.Shared); ok {
				accesses[a.loc] = append(accesses[a.loc], a)
			}
		}
		session := func(st *engine.State) []engine.Outcome {
			var extra []Setting
			if md.filter {
				extra = append(extra, c.filterSetting(map[string]engine.Val{".Node": c.filterDef(st, "node filter", "FilterDef", "FilterTypeGlob", nil)}))
			}
			if md.sampling {
				extra = append(extra, Setting{Name: "WithSamplingOptions", Make: func(st *engine.State) []engine.Val {
					return []engine.Val{c.object(st, "sampling options", w.Named("pref", "SamplingOptions"), map[string]engine.Val{
						".Type": w.Const("enums", "SampleTypeSlice"), ".NoOf.Files": engine.IntT(1, uintT), ".NoOf.Directories": engine.IntT(1, uintT)})}
				}})
			}
			if md.hib {
				extra = append(extra, Setting{Name: "WithHibernationFilterWake", Make: func(st *engine.State) []engine.Val {
					return []engine.Val{c.filterDef(st, "wake", "FilterDef", "FilterTypeRegex", nil)}
				}})
			}
			if md.child {
				extra = append(extra, Setting{Name: "WithFilter", Make: func(st *engine.State) []engine.Val {
					return []engine.Val{c.object(st, "filter options", w.Named("pref", "FilterOptions"), map[string]engine.Val{".Child": c.filterDef(st, "child", "ChildFilterDef", "FilterTypeGlob", nil)})}
				}})
			}
			sess := c.Plain(md.sub, st, extra...)
			if md.resume != "" {
				sess = c.Resumed(md.resume, st, extra...)
			}
			if md.bare {
				sess.Settings = c.Options(extra...)
			}
			if md.broken {
				next := sess.Settings
				sess.Settings = func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
					st, vs := next(m, st)
					return st, append(vs, engine.NewNonNil("option", w.Type("pref", "Option")))
				}
			}
			sess.Parallel = md.run
			var out []engine.Outcome
			for _, b := range c.Build(m, st, sess) {
				if b.Panicked || len(b.Results) == 0 {
					continue
				}
				out = append(out, c.Invoke(m, b.State, b.Results[0], "Navigate", engine.NewNonNil("ctx", c.ctxType()))...)
			}
			return out
		}
		st := c.Init(m, append([]string{"internal/third/bus", "internal/services"}, NavInit...)...)
		if md.twice {
			m.On = nil
			outs := session(st)
			if len(outs) == 0 {
				c.Ob(name+"/sessions", "sessions come to an end", false, "-", "none does")
				continue
			}
			st = outs[0].State
			for k := range st.Mon {
				delete(st.Mon, k)
			}
		}
		st.Publish()
		m.WatchStores, m.WatchLoads = true, true
		m.On = on
		outs := session(st)
		c.Ob(name+"/sessions", "sessions come to an end", len(outs) > 0, "-", "none does")
		for _, o := range outs {
			c.Ob(name+"/released", "no shared lock is held when a session ends", strings.TrimSpace(o.State.Mon["locks"]) == "", "-", "%s: %s", o.State.Mon["locks"], path(o.State))
		}
		if !c.Done(m, name) {
			return
		}
	}
	var locs []string
	for l := range accesses {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	for _, l := range locs {
		// what covers a location covers its parts
		as := append([]access(nil), accesses[l]...)
		for o, x := range accesses {
			if o != l && strings.HasPrefix(l, o) && strings.ContainsRune(".[", rune(l[len(o)])) {
				as = append(as, x...)
			}
		}
		var write *access
		for i := range as {
			if as[i].write {
				write = &as[i]
				break
			}
		}
		nm := shortLoc(l)
		if write == nil {
			c.Ob("read/"+nm, "what is shared by sessions is only read once the program is initialised", true, as[0].at, "")
			continue
		}
		if a := unguarded(as); a != nil {
			c.Ob("write/"+nm, "what sessions write to and other sessions use is guarded by one shared lock", false, a.at,
				"it is %s at %s and %s at %s, without a lock in common", write.how, write.at, a.how, a.at)
		}
		c.Ob("write/"+nm, "what sessions write to and other sessions use is guarded by one shared lock", true, write.at, "")
	}
}

// accessed says what an event does to what is shared, and keeps track of the
// shared locks that are held.
func (c *C) accessed(s *engine.State, e *engine.Event, shared func(obj string) bool) (access, bool) {
	a := access{at: c.locate(e)}
	switch e.Kind {
	case "call":
		if e.Fn != nil && changes(e.Fn) && len(e.Args) > 0 {
			if l, ok := strip(e.Args[0]).(*engine.SliceRef); ok && shared(l.Obj) {
				a.write, a.how, a.loc, a.locks = true, "changed", l.Obj, strings.Fields(s.Mon["locks"])
				return a, true
			}
			return a, false
		}
		if e.Fn == nil || e.Fn.Pkg == nil || e.Fn.Pkg.Pkg.Path() != "sync" || len(e.Args) == 0 {
			return a, false
		}
		p, ok := e.Args[0].(*engine.Ptr)
		if !ok || !shared(p.Obj) {
			return a, false
		}
		l := p.Obj + p.Path
		switch e.Fn.Name() {
		case "Lock":
			s.Mon["locks"] += " " + word1(l) + "!"
		case "RLock":
			s.Mon["locks"] += " " + word1(l)
		case "Unlock":
			s.Mon["locks"] = drop(s.Mon["locks"], word1(l)+"!")
		case "RUnlock":
			s.Mon["locks"] = drop(s.Mon["locks"], word1(l))
		}
		return a, false
	case "store":
		a.write, a.how = true, "stored to"
	case "mapset":
		a.write, a.how = true, "written to"
	case "mapdel":
		a.write, a.how = true, "deleted from"
	case "load", "mapget":
		a.how = "read"
	default:
		return a, false
	}
	if !shared(e.Obj) {
		return a, false
	}
	a.loc = e.Obj
	if e.Kind == "store" || e.Kind == "load" {
		a.loc += e.Path
	}
	a.locks = strings.Fields(s.Mon["locks"])
	return a, true
}

// unguarded is an access that has no lock in common with the others.
func unguarded(as []access) *access {
	var common map[string]bool
	for i, a := range as {
		held := map[string]bool{}
		for _, k := range a.locks {
			if strings.HasSuffix(k, "!") || !a.write {
				held[strings.TrimSuffix(k, "!")] = true
			}
		}
		if common == nil {
			common = held
		}
		next := map[string]bool{}
		for k := range common {
			if held[k] {
				next[k] = true
			}
		}
		if len(next) == 0 {
			return &as[i]
		}
		common = next
	}
	return nil
}

func strip(v engine.Val) engine.Val {
	if i, ok := v.(*engine.Iface); ok {
		return i.V
	}
	return v
}

func isStr(v engine.Val) bool {
	k, ok := v.(*engine.Const)
	return ok && k.V != nil
}

func word1(l string) string { return strings.ReplaceAll(l, " ", "_") }

// drop removes one word of a list.
func drop(l, word string) string {
	f := strings.Fields(l)
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == word {
			f = append(f[:i], f[i+1:]...)
			break
		}
	}
	return strings.Join(f, " ")
}

// shortLoc abbreviates a location.
func shortLoc(l string) string {
	l = strings.ReplaceAll(l, Mod+"/", "")
	return strings.ReplaceAll(l, Mod, "agenor")
}

// ---- what the library's code can do ---------------------------------------------

// sharedWrites judges every instruction that may run after initialisation and
// that writes to what a package level variable leads to.
func (c *C) sharedWrites() {
	w := c.W
	// functions that run once are their own synchronisation
	once := map[*ssa.Function]bool{}
	refs := map[*ssa.Function][]*ssa.Function{}
	methods := map[string][]*ssa.Function{}
	for _, fn := range w.srcs {
		if fn.Signature.Recv() != nil {
			methods[fn.Name()] = append(methods[fn.Name()], fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if k := call.Common().StaticCallee(); k != nil && PkgOf(k) != nil && PkgOf(k).Path() == "sync" && strings.HasPrefix(origin(k).Name(), "Once") || isDo(call) {
						for _, a := range call.Common().Args {
							if f := funcOf(a); f != nil {
								once[f] = true
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if f := funcOf(*op); f != nil {
						refs[fn] = append(refs[fn], f)
					}
				}
			}
		}
	}
	// reachable from what a client can call
	reach := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !reach[f] && !once[f] {
			reach[f] = true
			todo = append(todo, f)
		}
	}
	for _, fn := range w.srcs {
		p := PkgOf(fn)
		if fn.Parent() != nil || p == nil {
			continue
		}
		if fn.Signature.Recv() != nil || (token.IsExported(fn.Name()) && !strings.Contains(p.Path(), "/internal/")) {
			add(fn)
		}
	}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		for _, r := range refs[f] {
			add(r)
		}
	}
	// what each function writes to by way of its parameters, unguarded
	type write struct {
		in   ssa.Instruction
		what string
	}
	mut := map[*ssa.Function]map[int]write{}
	param := func(fn *ssa.Function, v ssa.Value) int {
		for i, p := range fn.Params {
			if v == p {
				return i
			}
		}
		return -1
	}
	writes := func(fn *ssa.Function, report func(in ssa.Instruction, root ssa.Value, what string)) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					for r := range roots(x.Addr) {
						report(in, r, "it is stored to")
					}
				case *ssa.MapUpdate:
					for r := range roots(x.Map) {
						report(in, r, "the map is written to")
					}
				case ssa.CallInstruction:
					k := x.Common()
					if b, ok := k.Value.(*ssa.Builtin); ok {
						if b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy" {
							for r := range roots(k.Args[0]) {
								report(in, r, "it is changed by "+b.Name())
							}
						}
						continue
					}
					if f := k.StaticCallee(); f != nil && changes(f) {
						for r := range roots(k.Args[0]) {
							report(in, r, "it is changed by "+engine.FuncName(origin(f)))
						}
					}
					for _, callee := range c.callees(k, methods) {
						args := k.Args
						if k.IsInvoke() {
							args = append([]ssa.Value{k.Value}, args...)
						}
						for i, wr := range mut[callee] {
							if i < len(args) && !valueType(args[i].Type()) {
								for r := range roots(args[i]) {
									report(in, r, fmt.Sprintf("%s writes to it (%s)", engine.FuncName(callee), w.InstrPos(wr.in)))
								}
							}
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range w.srcs {
			writes(fn, func(in ssa.Instruction, root ssa.Value, what string) {
				i := param(fn, root)
				if i < 0 || guarded(in, root) {
					return
				}
				if mut[fn] == nil {
					mut[fn] = map[int]write{}
				}
				if _, ok := mut[fn][i]; !ok {
					mut[fn][i] = write{in, what}
					changed = true
				}
			})
		}
	}
	n, globals := 0, map[*ssa.Global]bool{}
	for _, fn := range w.srcs {
		if fn.Synthetic != "" || !reach[fn] {
			continue
		}
		n++
		bad := ""
		var at ssa.Instruction
		writes(fn, func(in ssa.Instruction, root ssa.Value, what string) {
			gl, ok := root.(*ssa.Global)
			if !ok || gl.Pkg == nil || !Product(gl.Pkg.Pkg.Path()) {
				return
			}
			globals[gl] = true
			if !guarded(in, root) {
				bad, at = fmt.Sprintf("%s: %s, without a lock", gl.Name(), what), in
			}
		})
		c.Ob("code/"+engine.FuncName(fn), "a function that can run after initialisation writes to no package level variable, nor to what one leads to, without a lock", bad == "", w.InstrPos(at), "%s", bad)
	}
	c.stats["functions_that_may_run_after_initialisation"] = n
	c.stats["package_variables_written_under_a_lock"] = len(globals)
}

// changes: functions of the standard library that change their first argument.
func changes(f *ssa.Function) bool {
	p := PkgOf(f)
	if p == nil {
		return false
	}
	n := origin(f).Name()
	switch p.Path() {
	case "sort":
		switch n {
		case "Slice", "SliceStable", "Sort", "Stable", "Strings", "Ints", "Float64s":
			return true
		}
	case "slices":
		for _, x := range []string{"Sort", "Reverse", "Delete", "Insert", "Compact", "Replace"} {
			if strings.HasPrefix(n, x) && n != "SortedFunc" && n != "Sorted" && n != "SortedStableFunc" {
				return true
			}
		}
	case "maps":
		return n == "Copy" || n == "DeleteFunc" || n == "Insert"
	}
	return false
}

func origin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func isDo(call ssa.CallInstruction) bool {
	k := call.Common().StaticCallee()
	return k != nil && k.Name() == "Do" && k.Signature.Recv() != nil && strings.HasSuffix(k.Signature.Recv().Type().String(), "sync.Once")
}

// funcOf is the function that a value is.
func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(x.X)
	}
	return nil
}

// callees are the functions of the library that a call may invoke, as far as
// they are known by name.
func (c *C) callees(k *ssa.CallCommon, methods map[string][]*ssa.Function) []*ssa.Function {
	if f := k.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if k.IsInvoke() {
		var out []*ssa.Function
		for _, f := range methods[k.Method.Name()] {
			if it, ok := k.Value.Type().Underlying().(*types.Interface); ok && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	return nil
}

// valueType: a copy can't be used to write to the original.
func valueType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// roots are the variables and parameters that the address or reference leads
// back to; deep says whether by way of a load.
func roots(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var up func(v ssa.Value, deep bool)
	up = func(v ssa.Value, deep bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Global:
			out[x] = deep || out[x]
		case *ssa.Parameter:
			if !valueType(x.Type()) {
				out[x] = deep || out[x]
			}
		case *ssa.Alloc:
			// a variable that is captured: what it is set to, once
			var set []ssa.Value
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					set = append(set, st.Val)
				}
			}
			if deep && len(set) == 1 && !valueType(set[0].Type()) {
				up(set[0], true)
			}
		case *ssa.FreeVar:
			fn := x.Parent()
			for i, v := range fn.FreeVars {
				if v != x || fn.Parent() == nil {
					continue
				}
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							up(mc.Bindings[i], deep)
						}
					}
				}
			}
		case *ssa.FieldAddr:
			up(x.X, deep)
		case *ssa.IndexAddr:
			up(x.X, deep)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if valueType(x.Type()) {
					return
				}
				up(x.X, true)
			}
		case *ssa.Field:
			up(x.X, deep)
		case *ssa.Slice:
			up(x.X, deep)
		case *ssa.Phi:
			for _, e := range x.Edges {
				up(e, deep)
			}
		case *ssa.ChangeType:
			up(x.X, deep)
		case *ssa.ChangeInterface:
			up(x.X, deep)
		case *ssa.MakeInterface:
			up(x.X, deep)
		case *ssa.TypeAssert:
			up(x.X, deep)
		case *ssa.Lookup:
			up(x.X, true)
		case *ssa.Extract:
			up(x.Tuple, deep)
		case *ssa.Next:
			up(x.Iter, deep)
		case *ssa.Range:
			up(x.X, true)
		}
	}
	up(v, false)
	return out
}

// guarded says whether an instruction runs with a lock held that is reached
// from the same root, or is itself a package level variable.
func guarded(in ssa.Instruction, root ssa.Value) bool {
	fn := in.Parent()
	held := false
	for _, b := range fn.Blocks {
		for i, x := range b.Instrs {
			call, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			k := call.Call.StaticCallee()
			if k == nil || k.Pkg == nil || k.Pkg.Pkg.Path() != "sync" || len(call.Call.Args) == 0 || !before(b, i, in) {
				continue
			}
			same := false
			for r := range roots(call.Call.Args[0]) {
				if _, isG := r.(*ssa.Global); isG || r == root {
					same = true
				}
			}
			if !same {
				continue
			}
			switch k.Name() {
			case "Lock":
				held = true
			case "Unlock":
				held = false
			}
		}
	}
	return held
}

// before says whether instruction i of a block precedes another on every path.
func before(b *ssa.BasicBlock, i int, in ssa.Instruction) bool {
	if b != in.Block() {
		return b.Dominates(in.Block())
	}
	for j, x := range b.Instrs {
		if x == in {
			return i < j
		}
	}
	return false
}
