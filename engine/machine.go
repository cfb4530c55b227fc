package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something the monitors see.
type Event struct {
	Kind    string // call, ret, enter, leave, store, send, recv, close, go, panic, mapset, mapdel, unwind
	Fn      *ssa.Function
	Method  *types.Func // interface method of an unresolved invoke
	FnVal   Val         // unresolved function value
	Recv    Val
	Args    []Val
	Results []Val
	Obj     string
	Path    string
	Val     Val
	Instr   ssa.Instruction
	Sig     *types.Signature
	// Recursive: the callee is already being executed.
	Recursive bool
}

// Name is a readable callee.
func (e *Event) Name() string {
	switch {
	case e.Fn != nil:
		return FuncName(e.Fn)
	case e.Method != nil:
		return e.Method.FullName()
	case e.FnVal != nil:
		return e.FnVal.Key()
	}
	return e.Kind
}

// FuncName is pkg.Func or pkg.(Type).Method without type arguments.
func FuncName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.String()
}

// Alt is one possible result of a modelled call.
type Alt struct {
	Results []Val
	Assume  []Cond
	Panics  bool
	Label   string
}

type Cond struct {
	V   Val
	Val bool
}

// Outcome is one abstract final state of a run.
type Outcome struct {
	State    *State
	Results  []Val
	Panicked bool
	PanicVal Val
}

// Machine runs functions abstractly.
type Machine struct {
	Prog *ssa.Program
	// InModule decides which functions are inlined.
	Inline func(*ssa.Function) bool
	// Opaque functions are never inlined though they are in the module.
	Opaque func(*ssa.Function) bool
	// On is the monitor.
	On func(*State, *Event)
	// Model supplies the results of calls that are not inlined.
	Model func(*State, *Event) ([]Alt, bool)
	// MayPanic: opaque call that may panic.
	MayPanic func(*State, *Event) bool
	// Watch selects in-module functions reported as enter/leave.
	Watch func(*ssa.Function) bool
	// WatchStores reports stores.
	WatchStores bool
	// WatchLoads reports loads, and reads of maps (mapget).
	WatchLoads bool
	// Devirt maps an interface method call on an unknown value to the only
	// implementation it can have.
	Devirt func(t types.Type) types.Type
	// NonNilPath: opaque paths assumed non-nil (obj, path).
	NonNilPath func(obj, path string) bool
	// NonNilRecv: assume unresolved pointers that are dereferenced non-nil.

	keepAtoms bool
	// Unroll is how many iterations of an undecided loop keep a counter's value.
	Unroll    int
	MaxStates int
	// AnyOrder: maps are ranged over in every order.
	AnyOrder bool
	// Stop gives a reason not to go on.
	Stop func() string
	// Recur is how many activations of a function are looked into; further
	// ones are opaque.
	Recur int

	globals      map[string]*ssa.Global
	globalNonNil map[*ssa.Global]bool

	ctxIDs  map[string]int
	live    map[*ssa.Function]*liveness
	hdrs    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	nums    map[ssa.Instruction]int
	zeros   map[string]Val
	Visited map[*ssa.Function]bool
	States  int
	Forks   int
	CallsOp int
	Err     error
	pending []Outcome

	nameMemo map[string][]string
}

var debugEvery, _ = strconv.Atoi(os.Getenv("AGV_DEBUG"))

var forkLog map[string]int

func DumpForks() {
	for k, n := range forkLog {
		if n > 50 {
			fmt.Println("FORK", n, k)
		}
	}
}
func init() {
	if os.Getenv("AGV_FORKS") != "" {
		forkLog = map[string]int{}
	}
}

func New(prog *ssa.Program) *Machine {
	m := &Machine{Prog: prog, MaxStates: 400000,
		globals: map[string]*ssa.Global{}, globalNonNil: map[*ssa.Global]bool{},
		ctxIDs: map[string]int{}, live: map[*ssa.Function]*liveness{},
		hdrs:     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		nameMemo: map[string][]string{},
		nums:     map[ssa.Instruction]int{}, Visited: map[*ssa.Function]bool{}}
	return m
}

// KeepAtoms keeps the whole partition for inspection at the exits.
func (m *Machine) KeepAtoms(b bool) { m.keepAtoms = b }

// SetGlobals declares the globals known to hold non-nil values.
func (m *Machine) SetGlobals(nonNil map[*ssa.Global]bool) { m.globalNonNil = nonNil }

func (m *Machine) nonNilPath(obj, path string) bool {
	return m.NonNilPath != nil && m.NonNilPath(obj, path)
}

// NewState is the empty initial state.
func (m *Machine) NewState() *State {
	return &State{m: m, heap: map[string]*Obj{}, atoms: map[string]atom{}, Mon: map[string]string{}, Vals: map[string]Val{}}
}

// Zero value of a type.
func (m *Machine) Zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return &Const{V: constant.MakeInt64(0), T: t}
		case u.Info()&types.IsFloat != 0:
			return &Const{V: constant.MakeFloat64(0), T: t}
		case u.Info()&types.IsString != 0:
			return &Const{V: constant.MakeString(""), T: t}
		}
		return &Const{T: t}
	case *types.Struct:
		s := &Struct{T: u, F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = m.Zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return &App{Op: "zeroarray", T: t}
	case *types.Tuple:
		tv := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tv.V = append(tv.V, m.Zero(u.At(i).Type()))
		}
		return tv
	}
	return &Const{T: t}
}

func (m *Machine) fieldOf(v Val, u *types.Struct, i int) Val {
	switch x := v.(type) {
	case *Struct:
		return x.F[i]
	case *Tok:
		return m.tokOf(x.ID+"."+u.Field(i).Name(), u.Field(i).Type())
	}
	return m.tokOf(v.Key()+"."+u.Field(i).Name(), u.Field(i).Type())
}

// tokOf expands struct typed tokens.
func (m *Machine) tokOf(id string, t types.Type) Val {
	if u, ok := t.Underlying().(*types.Struct); ok {
		st := &Struct{T: u, F: make([]Val, u.NumFields())}
		for i := range st.F {
			st.F[i] = m.tokOf(id+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return st
	}
	return &Tok{ID: id, T: t}
}

// Param makes an opaque argument.
func (m *Machine) Param(name string, t types.Type) Val {
	return m.tokOf("⟨"+name+"⟩", t)
}

func (m *Machine) num(i ssa.Instruction) int {
	if n, ok := m.nums[i]; ok {
		return n
	}
	k := 0
	for _, b := range i.Parent().Blocks {
		for _, x := range b.Instrs {
			m.nums[x] = k
			k++
		}
	}
	return m.nums[i]
}

func (m *Machine) childCtx(parent int, i ssa.Instruction, fn *ssa.Function) int {
	k := fmt.Sprintf("%d/%s#%d>%s", parent, i.Parent().String(), m.num(i), fn.String())
	if n, ok := m.ctxIDs[k]; ok {
		return n
	}
	n := len(m.ctxIDs) + 1
	m.ctxIDs[k] = n
	return n
}

func (m *Machine) site(f *Frame, i ssa.Instruction) string {
	return fmt.Sprintf("%s#%d@%d", shortFn(f.Fn), m.num(i), f.ctx)
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// ---- running ------------------------------------------------------------------

// Run analyses fn(args...) from st and returns every abstract outcome.
func (m *Machine) Run(st *State, fn *ssa.Function, args ...Val) []Outcome {
	return m.RunVal(st, &Clos{Fn: fn}, args...)
}

// RunVal calls a function value.
func (m *Machine) RunVal(st *State, fv Val, args ...Val) []Outcome {
	s := st.Clone()
	s.m = m
	var fn *ssa.Function
	var free []Val
	switch x := fv.(type) {
	case *Clos:
		fn, free = x.Fn, x.Free
	}
	if fn == nil || fn.Blocks == nil {
		m.fail(fmt.Errorf("cannot analyse %v", fv.Key()))
		return nil
	}
	m.pushFrame(s, fn, free, args, nil, 0, false)
	var outs []Outcome
	seenOut := map[string]bool{}
	visited := map[string]bool{}
	work := []*State{s}
	for len(work) > 0 {
		if m.Err != nil {
			return outs
		}
		cur := work[len(work)-1]
		work = work[:len(work)-1]
		if m.Stop != nil {
			if why := m.Stop(); why != "" {
				m.fail(fmt.Errorf("%s: %s", fn, why))
				return outs
			}
		}
		if m.States > m.MaxStates {
			m.fail(fmt.Errorf("%s: more than %d abstract states", fn, m.MaxStates))
			return outs
		}
		if debugEvery > 0 && m.States%debugEvery == 0 {
			var st []string
			for _, f := range cur.frames {
				st = append(st, fmt.Sprintf("%s.%d", shortFn(f.Fn), f.Blk.Index))
			}
			fmt.Fprintf(os.Stderr, "states=%d work=%d atoms=%d heap=%d %s\n", m.States, len(work), len(cur.atoms), len(cur.heap), strings.Join(st, " > "))
			for _, a := range cur.Atoms() {
				fmt.Fprintln(os.Stderr, "     ", a)
			}
		}
		next, out := m.runBlock(cur)
		for _, o := range m.pending {
			o := o
			if k := outKey(&o); !seenOut[k] {
				seenOut[k] = true
				outs = append(outs, o)
			}
		}
		m.pending = nil
		if out != nil {
			k := outKey(out)
			if !seenOut[k] {
				seenOut[k] = true
				outs = append(outs, *out)
			}
			continue
		}
		for i := len(next) - 1; i >= 0; i-- {
			n := next[i]
			if len(n.frames) == 0 {
				continue
			}
			f := n.top()
			if f.ip == 0 && len(f.Blk.Preds) > 1 {
				n.gc()
				k := n.key()
				if visited[k] {
					continue
				}
				visited[k] = true
			}
			m.States++
			work = append(work, n)
		}
	}
	return outs
}

func outKey(o *Outcome) string {
	var b strings.Builder
	for _, r := range o.Results {
		b.WriteString(r.Key() + "|")
	}
	if o.PanicVal != nil {
		b.WriteString("P" + o.PanicVal.Key())
	}
	return b.String() + fmt.Sprint(o.Panicked) + o.State.key()
}

func (m *Machine) fail(err error) {
	if m.Err == nil {
		m.Err = err
	}
}

func (m *Machine) pushFrame(s *State, fn *ssa.Function, free, args []Val, call *ssa.Call, ctx int, isDefer bool) {
	m.Visited[fn] = true
	f := &Frame{Fn: fn, Blk: fn.Blocks[0], env: make(map[ssa.Value]Val), call: call, ctx: ctx, isDefer: isDefer, given: measures(args)}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = m.Param(p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[p] = free[i]
		} else {
			f.env[p] = m.Param("free "+p.Name(), p.Type())
		}
	}
	s.frames = append(s.frames, f)
	if m.Watch != nil && m.Watch(fn) && m.On != nil {
		m.On(s, &Event{Kind: "enter", Fn: fn, Args: args})
	}
}

// runBlock executes until the state forks, changes block, or ends.
func (m *Machine) runBlock(s *State) ([]*State, *Outcome) {
	for {
		f := s.top()
		if f.ip >= len(f.Blk.Instrs) {
			m.fail(fmt.Errorf("%s: fell off block", f.Fn))
			return nil, nil
		}
		in := f.Blk.Instrs[f.ip]
		m.CallsOp++
		if m.CallsOp > 60000000 {
			m.fail(fmt.Errorf("%s: step budget exhausted", f.Fn))
			return nil, nil
		}
		next, out, cont := m.step(s, f, in)
		if !cont {
			return next, out
		}
	}
}

// eval an operand
func (m *Machine) eval(s *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return m.Zero(x.Type())
		}
		return &Const{V: x.Value, T: x.Type()}
	case *ssa.Function:
		return &Clos{Fn: x}
	case *ssa.Global:
		id := "g:" + x.String()
		m.globals[id] = x
		return &Ptr{Obj: id}
	case *ssa.Builtin:
		return NewTok("builtin "+x.Name(), x.Type())
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	return &Tok{ID: "⟨undef " + f.Fn.Name() + "." + v.Name() + "⟩", T: v.Type()}
}

func (m *Machine) fork(s *State, c Val, yes func(*State), no func(*State)) ([]*State, bool) {
	// returns states to continue with; sync=true when decided (mutated s)
	if b, ok := s.Decide(c); ok {
		if b {
			yes(s)
		} else {
			no(s)
		}
		return nil, true
	}
	m.Forks++
	if forkLog != nil {
		forkLog[c.Key()]++
	}
	var out []*State
	a := s.Clone()
	if a.Assume(c, true) {
		yes(a)
		out = append(out, a)
	}
	b := s
	if b.Assume(c, false) {
		no(b)
		out = append(out, b)
	}
	return out, false
}

func (m *Machine) step(s *State, f *Frame, in ssa.Instruction) (next []*State, out *Outcome, cont bool) {
	set := func(v ssa.Value, x Val) { f.env[v] = m.cap(s, f, v, x) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// evaluated on block entry
	case *ssa.Alloc:
		name := "new " + m.site(f, x)
		s.stale(name)
		id := "⟨" + name + "⟩"
		delete(s.heap, id)
		s.heap[id] = &Obj{Fields: map[string]Val{}, Typ: x.Type().Underlying().(*types.Pointer).Elem()}
		set(x, &Ptr{Obj: id})
	case *ssa.UnOp:
		return m.unop(s, f, x)
	case *ssa.BinOp:
		set(x, m.binop(s, x.Op, m.eval(s, f, x.X), m.eval(s, f, x.Y), x.Type(), x.X.Type()))
	case *ssa.ChangeInterface:
		set(x, m.eval(s, f, x.X))
	case *ssa.ChangeType:
		v := m.eval(s, f, x.X)
		if c, ok := v.(*Const); ok {
			v = &Const{V: c.V, T: x.Type()}
		}
		set(x, v)
	case *ssa.Convert:
		set(x, m.convert(m.eval(s, f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(x, m.convert(m.eval(s, f, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		set(x, mk("arrptr", x.Type(), m.eval(s, f, x.X)))
	case *ssa.MakeInterface:
		set(x, &Iface{Dyn: x.X.Type(), V: m.eval(s, f, x.X)})
	case *ssa.MakeClosure:
		fr := make([]Val, len(x.Bindings))
		for i, b := range x.Bindings {
			fr[i] = m.eval(s, f, b)
		}
		set(x, &Clos{Fn: x.Fn.(*ssa.Function), Free: fr})
	case *ssa.MakeMap:
		name := "new " + m.site(f, x)
		s.stale(name)
		id := "⟨" + name + "⟩"
		s.heap[id] = &Obj{Fields: map[string]Val{}, Map: true, Typ: x.Type()}
		set(x, &MapRef{Obj: id})
	case *ssa.MakeSlice:
		name := "new " + m.site(f, x)
		s.stale(name)
		id := "⟨" + name + "⟩"
		if n, ok := intConst(m.eval(s, f, x.Len)); ok && n < 64 {
			s.heap[id] = &Obj{Fields: map[string]Val{}, Typ: x.Type()}
			set(x, &SliceRef{Obj: id, N: int(n)})
		} else {
			set(x, mk("makeslice", x.Type(), m.eval(s, f, x.Len)))
		}
	case *ssa.MakeChan:
		name := "new " + m.site(f, x)
		s.stale(name)
		set(x, &Tok{ID: "⟨" + name + "⟩", T: x.Type(), NonNil: true})
	case *ssa.Extract:
		set(x, m.proj(m.eval(s, f, x.Tuple), x.Index, x.Type()))
	case *ssa.Field:
		v := m.eval(s, f, x.X)
		u := x.X.Type().Underlying().(*types.Struct)
		set(x, m.fieldOf(v, u, x.Field))
	case *ssa.FieldAddr:
		u := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p := m.deref(s, m.eval(s, f, x.X))
		if p == nil {
			return m.raise(s, Str("nil dereference"), in)
		}
		set(x, &Ptr{Obj: p.Obj, Path: p.Path + "." + u.Field(x.Field).Name()})
	case *ssa.IndexAddr:
		return m.indexAddr(s, f, x)
	case *ssa.Index:
		b, i := m.eval(s, f, x.X), m.eval(s, f, x.Index)
		if c, ok := b.(*Const); ok && c.V != nil && c.V.Kind() == constant.String {
			if n, ok := intConst(i); ok && n >= 0 && n < int64(len(constant.StringVal(c.V))) {
				set(x, &Const{V: constant.MakeInt64(int64(constant.StringVal(c.V)[n])), T: x.Type()})
				break
			}
		}
		if a, ok := b.(*App); ok && a.Op == "array" {
			if n, ok := intConst(i); ok && n >= 0 && n < int64(len(a.Args)) {
				set(x, a.Args[n])
				break
			}
		}
		set(x, mk("index", x.Type(), b, i))
	case *ssa.Lookup:
		return m.lookup(s, f, x)
	case *ssa.MapUpdate:
		mv, k, v := m.eval(s, f, x.Map), m.eval(s, f, x.Key), m.eval(s, f, x.Value)
		obj := mapObj(mv)
		o := s.obj(obj, x.Map.Type())
		if obj == "*nil" {
			return m.raise(s, Str("assignment to nil map"), in)
		}
		_, kc := isConst(k)
		_, ki := k.(*Iface)
		n := o.with("{"+k.Key()+"}", v)
		if !kc && !ki && !o.Opaque {
			// an unknown key may be any of the entries
			for p := range n.Fields {
				if p != "{"+k.Key()+"}" && strings.HasPrefix(p, "{") && !strings.HasPrefix(p, "{⟨") {
					n.Fields[p] = mk("choose", nil, n.Fields[p], v)
				}
			}
		}
		s.heap[obj] = n
		m.emit(s, &Event{Kind: "mapset", Obj: obj, Path: k.Key(), Val: v, Args: []Val{mv, k, v}, Instr: in})
	case *ssa.Range:
		base := m.eval(s, f, x.X)
		name := "iter " + m.site(f, x)
		s.stale(name)
		id := "⟨new " + name + "⟩"
		s.heap[id] = &Obj{Fields: map[string]Val{"pos": Int(0), "over": base}}
		set(x, &Ptr{Obj: id})
	case *ssa.Next:
		return m.next(s, f, x)
	case *ssa.Slice:
		return m.slice(s, f, x)
	case *ssa.TypeAssert:
		return m.typeAssert(s, f, x)
	case *ssa.Store:
		v := m.eval(s, f, x.Val)
		p := m.deref(s, m.eval(s, f, x.Addr))
		if p == nil {
			return m.raise(s, Str("nil dereference"), in)
		}
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		if m.WatchStores {
			m.emit(s, &Event{Kind: "store", Obj: p.Obj, Path: p.Path, Val: v, Instr: in})
		}
		s.StoreTo(p, v, t)
	case *ssa.Send:
		m.emit(s, &Event{Kind: "send", Args: []Val{m.eval(s, f, x.Chan), m.eval(s, f, x.X)}, Instr: in})
	case *ssa.Select:
		return m.sel(s, f, x)
	case *ssa.Go:
		fnv, args, method := m.callee(s, f, &x.Call)
		m.emit(s, &Event{Kind: "go", Fn: fnOf(fnv), FnVal: fnv, Method: method, Args: args, Instr: in, Sig: x.Call.Signature()})
	case *ssa.Defer:
		fnv, args, method := m.callee(s, f, &x.Call)
		d := deferred{fnv: fnv, call: &x.Call, args: args, instr: in}
		_ = method
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return m.invoke(s, f, d.instr, d.call, d.fnv, d.args, nil, true)
		}
	case *ssa.Panic:
		v := m.eval(s, f, x.X)
		return m.raise(s, v, in)
	case *ssa.Call:
		fnv, args, _ := m.callee(s, f, &x.Call)
		return m.invoke(s, f, x, &x.Call, fnv, args, x, false)
	case *ssa.If:
		c := m.eval(s, f, x.Cond)
		_, known := s.Decide(c)
		if !known {
			f.markLoops(m, f.Blk)
		}
		ns, sync := m.fork(s, c,
			func(t *State) { m.jump(t, f.Blk, f.Blk.Succs[0]) },
			func(t *State) { m.jump(t, f.Blk, f.Blk.Succs[1]) })
		if sync {
			return []*State{s}, nil, false
		}
		return ns, nil, false
	case *ssa.Jump:
		m.jump(s, f.Blk, f.Blk.Succs[0])
		return []*State{s}, nil, false
	case *ssa.Return:
		res := make([]Val, len(x.Results))
		for i, r := range x.Results {
			res[i] = m.eval(s, f, r)
		}
		return m.ret(s, f, res, in)
	default:
		m.fail(fmt.Errorf("%s: unsupported instruction %T", f.Fn, in))
		return nil, nil, false
	}
	f.ip++
	return nil, nil, true
}

// jump moves the top frame of s along an edge and evaluates the phis.
func (m *Machine) jump(s *State, from, to *ssa.BasicBlock) {
	f := s.top()
	back := m.headers(f.Fn)[to] != nil && m.headers(f.Fn)[to][from]
	if m.headers(f.Fn)[to] != nil && !back {
		// entering the loop afresh
		delete(f.loops, to)
		delete(f.iters, to)
	}
	if back {
		if f.iters == nil {
			f.iters = map[*ssa.BasicBlock]int{}
		}
		f.iters[to]++
	}
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	type upd struct {
		p *ssa.Phi
		v Val
	}
	var ups []upd
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ups = append(ups, upd{p, m.eval(s, f, p.Edges[idx])})
	}
	if back {
		visits := f.loops[to]
		if _, undecided := f.loops[to]; undecided {
			f.loops[to] = visits + 1
			for i, u := range ups {
				old := f.last[u.p]
				if old == nil || old.Key() == u.v.Key() {
					continue
				}
				name := "phi " + m.site(f, u.p)
				full := "⟨" + name + "⟩"
				if m.widen(u.p, u.v, visits) || strings.HasPrefix(old.Key(), full) {
					// the old iteration's counter is retired
					s.stale(name)
					ups[i].v = &Tok{ID: full, T: u.p.Type()}
				}
			}
			// staling may have renamed what was evaluated before: re-evaluate
			for i, u := range ups {
				if t, ok := u.v.(*Tok); ok && strings.HasPrefix(t.ID, "⟨phi ") {
					continue
				}
				ups[i].v = m.eval(s, f, u.p.Edges[idx])
			}
		}
	}
	for _, u := range ups {
		f.env[u.p] = u.v
		if m.headers(f.Fn)[to] != nil {
			if f.last == nil {
				f.last = map[*ssa.Phi]Val{}
			}
			f.last[u.p] = u.v
		}
	}
	f.prev = from
	f.Blk = to
	f.ip = 0
	// dead values
	lv := m.liveness(f.Fn)
	for v := range f.env {
		if !lv.in[to][v] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == to {
				continue
			}
			delete(f.env, v)
		}
	}
}

func (m *Machine) widen(p *ssa.Phi, v Val, visits int) bool {
	switch v.(type) {
	case *Const:
		if isIntType(p.Type()) {
			return visits >= m.Unroll
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return true
		}
		return false
	case *SliceRef:
		return visits >= max(1, m.Unroll)
	case *App:
		return visits >= 1
	}
	return visits >= 6
}

func (f *Frame) markLoops(m *Machine, b *ssa.BasicBlock) {
	for h := range m.headers(f.Fn) {
		if m.inLoop(f.Fn, h, b) {
			if f.loops == nil {
				f.loops = map[*ssa.BasicBlock]int{}
			}
			if _, ok := f.loops[h]; ok {
				continue
			}
			// a loop whose own exit condition has been decided so far goes on
			// being exact, whatever else may leave it
			if h != b && f.iters[h] < exactIterations && m.exits(f.Fn, h) {
				continue
			}
			f.loops[h] = 0
		}
	}
}

// counted: a counter that has been increased many times over is no longer
// followed.
func counted(x Val) bool {
	a, ok := x.(*App)
	if !ok || !isIntType(a.T) {
		return false
	}
	l := toLin(a)
	return l.k > 48 || l.k < -48
}

// exactIterations bounds how long a loop that decides its own exit stays exact.
const exactIterations = 12

// exits says whether a loop's header is where it is left.
func (m *Machine) exits(fn *ssa.Function, h *ssa.BasicBlock) bool {
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	return m.inLoop(fn, h, h.Succs[0]) != m.inLoop(fn, h, h.Succs[1])
}

// cap bounds the size of a value number.
func (m *Machine) cap(s *State, f *Frame, v ssa.Value, x Val) Val {
	if depthOf(x) > 12 || len(x.Key()) > 4000 || counted(x) {
		s.stale("big " + m.site(f, v.(ssa.Instruction)))
		return &Tok{ID: "⟨big " + m.site(f, v.(ssa.Instruction)) + "⟩", T: v.Type()}
	}
	return x
}

func (m *Machine) emit(s *State, e *Event) {
	if m.On != nil {
		m.On(s, e)
	}
}

func (m *Machine) mapGet(s *State, v Val, in ssa.Instruction) {
	if !m.WatchLoads {
		return
	}
	if r, ok := v.(*MapRef); ok {
		m.emit(s, &Event{Kind: "mapget", Obj: r.Obj, Args: []Val{v}, Instr: in})
	}
}

// deref turns a pointer value into a location; nil when it is nil.
func (m *Machine) deref(s *State, v Val) *Ptr {
	switch x := v.(type) {
	case *Ptr:
		return x
	case *Const:
		return nil
	case *Iface:
		return m.deref(s, x.V)
	}
	return &Ptr{Obj: "*" + v.Key()}
}

func mapObj(v Val) string {
	if r, ok := v.(*MapRef); ok {
		return r.Obj
	}
	return "*" + v.Key()
}

func (m *Machine) proj(v Val, i int, t types.Type) Val {
	if tv, ok := v.(*Tuple); ok && i < len(tv.V) {
		return tv.V[i]
	}
	return m.tokOf(fmt.Sprintf("%s·%d", v.Key(), i), t)
}

func sizeof(t types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(t.Underlying()) }

// wrapInt is an integer constant in the representation of an integer type.
func wrapInt(v constant.Value, t *types.Basic) constant.Value {
	bits := uint(sizeof(t) * 8)
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	r := constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
	if t.Info()&types.IsUnsigned == 0 && constant.Compare(r, token.GEQ, half) {
		r = constant.BinaryOp(r, token.SUB, mod)
	}
	return r
}

func (m *Machine) convert(v Val, from, to types.Type) Val {
	if c, ok := v.(*Const); ok {
		if c.V == nil {
			return &Const{T: to}
		}
		tb, okb := to.Underlying().(*types.Basic)
		if okb {
			if tb.Info()&types.IsInteger != 0 && c.V.Kind() == constant.Int {
				return &Const{V: wrapInt(c.V, tb), T: to}
			}
			if tb.Info()&types.IsString != 0 && c.V.Kind() == constant.String {
				return &Const{V: c.V, T: to}
			}
			if tb.Info()&types.IsString != 0 && c.V.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.V)
				return &Const{V: constant.MakeString(string(rune(n))), T: to}
			}
			if tb.Info()&types.IsFloat != 0 {
				return &Const{V: constant.ToFloat(c.V), T: to}
			}
		}
	}
	if isIntType(from) && isIntType(to) && sizeof(to) >= sizeof(from) {
		// same size: values beyond the signed range are not considered
		return v
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
		return v
	}
	// strings and runes or bytes: what is put together of parts converts to the
	// parts converted, and converting back gives what was converted
	if a, ok := v.(*App); ok {
		_, isSlice := to.Underlying().(*types.Slice)
		switch {
		case ok1 && fb.Info()&types.IsString != 0 && isSlice && a.Op == "+":
			return mk("append", to, m.convert(a.Args[0], from, to), m.convert(a.Args[1], from, to))
		case ok2 && tb.Info()&types.IsString != 0 && strings.HasPrefix(a.Op, "conv:[]") && len(a.Args) == 1:
			return a.Args[0]
		case ok2 && tb.Info()&types.IsString != 0 && a.Op == "slice" && len(a.Args) == 3 && a.Args[1].Key() == a.Args[2].Key():
			return Str("")
		}
	}
	return mk("conv:"+types.TypeString(to.Underlying(), nil), to, v)
}

func (m *Machine) binop(s *State, op token.Token, a, b Val, t, opT types.Type) Val {
	switch op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	case token.LSS:
		return Lt(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.LEQ:
		return Not(Lt(b, a))
	case token.GEQ:
		return Not(Lt(a, b))
	}
	ca, aok := isConst(a)
	cb, bok := isConst(b)
	if aok && bok && ca.V != nil && cb.V != nil {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(cb.V); ok {
				return &Const{V: constant.Shift(ca.V, op, uint(n)), T: t}
			}
		case token.QUO:
			if constant.Sign(cb.V) != 0 {
				o := op
				if isIntType(t) {
					o = token.QUO_ASSIGN
				}
				return &Const{V: constant.BinaryOp(ca.V, o, cb.V), T: t}
			}
		case token.REM:
			if constant.Sign(cb.V) != 0 {
				return &Const{V: constant.BinaryOp(ca.V, op, cb.V), T: t}
			}
		default:
			if ca.V.Kind() == cb.V.Kind() && ca.V.Kind() != constant.Bool {
				return &Const{V: constant.BinaryOp(ca.V, op, cb.V), T: t}
			}
		}
	}
	if isIntType(t) {
		switch op {
		case token.ADD:
			return Add(a, b, t)
		case token.SUB:
			return Sub(a, b, t)
		case token.OR, token.AND, token.XOR:
			if n, ok := intConst(b); ok && n == 0 {
				if op == token.AND {
					return IntT(0, t)
				}
				return a
			}
			if n, ok := intConst(a); ok && n == 0 {
				if op == token.AND {
					return IntT(0, t)
				}
				return b
			}
			if a.Key() == b.Key() && op != token.XOR {
				return a
			}
			if a.Key() > b.Key() {
				a, b = b, a
			}
		}
	}
	return mk(op.String(), t, a, b)
}

func (m *Machine) unop(s *State, f *Frame, x *ssa.UnOp) ([]*State, *Outcome, bool) {
	v := m.eval(s, f, x.X)
	switch x.Op {
	case token.MUL:
		p := m.deref(s, v)
		if p == nil {
			return m.raise(s, Str("nil dereference"), x)
		}
		if m.WatchLoads {
			m.emit(s, &Event{Kind: "load", Obj: p.Obj, Path: p.Path, Instr: x})
		}
		f.env[x] = m.cap(s, f, x, s.Load(p, x.Type()))
	case token.NOT:
		f.env[x] = Not(v)
	case token.SUB:
		f.env[x] = Sub(IntT(0, x.Type()), v, x.Type())
	case token.ARROW:
		name := "recv " + m.site(f, x)
		s.stale(name)
		m.emit(s, &Event{Kind: "recv", Args: []Val{v}, Instr: x})
		t := x.Type()
		if x.CommaOk {
			f.env[x] = &Tuple{V: []Val{m.tokOf("⟨"+name+"⟩", t.(*types.Tuple).At(0).Type()), NewTok(name+"ok", types.Typ[types.Bool])}}
		} else {
			f.env[x] = m.tokOf("⟨"+name+"⟩", t)
		}
	default:
		f.env[x] = mk("u"+x.Op.String(), x.Type(), v)
	}
	f.ip++
	return nil, nil, true
}

func (m *Machine) indexAddr(s *State, f *Frame, x *ssa.IndexAddr) ([]*State, *Outcome, bool) {
	b, i := m.eval(s, f, x.X), m.eval(s, f, x.Index)
	n, known := intConst(i)
	switch y := b.(type) {
	case *SliceRef:
		if known {
			if n < 0 || int(n) >= y.N {
				return m.raise(s, Str("index out of range"), x)
			}
			f.env[x] = &Ptr{Obj: y.Obj, Path: fmt.Sprintf("[%d]", y.Lo+int(n))}
		} else {
			// unknown index into a known slice: branch over the elements
			var out []*State
			for k := 0; k < y.N; k++ {
				c := s.Clone()
				if !c.Assume(Eq(i, Int(int64(k))), true) {
					continue
				}
				cf := c.top()
				cf.env[x] = &Ptr{Obj: y.Obj, Path: fmt.Sprintf("[%d]", y.Lo+k)}
				cf.ip++
				out = append(out, c)
			}
			return out, nil, false
		}
	case *Ptr:
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok && known {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && (n < 0 || n >= a.Len()) {
				return m.raise(s, Str("index out of range"), x)
			}
		}
		f.env[x] = &Ptr{Obj: y.Obj, Path: y.Path + "[" + i.Key() + "]"}
	case *Const:
		return m.raise(s, Str("index out of range"), x)
	default:
		f.env[x] = &Ptr{Obj: "*" + b.Key(), Path: "[" + i.Key() + "]"}
	}
	f.ip++
	return nil, nil, true
}

func (m *Machine) lookup(s *State, f *Frame, x *ssa.Lookup) ([]*State, *Outcome, bool) {
	b, k := m.eval(s, f, x.X), m.eval(s, f, x.Index)
	m.mapGet(s, b, x)
	var vt types.Type
	if x.CommaOk {
		vt = x.Type().(*types.Tuple).At(0).Type()
	} else {
		vt = x.Type()
	}
	fin := func(t *State, v, ok Val) {
		fr := t.top()
		if x.CommaOk {
			fr.env[x] = &Tuple{V: []Val{v, ok}}
		} else {
			fr.env[x] = v
		}
		fr.ip++
	}
	if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
		f.env[x] = mk("index", x.Type(), b, k)
		f.ip++
		return nil, nil, true
	}
	if IsNil(b) {
		fin(s, m.Zero(vt), False)
		return nil, nil, true
	}
	id := mapObj(b)
	o := s.obj(id, x.X.Type())
	if v, ok := o.Fields["{"+k.Key()+"}"]; ok {
		if a, isA := v.(*App); isA && a.Op == "absent" {
			fin(s, m.Zero(vt), False)
		} else {
			fin(s, v, True)
		}
		return nil, nil, true
	}
	if o.Opaque {
		has := mk("has", types.Typ[types.Bool], b, k)
		if c, ok := s.constOf(k); ok {
			if v, ok := o.Fields["{"+c.Key()+"}"]; ok {
				fin(s, v, True)
				return nil, nil, true
			}
		}
		val := m.tokOf(b.Key()+"{"+k.Key()+"}", vt)
		if m.nonNilPath("*"+b.Key(), "{"+k.Key()+"}") {
			if tk, ok := val.(*Tok); ok {
				tk.NonNil = true
			}
			fin(s, val, True)
			return nil, nil, true
		}
		if !x.CommaOk {
			fin(s, val, True)
			return nil, nil, true
		}
		ns, sync := m.fork(s, has, func(t *State) { fin(t, val, True) }, func(t *State) { fin(t, m.Zero(vt), False) })
		if sync {
			return nil, nil, true
		}
		return ns, nil, false
	}
	// exact map
	if c, ok := s.constOf(k); ok {
		if v, ok := o.Fields["{"+c.Key()+"}"]; ok {
			fin(s, v, True)
		} else if m.symbolicKeys(o) {
			fin(s, m.tokOf(b.Key()+"{"+k.Key()+"}", vt), mk("has", types.Typ[types.Bool], b, k))
		} else {
			fin(s, m.Zero(vt), False)
		}
		return nil, nil, true
	}
	// unknown key: branch over the entries
	var keys []string
	for p := range o.Fields {
		if strings.HasPrefix(p, "{") {
			keys = append(keys, p)
		}
	}
	sort.Strings(keys)
	var out []*State
	rest := s
	for _, p := range keys {
		kc := m.keyVal(strings.TrimSuffix(p[1:], "}"), x.Index.Type())
		c := rest.Clone()
		e := Eq(k, kc)
		if c.Assume(e, true) {
			fin(c, o.Fields[p], True)
			out = append(out, c)
		}
		if !rest.Assume(e, false) {
			return out, nil, false
		}
	}
	fin(rest, m.Zero(vt), False)
	out = append(out, rest)
	return out, nil, false
}

func (m *Machine) symbolicKeys(o *Obj) bool {
	for p := range o.Fields {
		if strings.HasPrefix(p, "{⟨") || strings.HasPrefix(p, "{*") {
			return true
		}
	}
	return false
}

func (m *Machine) keyVal(k string, t types.Type) Val {
	var n int64
	if _, err := fmt.Sscanf(k, "%d", &n); err == nil && isIntType(t) {
		return IntT(n, t)
	}
	if strings.HasPrefix(k, "\"") {
		return &Const{V: constant.MakeFromLiteral(k, token.STRING, 0), T: t}
	}
	return &Tok{ID: k, T: t}
}

func (m *Machine) next(s *State, f *Frame, x *ssa.Next) ([]*State, *Outcome, bool) {
	it := m.eval(s, f, x.Iter).(*Ptr)
	o := s.heap[it.Obj]
	over := o.Fields["over"]
	m.mapGet(s, over, x)
	tt := x.Type().(*types.Tuple)
	if ents, ok := s.MapEntries(over); ok && !x.IsString {
		var keys []string
		for p := range ents {
			if strings.HasPrefix(p, "{") {
				keys = append(keys, p)
			}
		}
		sort.Strings(keys)
		pos, _ := intConst(o.Fields["pos"])
		if m.AnyOrder && len(keys) > 1 && len(keys) < 8 {
			var left []string
			for _, p := range keys {
				if o.Fields["done"+p] == nil {
					left = append(left, p)
				}
			}
			if len(left) == 0 {
				f.env[x] = &Tuple{V: []Val{False, m.zeroOr(tt.At(1).Type()), m.zeroOr(tt.At(2).Type())}}
				f.ip++
				return nil, nil, true
			}
			var out []*State
			for _, p := range left {
				t := s
				if len(left) > 1 {
					t = s.Clone()
				}
				g := t.top()
				t.heap[it.Obj] = t.heap[it.Obj].with("done"+p, True)
				g.env[x] = &Tuple{V: []Val{True, m.keyVal(strings.TrimSuffix(p[1:], "}"), tt.At(1).Type()), ents[p]}}
				g.ip++
				out = append(out, t)
			}
			return out, nil, false
		}
		if int(pos) < len(keys) {
			p := keys[pos]
			s.heap[it.Obj] = o.with("pos", Int(pos+1))
			f.env[x] = &Tuple{V: []Val{True, m.keyVal(strings.TrimSuffix(p[1:], "}"), tt.At(1).Type()), ents[p]}}
		} else {
			f.env[x] = &Tuple{V: []Val{False, m.zeroOr(tt.At(1).Type()), m.zeroOr(tt.At(2).Type())}}
		}
		f.ip++
		return nil, nil, true
	}
	name := "next " + m.site(f, x)
	s.stale(name)
	ok := NewTok(name+"·ok", types.Typ[types.Bool])
	s.stale(name + "·ok")
	key := m.tokOf("⟨"+name+"⟩.key", tt.At(1).Type())
	var val Val = m.tokOf("⟨"+name+"⟩.val", tt.At(2).Type())
	if _, invalid := tt.At(1).Type().(*types.Basic); invalid && tt.At(1).Type().(*types.Basic).Kind() == types.Invalid {
		key = Nil
	}
	// an entry obtained by ranging is what a lookup gives
	if tt.At(2).Type() != nil && !x.IsString {
		if b, isB := tt.At(2).Type().(*types.Basic); !isB || b.Kind() != types.Invalid {
			if key != Nil {
				val = m.tokOf(over.Key()+"{"+key.Key()+"}", tt.At(2).Type())
			}
		}
	}
	f.env[x] = &Tuple{V: []Val{ok, key, val}}
	f.ip++
	return nil, nil, true
}

func (m *Machine) zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Nil
	}
	return m.Zero(t)
}

func (m *Machine) slice(s *State, f *Frame, x *ssa.Slice) ([]*State, *Outcome, bool) {
	b := m.eval(s, f, x.X)
	var lo, hi Val
	if x.Low != nil {
		lo = m.eval(s, f, x.Low)
	}
	if x.High != nil {
		hi = m.eval(s, f, x.High)
	}
	l, lk := int64(0), true
	if lo != nil {
		l, lk = intConst(lo)
	}
	switch y := b.(type) {
	case *Ptr:
		if at, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && y.Path == "" {
			h, hk := at.Len(), true
			if hi != nil {
				h, hk = intConst(hi)
			}
			if lk && hk {
				f.env[x] = &SliceRef{Obj: y.Obj, Lo: int(l), N: int(h - l)}
				f.ip++
				return nil, nil, true
			}
		}
	case *SliceRef:
		h, hk := int64(y.N), true
		if hi != nil {
			h, hk = intConst(hi)
		}
		if lk && hk && (l < 0 || l > h) {
			return m.raise(s, Str("slice bounds out of range"), x)
		}
		if lk && hk && l >= 0 && h <= int64(y.N) && l <= h {
			f.env[x] = &SliceRef{Obj: y.Obj, Lo: y.Lo + int(l), N: int(h - l)}
			f.ip++
			return nil, nil, true
		}
	case *Const:
		if y.V == nil {
			h, hk := int64(0), true
			if hi != nil {
				h, hk = intConst(hi)
			}
			if lk && hk && l == 0 && h == 0 {
				f.env[x] = b
				f.ip++
				return nil, nil, true
			}
			if lk && hk {
				return m.raise(s, Str("slice bounds out of range"), x)
			}
		}
		if y.V != nil && y.V.Kind() == constant.String {
			str := constant.StringVal(y.V)
			h, hk := int64(len(str)), true
			if hi != nil {
				h, hk = intConst(hi)
			}
			if lk && hk && l >= 0 && l <= h && h <= int64(len(str)) {
				f.env[x] = Str(str[l:h])
				f.ip++
				return nil, nil, true
			}
			if lk && hk {
				return m.raise(s, Str("slice bounds out of range"), x)
			}
		}
	}
	if lo == nil {
		lo = Int(0)
	}
	if hi == nil {
		if l == 0 && lk {
			f.env[x] = b
			f.ip++
			return nil, nil, true
		}
		hi = m.lenOf(s, b, "len")
	}
	f.env[x] = m.part(s, x.Type(), b, lo, hi)
	f.ip++
	return nil, nil, true
}

// part is b[lo:hi]; cutting where the parts of b meet gives the parts.
func (m *Machine) part(s *State, t types.Type, b, lo, hi Val) Val {
	if tb, ok := t.Underlying().(*types.Basic); ok && tb.Info()&types.IsString != 0 && lo.Key() == hi.Key() {
		return Str("")
	}
	if a, ok := b.(*App); ok && len(a.Args) == 2 && (a.Op == "append" || a.Op == "+") {
		first := m.lenOf(s, a.Args[0], "len").Key()
		n, whole := intConst(lo)
		switch {
		case lo.Key() == first && hi.Key() == m.lenOf(s, b, "len").Key():
			return a.Args[1]
		case whole && n == 0 && hi.Key() == first:
			return a.Args[0]
		}
	}
	return mk("slice", t, b, lo, hi)
}

func (m *Machine) typeAssert(s *State, f *Frame, x *ssa.TypeAssert) ([]*State, *Outcome, bool) {
	v := m.eval(s, f, x.X)
	fin := func(t *State, val Val, ok bool) {
		fr := t.top()
		if x.CommaOk {
			fr.env[x] = &Tuple{V: []Val{val, Bool(ok)}}
		} else {
			fr.env[x] = val
		}
		fr.ip++
	}
	yesVal := v
	if i, ok := v.(*Iface); ok {
		var is bool
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			is = types.Implements(i.Dyn, it)
		} else {
			is = types.Identical(i.Dyn, x.AssertedType)
			if is {
				yesVal = i.V
			}
		}
		if is {
			fin(s, yesVal, true)
			return nil, nil, true
		}
		if x.CommaOk {
			fin(s, m.Zero(x.AssertedType), false)
			return nil, nil, true
		}
		return m.raise(s, Str("failed type assertion"), x)
	}
	if s.IsNilKnown(v) {
		if x.CommaOk {
			fin(s, m.Zero(x.AssertedType), false)
			return nil, nil, true
		}
		return m.raise(s, Str("failed type assertion"), x)
	}
	at := mk("is:"+types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], v)
	if !types.IsInterface(x.AssertedType) {
		yesVal = m.tokOf(v.Key()+".("+types.TypeString(x.AssertedType, nil)+")", x.AssertedType)
		if tk, ok := yesVal.(*Tok); ok {
			tk.NonNil = true
		}
	}
	if !x.CommaOk {
		fin(s, yesVal, true)
		return nil, nil, true
	}
	ns, sync := m.fork(s, at, func(t *State) {
		t.Assume(Eq(v, Nil), false)
		fin(t, yesVal, true)
	}, func(t *State) { fin(t, m.Zero(x.AssertedType), false) })
	if sync {
		return nil, nil, true
	}
	return ns, nil, false
}

func (m *Machine) sel(s *State, f *Frame, x *ssa.Select) ([]*State, *Outcome, bool) {
	tt := x.Type().(*types.Tuple)
	var out []*State
	n := len(x.States)
	lo := 0
	if !x.Blocking {
		lo = -1
	}
	for k := lo; k < n; k++ {
		c := s
		if k < n-1 {
			c = s.Clone()
		}
		cf := c.top()
		tv := &Tuple{V: []Val{Int(int64(k)), NewTok("selok "+m.site(f, x), types.Typ[types.Bool])}}
		for i := 2; i < tt.Len(); i++ {
			tv.V = append(tv.V, m.tokOf(fmt.Sprintf("⟨sel %s %d⟩", m.site(f, x), i), tt.At(i).Type()))
		}
		cf.env[x] = tv
		cf.ip++
		if k >= 0 {
			st := x.States[k]
			ch := m.eval(c, cf, st.Chan)
			if st.Dir == types.SendOnly {
				m.emit(c, &Event{Kind: "send", Args: []Val{ch, m.eval(c, cf, st.Send)}, Instr: x})
			} else {
				m.emit(c, &Event{Kind: "recv", Args: []Val{ch}, Instr: x})
			}
		}
		out = append(out, c)
	}
	return out, nil, false
}

// ---- calls ----------------------------------------------------------------------

func fnOf(v Val) *ssa.Function {
	if c, ok := v.(*Clos); ok {
		return c.Fn
	}
	return nil
}

// invokeVal marks an unresolved interface call.
type invokeVal struct {
	recv   Val
	method *types.Func
}

func (i *invokeVal) Key() string { return "invoke:" + i.recv.Key() + "." + i.method.Name() }

// callee resolves a call to a function value and its full argument list.
func (m *Machine) callee(s *State, f *Frame, c *ssa.CallCommon) (Val, []Val, *types.Func) {
	args := make([]Val, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv := m.eval(s, f, c.Value)
		for _, a := range c.Args {
			args = append(args, m.eval(s, f, a))
		}
		var dyn types.Type
		var rv Val
		if i, ok := recv.(*Iface); ok {
			dyn, rv = i.Dyn, i.V
		} else if m.Devirt != nil && !IsNil(recv) {
			if d := m.Devirt(c.Value.Type()); d != nil {
				dyn = d
				rv = m.tokOf(recv.Key()+".("+types.TypeString(d, nil)+")", d)
				if tk, ok := rv.(*Tok); ok {
					tk.NonNil = true
				}
			}
		}
		if dyn != nil {
			if fn := m.Prog.LookupMethod(dyn, c.Method.Pkg(), c.Method.Name()); fn != nil {
				return &Clos{Fn: fn}, append([]Val{rv}, args...), nil
			}
		}
		return &invokeVal{recv, c.Method}, args, c.Method
	}
	for _, a := range c.Args {
		args = append(args, m.eval(s, f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return NewTok("builtin "+b.Name(), nil), args, nil
	}
	return m.eval(s, f, c.Value), args, nil
}

// invoke performs a call; res is nil for deferred calls.
func (m *Machine) invoke(s *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, fnv Val, args []Val, res *ssa.Call, isDefer bool) ([]*State, *Outcome, bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return m.builtin(s, f, in, b, args, res, c)
	}
	if i, ok := fnv.(*invokeVal); ok {
		if s.IsNilKnown(i.recv) {
			return m.raise(s, Str("nil dereference"), in)
		}
	} else if IsNil(fnv) {
		return m.raise(s, Str("call of nil function"), in)
	}
	if cl, ok := fnv.(*Clos); ok {
		fn := cl.Fn
		if fn.Blocks != nil && (m.inlinable(s, fn, args) || m.exactLibrary(s, fn, args)) {
			ctx := m.childCtx(f.ctx, in, fn)
			// drop what the caller does not need after the call
			m.pushFrame(s, fn, cl.Free, args, res, ctx, isDefer)
			return nil, nil, true
		}
	}
	// opaque
	ev := &Event{Kind: "call", Args: args, Instr: in, Sig: c.Signature()}
	switch y := fnv.(type) {
	case *Clos:
		ev.Fn = y.Fn
		ev.Recursive = y.Fn.Blocks != nil && s.active(y.Fn) && m.Inline != nil && m.Inline(y.Fn)
		ev.FnVal = y
	case *invokeVal:
		ev.Method = y.method
		ev.Recv = y.recv
	default:
		ev.FnVal = fnv
	}
	name := "call " + m.calleeLabel(ev) + " " + m.site(f, in)
	rs := c.Signature().Results()
	pure := m.pure(ev)
	var results []Val
	if pure == "" {
		s.stale(name)
		// the arguments may have been renamed
		if res != nil {
			fnv2, args2, _ := m.callee(s, f, c)
			_ = fnv2
			ev.Args = args2
			if ev.Recv != nil {
				if iv, ok := fnv2.(*invokeVal); ok {
					ev.Recv = iv.recv
				}
			} else if ev.FnVal != nil {
				ev.FnVal = fnv2
			}
		}
		for i := 0; i < rs.Len(); i++ {
			id := "⟨" + name + "⟩"
			if rs.Len() > 1 {
				id = fmt.Sprintf("⟨%s⟩·%d", name, i)
			}
			results = append(results, m.tokOf(id, rs.At(i).Type()))
		}
		m.havocArgs(s, ev, name)
	} else {
		for i := 0; i < rs.Len(); i++ {
			op := pure
			if rs.Len() > 1 {
				op = fmt.Sprintf("%s·%d", pure, i)
			}
			results = append(results, m.pureApp(s, op, rs.At(i).Type(), ev))
		}
	}
	m.emit(s, ev)
	alts := []Alt{{Results: results}}
	if m.Model != nil {
		if a, ok := m.Model(s, ev); ok {
			alts = a
			for i := range alts {
				if alts[i].Results == nil {
					alts[i].Results = results
				}
			}
		}
	}
	finish := func(t *State, rv []Val) {
		fr := t.top()
		if res != nil {
			if len(rv) == 1 {
				fr.env[res] = rv[0]
			} else {
				fr.env[res] = &Tuple{V: rv}
			}
		}
		if res != nil {
			fr.ip++
		}
		if m.On != nil {
			e2 := *ev
			e2.Kind = "ret"
			e2.Results = rv
			m.On(t, &e2)
		}
	}
	mayPanic := pure == "" && m.MayPanic != nil && m.MayPanic(s, ev)
	if len(alts) == 1 && !mayPanic && len(alts[0].Assume) == 0 && !alts[0].Panics {
		wasPanicking := f.panicking
		finish(s, alts[0].Results)
		if wasPanicking && res == nil {
			return m.unwind(s, in)
		}
		return nil, nil, true
	}
	var out []*State
	for _, a := range alts {
		t := s.Clone()
		ok := true
		for _, c := range a.Assume {
			ok = ok && t.Assume(c.V, c.Val)
		}
		if !ok {
			continue
		}
		if a.Label != "" {
			t.Note("%s", a.Label)
		}
		if a.Panics {
			ns, o, c := m.raise(t, NewNonNil("panic value", nil), in)
			if c {
				ns = append(ns, t)
			}
			out = append(out, ns...)
			if o != nil {
				m.pending = append(m.pending, *o)
			}
			continue
		}
		finish(t, a.Results)
		out = append(out, t)
	}
	if mayPanic {
		t := s.Clone()
		if m.On != nil {
			e2 := *ev
			e2.Kind = "panic"
			m.On(t, &e2)
		}
		ns, o, c := m.raise(t, NewNonNil("panic value", nil), in)
		if o != nil {
			// the panic leaves the root: report it through a pseudo state
			m.pending = append(m.pending, *o)
		}
		if c {
			ns = append(ns, t)
		}
		out = append(out, ns...)
	}
	return out, nil, false
}

// exactLibrary: generic slice and map functions are looked into when they
// operate upon exactly known contents.
func (m *Machine) exactLibrary(s *State, fn *ssa.Function, args []Val) bool {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	for o.Parent() != nil {
		o = o.Parent()
		if o.Origin() != nil {
			o = o.Origin()
		}
	}
	if o.Pkg == nil || len(s.frames) > 60 {
		return false
	}
	switch o.Pkg.Pkg.Path() {
	case "slices", "maps", "cmp":
	default:
		return false
	}
	if fn.Parent() != nil || o.Pkg.Pkg.Path() == "cmp" && fn.Name() != "init" {
		return true
	}
	for _, a := range args {
		if i, ok := a.(*Iface); ok {
			a = i.V
		}
		switch x := a.(type) {
		case *SliceRef:
			return x.N <= 12
		case *MapRef:
			ob := s.heap[x.Obj]
			return ob != nil && !ob.Opaque
		case *Clos:
			if x.Fn.Pkg == o.Pkg {
				return true
			}
		}
		if IsNil(a) {
			return true
		}
	}
	return false
}

func (m *Machine) inlinable(s *State, fn *ssa.Function, args []Val) bool {
	if m.Opaque != nil && m.Opaque(fn) {
		return false
	}
	if m.Inline == nil || !m.Inline(fn) {
		return false
	}
	if len(s.frames) > 60 {
		return false
	}
	n := 0
	var last *Frame
	for _, f := range s.frames {
		if f.Fn == fn {
			n++
			last = f
		}
	}
	return n < 1 || n < m.Recur || n < 2 && fn.Synthetic != "" || n < 12 && last.descends(args)
}

// active says whether a function is on the stack.
func (s *State) active(fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

func (m *Machine) calleeLabel(e *Event) string {
	switch {
	case e.Method != nil:
		return e.Method.Name()
	case e.Fn != nil:
		return shortFn(e.Fn)
	}
	k := e.FnVal.Key()
	k = strings.NewReplacer("⟨", "<", "⟩", ">").Replace(k)
	return k
}

// havocArgs forgets fresh objects handed to code that is not analysed.
func (m *Machine) havocArgs(s *State, ev *Event, name string) {
	if ev.Fn == nil {
		return
	}
	pkg := ""
	if ev.Fn.Pkg != nil {
		pkg = ev.Fn.Pkg.Pkg.Path()
	}
	switch pkg {
	case "encoding/json", "encoding/xml":
	default:
		return
	}
	for _, a := range ev.Args {
		if i, ok := a.(*Iface); ok {
			a = i.V
		}
		if p, ok := a.(*Ptr); ok && p.Path == "" {
			if o := s.heap[p.Obj]; o != nil && !o.Opaque && ev.Fn.Name() == "Unmarshal" {
				s.heap[p.Obj] = &Obj{Fields: map[string]Val{}, Opaque: true, Typ: o.Typ}
			}
		}
	}
}

var pureFns = map[string]bool{
	"fmt.Errorf": true, "fmt.Sprintf": true, "fmt.Sprint": true, "errors.Is": true, "errors.New": true,
	"errors.Join": true, "math.Max": true, "math.Min": true,
}

// pure gives the operator of a side-effect free library function.
func (m *Machine) pure(e *Event) string {
	if e.Fn == nil {
		if e.Method != nil && (e.Method.Name() == "Error" || pureMethods[e.Method.FullName()]) {
			return "m:" + e.Method.FullName()
		}
		return ""
	}
	if e.Fn.Pkg == nil && e.Fn.Origin() == nil {
		return ""
	}
	var p string
	fn := e.Fn
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return ""
	}
	p = fn.Pkg.Pkg.Path()
	if fn.Signature.Recv() != nil {
		n := fn.String()
		if pureMethods[n] {
			return n
		}
		return ""
	}
	n := p + "." + fn.Name()
	switch {
	case pureFns[n]:
		return n
	case p == "strings" && fn.Name() != "NewReader" && fn.Name() != "NewReplacer":
		return n
	case p == "path/filepath" && !strings.HasPrefix(fn.Name(), "Walk") && fn.Name() != "Glob" && fn.Name() != "Abs":
		return n
	case p == "path", p == "strconv", p == "unicode", p == "unicode/utf8", p == "math", p == "cmp":
		return n
	case p == "slices" && (fn.Name() == "Contains" || fn.Name() == "Index"):
		return n
	case p == "github.com/pkg/errors" && (wrapOps[n] || fn.Name() == "New" || fn.Name() == "Errorf"):
		return n
	}
	return ""
}

var pureMethods = map[string]bool{
	"(*regexp.Regexp).MatchString":                           true,
	"(io/fs.DirEntry).Name":                                  true,
	"(io/fs.DirEntry).IsDir":                                 true,
	"(io/fs.FileInfo).IsDir":                                 true,
	"(io/fs.FileInfo).Name":                                  true,
	"(github.com/snivilised/nefilim.UniversalFS).IsRelative": true,
	"(github.com/snivilised/nefilim.Rel).IsRelative":         true,
}

// PureMethod declares a method free of side effects.
func PureMethod(name string) { pureMethods[name] = true }

// sameAs are the functions that one of the results of another is that of.
var sameAs = map[string]string{
	"strings.CutSuffix·0": "strings.TrimSuffix", "strings.CutSuffix·1": "strings.HasSuffix",
	"strings.CutPrefix·0": "strings.TrimPrefix", "strings.CutPrefix·1": "strings.HasPrefix",
	"strings.Cut·2": "strings.Contains",
}

func (m *Machine) pureApp(s *State, op string, t types.Type, ev *Event) Val {
	if o := sameAs[op]; o != "" {
		op = o
	}
	args := []Val{}
	if ev.Recv != nil {
		args = append(args, ev.Recv)
	}
	for _, a := range ev.Args {
		args = append(args, m.Deep(s, a))
	}
	// constant folding of what the rules need
	strs := func() ([]string, bool) {
		var out []string
		for _, a := range args {
			c, ok := a.(*Const)
			if !ok || c.V == nil || c.V.Kind() != constant.String {
				return nil, false
			}
			out = append(out, constant.StringVal(c.V))
		}
		return out, true
	}
	if ss, ok := strs(); ok {
		switch op {
		case "strings.ToLower":
			return Str(strings.ToLower(ss[0]))
		case "strings.TrimSpace":
			return Str(strings.TrimSpace(ss[0]))
		case "strings.HasSuffix":
			return Bool(strings.HasSuffix(ss[0], ss[1]))
		case "strings.HasPrefix":
			return Bool(strings.HasPrefix(ss[0], ss[1]))
		case "strings.Contains":
			return Bool(strings.Contains(ss[0], ss[1]))
		case "strings.Index":
			return Int(int64(strings.Index(ss[0], ss[1])))
		case "strings.LastIndex":
			return Int(int64(strings.LastIndex(ss[0], ss[1])))
		case "strings.TrimSuffix":
			return Str(strings.TrimSuffix(ss[0], ss[1]))
		case "strings.TrimPrefix":
			return Str(strings.TrimPrefix(ss[0], ss[1]))
		case "strings.TrimRight":
			return Str(strings.TrimRight(ss[0], ss[1]))
		case "strings.TrimLeft":
			return Str(strings.TrimLeft(ss[0], ss[1]))
		case "strings.Trim":
			return Str(strings.Trim(ss[0], ss[1]))
		case "strings.ToUpper":
			return Str(strings.ToUpper(ss[0]))
		case "strings.EqualFold":
			return Bool(strings.EqualFold(ss[0], ss[1]))
		case "strings.Count":
			return Int(int64(strings.Count(ss[0], ss[1])))
		case "strings.ContainsAny":
			return Bool(strings.ContainsAny(ss[0], ss[1]))
		case "strings.IndexAny":
			return Int(int64(strings.IndexAny(ss[0], ss[1])))
		case "strings.Compare":
			return Int(int64(strings.Compare(ss[0], ss[1])))
		case "strings.ReplaceAll":
			return Str(strings.ReplaceAll(ss[0], ss[1], ss[2]))
		case "strings.Cut·0", "strings.Cut·1":
			before, after, _ := strings.Cut(ss[0], ss[1])
			if op == "strings.Cut·0" {
				return Str(before)
			}
			return Str(after)
		}
	}
	if len(args) > 0 {
		if x, ok := args[0].(*App); ok && x.Op == "+" && len(args) == 2 && args[1].Key() == x.Args[0].Key() {
			switch op {
			case "strings.TrimPrefix":
				return x.Args[1]
			case "strings.HasPrefix":
				return True
			}
		}
		if op == "unicode/utf8.RuneCountInString" {
			str := types.Typ[types.String]
			return m.lenOf(s, m.convert(args[0], str, types.NewSlice(types.Universe.Lookup("rune").Type())), "len")
		}
	}
	if op == "errors.Is" {
		if b, ok := s.Decide(mk(op, t, args...)); ok {
			return Bool(b)
		}
		if len(ev.Args) == 2 {
			switch m.errIs(s, ev.Args[0], ev.Args[1], 0) {
			case 1:
				return True
			case 0:
				return False
			}
		}
	}
	a := mk(op, t, args...)
	if wrapOps[op] && s.IsNilKnown(args[0]) {
		return Nil
	}
	return a
}

// Deep rewrites a value into one without references into the heap where its
// content is exactly known.
func (m *Machine) Deep(s *State, v Val) Val {
	switch x := v.(type) {
	case *SliceRef:
		args := make([]Val, x.N)
		for i := range args {
			o := s.heap[x.Obj]
			var e Val
			if o != nil {
				e = o.Fields[fmt.Sprintf("[%d]", x.Lo+i)]
			}
			if e == nil {
				e = Nil
			}
			args[i] = m.Deep(s, e)
		}
		return mk("list", nil, args...)
	case *Iface:
		switch x.V.(type) {
		case *Const, *Tok, *App:
			return x.V
		}
	}
	return v
}

func (m *Machine) ret(s *State, f *Frame, res []Val, in ssa.Instruction) ([]*State, *Outcome, bool) {
	if m.Watch != nil && m.Watch(f.Fn) && m.On != nil {
		m.On(s, &Event{Kind: "leave", Fn: f.Fn, Results: res, Instr: in})
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		s.gcWith(res)
		return nil, &Outcome{State: s, Results: res}, false
	}
	c := s.top()
	if f.isDefer {
		if c.panicking {
			if c.recovered {
				return m.recoverReturn(s, c, in)
			}
			return m.unwind(s, in)
		}
		// the RunDefers instruction continues
		return nil, nil, true
	}
	if f.call != nil {
		if len(res) == 1 {
			c.env[f.call] = res[0]
		} else {
			c.env[f.call] = &Tuple{V: res}
		}
		c.ip++
	}
	return nil, nil, true
}

func (s *State) gcWith(res []Val) {
	for i, r := range res {
		s.Vals[fmt.Sprintf("·res%d", i)] = r
	}
	s.gc()
	for i := range res {
		delete(s.Vals, fmt.Sprintf("·res%d", i))
	}
}

// raise starts a panic in the top frame.
func (m *Machine) raise(s *State, v Val, in ssa.Instruction) ([]*State, *Outcome, bool) {
	f := s.top()
	f.panicking = true
	f.recovered = false
	f.panicVal = v
	return m.unwind(s, in)
}

func (m *Machine) unwind(s *State, in ssa.Instruction) ([]*State, *Outcome, bool) {
	for {
		f := s.top()
		if f.recovered {
			return m.recoverReturn(s, f, in)
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return m.invoke(s, f, d.instr, d.call, d.fnv, d.args, nil, true)
		}
		v := f.panicVal
		if m.Watch != nil && m.Watch(f.Fn) && m.On != nil {
			m.On(s, &Event{Kind: "unwind", Fn: f.Fn, Instr: in})
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			return nil, &Outcome{State: s, Panicked: true, PanicVal: v}, false
		}
		c := s.top()
		c.panicking = true
		c.recovered = false
		c.panicVal = v
	}
}

func (m *Machine) recoverReturn(s *State, f *Frame, in ssa.Instruction) ([]*State, *Outcome, bool) {
	// run what is still deferred, then the recover block
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		return m.invoke(s, f, d.instr, d.call, d.fnv, d.args, nil, true)
	}
	f.panicking = false
	f.recovered = false
	f.panicVal = nil
	if f.Fn.Recover == nil {
		var res []Val
		r := f.Fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			res = append(res, m.Zero(r.At(i).Type()))
		}
		return m.ret(s, f, res, in)
	}
	f.Blk = f.Fn.Recover
	f.ip = 0
	return nil, nil, true
}

func (m *Machine) builtin(s *State, f *Frame, in ssa.Instruction, b *ssa.Builtin, args []Val, res *ssa.Call, c *ssa.CallCommon) ([]*State, *Outcome, bool) {
	var r Val = Nil
	var t types.Type
	if res != nil {
		t = res.Type()
	}
	switch b.Name() {
	case "len", "cap":
		m.mapGet(s, args[0], in)
		r = m.lenOf(s, args[0], b.Name())
	case "append":
		r = m.append(s, f, in, args, t, c)
	case "copy":
		r = mk("copied", t, args...)
		dst, ok1 := args[0].(*SliceRef)
		if src, ok2 := args[1].(*SliceRef); ok1 && ok2 {
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			n := min(dst.N, src.N)
			var vs []Val
			for i := 0; i < n; i++ {
				vs = append(vs, s.loadPath(src.Obj, fmt.Sprintf("[%d]", src.Lo+i), et))
			}
			for i, v := range vs {
				s.storePath(dst.Obj, fmt.Sprintf("[%d]", dst.Lo+i), v, et)
			}
			r = Int(int64(n))
		} else if (IsNil(args[0]) || IsNil(args[1])) && t != nil {
			r = Int(0)
		}
		m.emit(s, &Event{Kind: "copy", Args: args, Instr: in})
	case "delete":
		id := mapObj(args[0])
		o := s.obj(id, c.Args[0].Type())
		if o.Opaque {
			s.heap[id] = o.with("{"+args[1].Key()+"}", mk("absent", nil))
		} else {
			s.heap[id] = o.without("{" + args[1].Key() + "}")
		}
		m.emit(s, &Event{Kind: "mapdel", Obj: id, Path: args[1].Key(), Args: args, Instr: in})
	case "close":
		m.emit(s, &Event{Kind: "close", Args: args, Instr: in})
	case "recover":
		n := len(s.frames)
		if n >= 2 && f.isDefer && s.frames[n-2].panicking && !s.frames[n-2].recovered {
			r = s.frames[n-2].panicVal
			s.frames[n-2].recovered = true
			if _, ok := r.(*Iface); !ok {
				if c, ok := r.(*Const); ok {
					r = &Iface{Dyn: types.Typ[types.String], V: c}
				}
			}
		}
	case "min", "max":
		if res != nil && len(args) == 2 && isIntType(t) {
			// what is less than the other is a matter of its own
			less, more := 0, 1
			if b.Name() == "max" {
				less, more = 1, 0
			}
			pick := func(i int) func(*State) {
				return func(t *State) {
					g := t.top()
					g.env[res] = m.cap(t, g, res, args[i])
					g.ip++
				}
			}
			c := Lt(args[0], args[1])
			if _, known := s.Decide(c); !known {
				f.markLoops(m, f.Blk)
			}
			ns, sync := m.fork(s, c, pick(less), pick(more))
			if sync {
				return []*State{s}, nil, false
			}
			return ns, nil, false
		}
		r = m.minmax(b.Name(), t, args)
	case "print", "println":
	case "ssa:wrapnilchk":
		r = args[0]
	case "clear":
		m.emit(s, &Event{Kind: "clear", Args: args, Instr: in})
	default:
		r = mk("builtin:"+b.Name(), t, args...)
	}
	if res != nil {
		f.env[res] = m.cap(s, f, res, r)
		f.ip++
		return nil, nil, true
	}
	// deferred builtin
	if f.panicking {
		return m.unwind(s, in)
	}
	return nil, nil, true
}

func (m *Machine) minmax(op string, t types.Type, args []Val) Val {
	var ks []string
	by := map[string]Val{}
	for _, a := range args {
		ks = append(ks, a.Key())
		by[a.Key()] = a
	}
	sort.Strings(ks)
	var vs []Val
	for i, k := range ks {
		if i > 0 && ks[i-1] == k {
			continue
		}
		vs = append(vs, by[k])
	}
	// constants fold into one
	var rest []Val
	var best *Const
	for _, v := range vs {
		c, ok := isConst(v)
		if _, isInt := intConst(v); !ok || !isInt {
			rest = append(rest, v)
			continue
		}
		if best == nil || constant.Compare(c.V, map[string]token.Token{"min": token.LSS, "max": token.GTR}[op], best.V) {
			best = c
		}
	}
	if best != nil {
		rest = append(rest, best)
	}
	if len(rest) == 1 {
		return rest[0]
	}
	return mk(op, t, rest...)
}

func (m *Machine) lenOf(s *State, v Val, op string) Val {
	switch x := v.(type) {
	case *SliceRef:
		return Int(int64(x.N))
	case *Const:
		if x.V == nil {
			return Int(0)
		}
		if x.V.Kind() == constant.String {
			return Int(int64(len(constant.StringVal(x.V))))
		}
	case *MapRef:
		o := s.heap[x.Obj]
		if o != nil && !o.Opaque && !m.symbolicKeys(o) {
			return Int(int64(len(o.Fields)))
		}
	case *App:
		if x.Op == "append" {
			// lengths add up
			return Add(m.lenOf(s, x.Args[0], "len"), m.lenOf(s, x.Args[1], "len"), types.Typ[types.Int])
		}
		if x.Op == "+" {
			return Add(m.lenOf(s, x.Args[0], "len"), m.lenOf(s, x.Args[1], "len"), types.Typ[types.Int])
		}
		if x.Op == "list" {
			return Int(int64(len(x.Args)))
		}
		if x.Op == "makeslice" {
			return x.Args[0]
		}
		if x.Op == "slice" && len(x.Args) == 3 {
			return Sub(x.Args[2], x.Args[1], types.Typ[types.Int])
		}
	}
	return mk("len", types.Typ[types.Int], v)
}

func (m *Machine) append(s *State, f *Frame, in ssa.Instruction, args []Val, t types.Type, c *ssa.CallCommon) Val {
	if len(args) == 1 {
		return args[0]
	}
	var et types.Type = types.Typ[types.Int]
	if st, ok := t.Underlying().(*types.Slice); ok {
		et = st.Elem()
	}
	a, aok := s.SliceElems(args[0], et)
	b, bok := s.SliceElems(args[1], et)
	if aok && bok && len(a)+len(b) <= 64 {
		if len(b) == 0 {
			return args[0]
		}
		name := "new " + m.site(f, in)
		s.stale(name)
		// the elements may have been renamed by the staling
		a0, b0 := m.eval(s, f, c.Args[0]), m.eval(s, f, c.Args[1])
		a, _ = s.SliceElems(a0, et)
		b, _ = s.SliceElems(b0, et)
		id := "⟨" + name + "⟩"
		s.heap[id] = &Obj{Fields: map[string]Val{}, Typ: t}
		for i, v := range append(append([]Val(nil), a...), b...) {
			s.storePath(id, fmt.Sprintf("[%d]", i), v, et)
		}
		return &SliceRef{Obj: id, N: len(a) + len(b)}
	}
	if bok && len(b) == 0 {
		return args[0]
	}
	if aok && len(a) == 0 {
		return args[1]
	}
	x, y := args[0], args[1]
	if aok {
		x = m.Deep(s, x)
	}
	if bok {
		y = m.Deep(s, y)
	}
	return mk("append", t, x, y)
}
