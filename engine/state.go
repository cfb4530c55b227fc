package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokEQL = token.EQL
	tokLSS = token.LSS
)

// Obj is an abstract object; immutable, copied on write.
type Obj struct {
	Fields map[string]Val
	Opaque bool // unknown fields are opaque tokens (otherwise zero)
	Typ    types.Type
	Map    bool
	// Shared: other sessions can get at it, too.
	Shared bool
}

func (o *Obj) with(path string, v Val) *Obj {
	n := &Obj{Fields: make(map[string]Val, len(o.Fields)+1), Opaque: o.Opaque, Typ: o.Typ, Map: o.Map, Shared: o.Shared}
	for k, x := range o.Fields {
		n.Fields[k] = x
	}
	n.Fields[path] = v
	return n
}

func (o *Obj) without(path string) *Obj {
	n := &Obj{Fields: make(map[string]Val, len(o.Fields)), Opaque: o.Opaque, Typ: o.Typ, Map: o.Map, Shared: o.Shared}
	for k, x := range o.Fields {
		if k != path {
			n.Fields[k] = x
		}
	}
	return n
}

// has says whether something is known of a part whose path starts so.
func (o *Obj) has(prefix string) bool {
	for k := range o.Fields {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

type atom struct {
	v   Val
	val bool
}

type deferred struct {
	fnv   Val
	call  *ssa.CallCommon
	args  []Val
	instr ssa.Instruction
}

// Frame is one activation.
type Frame struct {
	Fn        *ssa.Function
	Blk       *ssa.BasicBlock
	prev      *ssa.BasicBlock
	ip        int
	env       map[ssa.Value]Val
	defers    []deferred
	call      *ssa.Call // in the caller; nil for root and for deferred calls
	ctx       int
	isDefer   bool
	panicking bool
	panicVal  Val
	recovered bool
	last      map[*ssa.Phi]Val        // values of the phis of loop headers
	loops     map[*ssa.BasicBlock]int // undecided loop marks: header -> visits
	iters     map[*ssa.BasicBlock]int // how often a loop has come back to its header
	given     []measure               // what the arguments were
}

// measure is what is kept of an argument: by which recursion can be seen to end.
type measure struct {
	key string
	obj string // of a slice
	n   int
	num bool // an integer that is known
}

func measures(args []Val) []measure {
	out := make([]measure, len(args))
	for i, a := range args {
		out[i].key = a.Key()
		if x, ok := a.(*SliceRef); ok {
			out[i].obj, out[i].n = x.Obj, x.N
		}
		_, out[i].num = intConst(a)
	}
	return out
}

// descends says whether a call goes on with less than the activation of the
// same function does: with a part of its slice, or with the next of its numbers
// and nothing else.
func (f *Frame) descends(args []Val) bool {
	now := measures(args)
	if len(now) != len(f.given) {
		return false
	}
	counts := false
	same := true
	for i, a := range now {
		b := f.given[i]
		if a.obj != "" && a.obj == b.obj && a.n < b.n {
			return true
		}
		if a.key != b.key {
			if a.num && b.num {
				counts = true
			} else {
				same = false
			}
		}
	}
	return counts && same
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	if f.last != nil {
		n.last = make(map[*ssa.Phi]Val, len(f.last))
		for k, v := range f.last {
			n.last[k] = v
		}
	}
	if f.iters != nil {
		n.iters = make(map[*ssa.BasicBlock]int, len(f.iters))
		for k, v := range f.iters {
			n.iters[k] = v
		}
	}
	if f.loops != nil {
		n.loops = make(map[*ssa.BasicBlock]int, len(f.loops))
		for k, v := range f.loops {
			n.loops[k] = v
		}
	}
	return &n
}

// State is one abstract state.
type State struct {
	m      *Machine
	frames []*Frame
	heap   map[string]*Obj
	atoms  map[string]atom
	// Mon is the monitor's (typestate automaton's) state.
	Mon map[string]string
	// Trace is the diagnostic path; it takes no part in state identity.
	Trace *TraceNode
	// Vals holds values the script wants to keep alive.
	Vals map[string]Val
}

type TraceNode struct {
	Prev *TraceNode
	Text string
}

func (t *TraceNode) List() []string {
	var out []string
	for n := t; n != nil; n = n.Prev {
		out = append(out, n.Text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) Clone() *State {
	n := &State{m: s.m, heap: make(map[string]*Obj, len(s.heap)), atoms: make(map[string]atom, len(s.atoms)),
		Mon: make(map[string]string, len(s.Mon)), Trace: s.Trace, Vals: make(map[string]Val, len(s.Vals))}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.atoms {
		n.atoms[k] = v
	}
	for k, v := range s.Mon {
		n.Mon[k] = v
	}
	for k, v := range s.Vals {
		n.Vals[k] = v
	}
	return n
}

// Note records a step of the diagnostic path.
func (s *State) Note(format string, a ...any) {
	s.Trace = &TraceNode{Prev: s.Trace, Text: fmt.Sprintf(format, a...)}
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// Depth is the number of active frames.
func (s *State) Depth() int { return len(s.frames) }

// Stack lists the functions being executed, outermost first.
func (s *State) Stack() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range s.frames {
		r = append(r, f.Fn)
	}
	return r
}

// ---- atoms ----------------------------------------------------------------

// Decide evaluates a condition under the current partition.
func (s *State) Decide(c Val) (bool, bool) {
	if b, ok := boolConst(c); ok {
		return b, true
	}
	if a, ok := s.atoms[c.Key()]; ok {
		return a.val, true
	}
	if b, ok := s.linked(c); ok {
		return b, true
	}
	a, ok := c.(*App)
	if !ok {
		return false, false
	}
	switch a.Op {
	case "not":
		b, ok := s.Decide(a.Args[0])
		return !b, ok
	case "eq":
		x, y := a.Args[0], a.Args[1]
		if isBool(x) || isBool(y) {
			if b, ok := s.Decide(x); ok {
				if d, ok := s.Decide(y); ok {
					return b == d, true
				}
			}
		}
		if cy, ok := isConst(y); ok {
			if isEmpty(cy) {
				// a string is empty precisely if its length is zero
				lo, hi, hasLo, hasHi := s.bounds(mk("len", types.Typ[types.Int], x))
				if hasLo && lo > 0 {
					return false, true
				}
				if hasHi && hi <= 0 {
					return true, true
				}
			}
			for _, at := range s.atoms {
				e, ok := at.v.(*App)
				if !ok || !at.val || e.Op != "eq" || e.Args[0].Key() != x.Key() {
					continue
				}
				if cz, ok := isConst(e.Args[1]); ok && cz.Key() != cy.Key() {
					return false, true
				}
				if cy.V == nil && NonNilVal(e.Args[1]) {
					return false, true
				}
			}
			if n, ok := intConst(y); ok {
				lo, hi, hasLo, hasHi := s.bounds(x)
				if hasLo && n < lo || hasHi && n > hi {
					return false, true
				}
			}
			if cy.V == nil {
				// x == y known and y non-nil handled above
				if ax, ok := x.(*App); ok && ax.Op == "choose" {
					return false, false
				}
			}
		} else {
			// both opaque: compare through known constants
			if cx, ok := s.constOf(x); ok {
				if cy, ok := s.constOf(y); ok {
					return cx.Key() == cy.Key(), true
				}
			}
			if b, ok := s.atoms[mk("lt", nil, x, y).Key()]; ok && b.val {
				return false, true
			}
			if b, ok := s.atoms[mk("lt", nil, y, x).Key()]; ok && b.val {
				return false, true
			}
		}
	case "lt":
		x, y := a.Args[0], a.Args[1]
		if n, ok := intConst(y); ok {
			lo, hi, hasLo, hasHi := s.bounds(x)
			if hasHi && hi < n {
				return true, true
			}
			if hasLo && lo >= n {
				return false, true
			}
		} else {
			if b, ok := s.atoms[mk("lt", nil, y, x).Key()]; ok && b.val {
				return false, true
			}
			e := Eq(x, y)
			if b, ok := s.atoms[e.Key()]; ok && b.val {
				return false, true
			}
		}
	case "errors.Is":
		if s.IsNilKnown(a.Args[0]) {
			return false, true
		}
		if a.Args[0].Key() == a.Args[1].Key() {
			return true, true
		}
		if b, ok := s.Decide(Eq(a.Args[0], a.Args[1])); ok && (b || plainError(a.Args[0])) {
			return b, true
		}
	case "and":
		l, lk := s.Decide(a.Args[0])
		r, rk := s.Decide(a.Args[1])
		if lk && !l || rk && !r {
			return false, true
		}
		if lk && rk {
			return true, true
		}
	}
	return false, false
}

// linked decides a boolean that is known to equal, or not to equal, another one that is known.
func (s *State) linked(c Val) (bool, bool) {
	k := ""
	for _, at := range s.atoms {
		e, ok := at.v.(*App)
		if !ok || e.Op != "eq" || !isBool(e.Args[0]) && !isBool(e.Args[1]) {
			continue
		}
		if k == "" {
			k = c.Key()
		}
		for i := range e.Args {
			if e.Args[i].Key() != k {
				continue
			}
			if b, ok := boolConst(e.Args[1-i]); ok {
				return b == at.val, true
			}
			if o, ok := s.atoms[e.Args[1-i].Key()]; ok {
				return o.val == at.val, true
			}
		}
	}
	return false, false
}

func isEmpty(c *Const) bool {
	return c.V != nil && c.V.Kind() == constant.String && constant.StringVal(c.V) == ""
}

func isBool(v Val) bool {
	t := typeOf(v)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (s *State) constOf(x Val) (*Const, bool) {
	if c, ok := isConst(x); ok {
		return c, true
	}
	for _, at := range s.atoms {
		e, ok := at.v.(*App)
		if ok && at.val && e.Op == "eq" && e.Args[0].Key() == x.Key() {
			if c, ok := isConst(e.Args[1]); ok {
				return c, true
			}
		}
	}
	return nil, false
}

// ConstOf gives the constant a value is known to equal on this partition.
func (s *State) ConstOf(x Val) (*Const, bool) { return s.constOf(x) }

func (s *State) bounds(x Val) (lo, hi int64, hasLo, hasHi bool) {
	if isUnsigned(x) {
		lo, hasLo = 0, true
	}
	if a, ok := x.(*App); ok && a.Op == "sum" {
		// as much as its parts are together
		l, h, hasL, hasH := int64(0), int64(0), true, true
		for _, y := range a.Args {
			if n, ok := intConst(y); ok {
				l, h = l+n, h+n
				continue
			}
			a, b, hasA, hasB := s.bounds(y)
			l, h, hasL, hasH = l+a, h+b, hasL && hasA, hasH && hasB
		}
		if hasL && (!hasLo || l > lo) {
			lo, hasLo = l, true
		}
		if hasH {
			hi, hasHi = h, true
		}
	}
	k := x.Key()
	if a, ok := x.(*App); ok && a.Op == "len" && len(a.Args) == 1 {
		if at, ok := s.atoms[Eq(a.Args[0], Str("")).Key()]; ok {
			if at.val {
				return 0, 0, true, true
			}
			lo = 1
		}
	}
	ne := map[int64]bool{}
	for _, at := range s.atoms {
		e, ok := at.v.(*App)
		if !ok || len(e.Args) != 2 || e.Args[0].Key() != k {
			continue
		}
		n, ok := intConst(e.Args[1])
		if !ok {
			continue
		}
		switch e.Op {
		case "eq":
			if at.val {
				return n, n, true, true
			}
			ne[n] = true
		case "lt":
			if at.val {
				if !hasHi || n-1 < hi {
					hi, hasHi = n-1, true
				}
			} else if !hasLo || n > lo {
				lo, hasLo = n, true
			}
		}
	}
	for hasLo && ne[lo] {
		lo++
	}
	for hasHi && ne[hi] {
		hi--
	}
	return
}

// IsNilKnown: v is nil on this partition.
func (s *State) IsNilKnown(v Val) bool {
	b, ok := s.Decide(Eq(v, Nil))
	return ok && b
}

// NonNilKnown: v is not nil on this partition.
func (s *State) NonNilKnown(v Val) bool {
	b, ok := s.Decide(Eq(v, Nil))
	return ok && !b
}

// Assume restricts the partition; false when it is contradictory.
func (s *State) Assume(c Val, val bool) bool {
	if b, ok := s.Decide(c); ok {
		return b == val
	}
	if a, ok := c.(*App); ok && a.Op == "not" {
		return s.Assume(a.Args[0], !val)
	}
	s.atoms[c.Key()] = atom{c, val}
	// an interval that became empty is a contradiction
	if a, ok := c.(*App); ok && len(a.Args) == 2 {
		lo, hi, hl, hh := s.bounds(a.Args[0])
		if hl && hh && lo > hi {
			return false
		}
		if a.Op == "errors.Is" && val {
			if !s.Assume(Eq(a.Args[0], Nil), false) {
				return false
			}
		}
	}
	return true
}

// Atoms renders the partition.
func (s *State) Atoms() []string {
	var out []string
	for k, a := range s.atoms {
		out = append(out, fmt.Sprintf("%s=%v", k, a.val))
	}
	sort.Strings(out)
	return out
}

// AtomTrue reports whether the atom is known with that value.
func (s *State) Known(c Val) (bool, bool) { return s.Decide(c) }

// EachAtom visits the atoms of the partition.
func (s *State) EachAtom(fn func(v Val, val bool)) {
	keys := make([]string, 0, len(s.atoms))
	for k := range s.atoms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fn(s.atoms[k].v, s.atoms[k].val)
	}
}

// ---- heap -------------------------------------------------------------------

func (s *State) obj(id string, t types.Type) *Obj {
	o := s.heap[id]
	if o == nil {
		if strings.HasPrefix(id, "⟨new ") {
			s.m.fail(fmt.Errorf("internal: %s was collected while in use", id))
		}
		o = &Obj{Opaque: true, Typ: t}
	}
	return o
}

// Load reads a typed location.
func (s *State) Load(p *Ptr, t types.Type) Val {
	return s.loadPath(p.Obj, p.Path, t)
}

func (s *State) loadPath(obj, path string, t types.Type) Val {
	o := s.obj(obj, t)
	if v, ok := o.Fields[path]; ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		st := &Struct{T: u, F: make([]Val, u.NumFields())}
		for i := 0; i < u.NumFields(); i++ {
			st.F[i] = s.loadPath(obj, path+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return st
	}
	if u, ok := t.Underlying().(*types.Array); ok && u.Len() <= 256 && o.has(path+"[") {
		// an array that is copied as a whole
		a := &App{Op: "array", T: t}
		for i := int64(0); i < u.Len(); i++ {
			a.Args = append(a.Args, s.loadPath(obj, fmt.Sprintf("%s[%d]", path, i), u.Elem()))
		}
		return a
	}
	if !o.Opaque {
		return s.m.Zero(t)
	}
	if g, ok := s.m.globals[obj]; ok && path == "" {
		return &Tok{ID: obj, T: t, NonNil: s.m.globalNonNil[g]}
	}
	return &Tok{ID: "*" + strings.TrimPrefix(obj, "*") + path, T: t, NonNil: s.m.nonNilPath(obj, path)}
}

// StoreTo writes a typed location.
func (s *State) StoreTo(p *Ptr, v Val, t types.Type) {
	s.storePath(p.Obj, p.Path, v, t)
}

func (s *State) storePath(obj, path string, v Val, t types.Type) {
	if u, ok := t.Underlying().(*types.Struct); ok {
		o := s.obj(obj, t)
		if _, whole := o.Fields[path]; whole {
			s.heap[obj] = o.without(path)
		}
		switch x := v.(type) {
		case *Struct:
			for i := 0; i < u.NumFields(); i++ {
				s.storePath(obj, path+"."+u.Field(i).Name(), x.F[i], u.Field(i).Type())
			}
			return
		default:
			for i := 0; i < u.NumFields(); i++ {
				s.storePath(obj, path+"."+u.Field(i).Name(), s.m.fieldOf(v, u, i), u.Field(i).Type())
			}
			return
		}
	}
	if u, ok := t.Underlying().(*types.Array); ok {
		o := s.obj(obj, t)
		for p := range o.Fields {
			if p == path || strings.HasPrefix(p, path+"[") {
				o = o.without(p)
			}
		}
		s.heap[obj] = o
		if a, ok := v.(*App); ok && a.Op == "array" {
			for i, e := range a.Args {
				s.storePath(obj, fmt.Sprintf("%s[%d]", path, i), e, u.Elem())
			}
			return
		}
	}
	s.heap[obj] = s.obj(obj, t).with(path, v)
}

// ObjFields exposes the known fields of an object, sorted.
func (s *State) ObjFields(id string) map[string]Val {
	o := s.heap[id]
	if o == nil {
		return nil
	}
	return o.Fields
}

// Publish marks what can be reached from package level variables as shared.
func (s *State) Publish() {
	var keys []string
	seen := map[string]bool{}
	for k := range s.heap {
		if global(k) {
			keys = append(keys, k)
			seen[k] = true
		}
	}
	for len(keys) > 0 {
		k := keys[0]
		keys = keys[1:]
		for _, v := range s.heap[k].Fields {
			vk := v.Key()
			for id := range s.heap {
				if !seen[id] && strings.Contains(vk, id) {
					seen[id] = true
					keys = append(keys, id)
				}
			}
		}
	}
	for id := range seen {
		o := *s.heap[id]
		o.Shared = true
		s.heap[id] = &o
	}
}

// Shared says whether an object can be reached by other sessions.
func (s *State) Shared(id string) bool {
	if o := s.heap[id]; o != nil && o.Shared {
		return true
	}
	return global(id)
}

// global says whether a name is that of a package level variable, or of
// something that was read from one.
func global(id string) bool {
	for i := 0; ; {
		j := strings.Index(id[i:], "g:")
		if j < 0 {
			return false
		}
		i += j
		if i == 0 || strings.ContainsRune("*&(⟨ ,", rune(id[i-1])) {
			return true
		}
		i += 2
	}
}

// HeapIDs lists the known objects.
func (s *State) HeapIDs() []string {
	var out []string
	for k := range s.heap {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// SliceElems returns the elements of an exact slice.
func (s *State) SliceElems(v Val, elem types.Type) ([]Val, bool) {
	switch x := v.(type) {
	case *SliceRef:
		out := make([]Val, x.N)
		for i := range out {
			out[i] = s.loadPath(x.Obj, fmt.Sprintf("[%d]", x.Lo+i), elem)
		}
		return out, true
	case *Const:
		if x.V == nil {
			return nil, true
		}
	}
	return nil, false
}

// MapEntries returns the entries of an exact map keyed by constant keys.
func (s *State) MapEntries(v Val) (map[string]Val, bool) {
	m, ok := v.(*MapRef)
	if !ok {
		return nil, false
	}
	o := s.heap[m.Obj]
	if o == nil || o.Opaque {
		return nil, false
	}
	return o.Fields, true
}

// ---- staling ---------------------------------------------------------------

func (s *State) mentions(name string) bool {
	for k := range s.heap {
		if strings.Contains(k, name) {
			return true
		}
	}
	for _, o := range s.heap {
		for p, v := range o.Fields {
			if strings.Contains(p, name) || strings.Contains(v.Key(), name) {
				return true
			}
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			if strings.Contains(v.Key(), name) {
				return true
			}
		}
		for _, d := range f.defers {
			if strings.Contains(d.fnv.Key(), name) {
				return true
			}
			for _, a := range d.args {
				if strings.Contains(a.Key(), name) {
					return true
				}
			}
		}
		if f.panicVal != nil && strings.Contains(f.panicVal.Key(), name) {
			return true
		}
	}
	for k := range s.atoms {
		if strings.Contains(k, name) {
			return true
		}
	}
	for _, v := range s.Vals {
		if strings.Contains(v.Key(), name) {
			return true
		}
	}
	return false
}

func (s *State) rename(from, to string) {
	r := func(x string) string { return strings.ReplaceAll(x, from, to) }
	nh := make(map[string]*Obj, len(s.heap))
	ids := s.HeapIDs()
	for _, k := range ids {
		o := s.heap[k]
		n := &Obj{Fields: make(map[string]Val, len(o.Fields)), Opaque: o.Opaque, Typ: o.Typ, Map: o.Map, Shared: o.Shared}
		for p, v := range o.Fields {
			n.Fields[r(p)] = renameVal(v, from, to)
		}
		nk := r(k)
		if old, ok := nh[nk]; ok {
			n = mergeObj(nk, old, n)
		} else if old, ok := s.heap[nk]; ok && nk != k {
			n = mergeObj(nk, old, n)
		}
		nh[nk] = n
	}
	s.heap = nh
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = renameVal(v, from, to)
		}
		for i := range f.defers {
			f.defers[i].fnv = renameVal(f.defers[i].fnv, from, to)
			na := make([]Val, len(f.defers[i].args))
			for j, a := range f.defers[i].args {
				na[j] = renameVal(a, from, to)
			}
			f.defers[i].args = na
		}
		if f.panicVal != nil {
			f.panicVal = renameVal(f.panicVal, from, to)
		}
	}
	for k, v := range s.Vals {
		s.Vals[k] = renameVal(v, from, to)
	}
	na := make(map[string]atom, len(s.atoms))
	for k, a := range s.atoms {
		if strings.Contains(k, from) {
			a = atom{renameVal(a.v, from, to), a.val}
			if old, ok := na[a.v.Key()]; ok && old.val != a.val {
				delete(na, a.v.Key())
				continue
			}
		}
		na[a.v.Key()] = a
	}
	s.atoms = na
}

func mergeObj(id string, a, b *Obj) *Obj {
	n := &Obj{Fields: map[string]Val{}, Opaque: a.Opaque || b.Opaque, Typ: a.Typ, Map: a.Map || b.Map, Shared: a.Shared && b.Shared}
	ks := map[string]bool{}
	for k := range a.Fields {
		ks[k] = true
	}
	for k := range b.Fields {
		ks[k] = true
	}
	for k := range ks {
		x, y := a.Fields[k], b.Fields[k]
		if x != nil && y != nil && x.Key() == y.Key() {
			n.Fields[k] = x
		} else {
			var t types.Type
			if x != nil {
				t = typeOf(x)
			} else if y != nil {
				t = typeOf(y)
			}
			n.Fields[k] = &Tok{ID: "⟨weak " + id + k + "⟩", T: t}
		}
	}
	return n
}

// Generations is how many values made by earlier iterations of a loop are told
// apart.
var Generations = 3

// stale retires the value number name made by an earlier iteration.
func (s *State) stale(name string) {
	full := "⟨" + name + "⟩"
	if !s.mentions(full) {
		return
	}
	g := func(k int) string {
		if k == 0 {
			return full
		}
		return fmt.Sprintf("⟨%s~%d⟩", name, k)
	}
	for k := Generations - 1; k >= 0; k-- {
		if k == 0 || s.mentions(g(k)) {
			s.rename(g(k), g(k+1))
		}
	}
	// what is known about a retired value of the oldest generation is not
	// about one value any more
	old := g(Generations)
	for k := range s.atoms {
		if strings.Contains(k, old) {
			delete(s.atoms, k)
		}
	}
}

// ---- identity ---------------------------------------------------------------

// names lists the generated names a key mentions.
func (m *Machine) names(k string) []string {
	if n, ok := m.nameMemo[k]; ok {
		return n
	}
	var out []string
	r := k
	for {
		i := strings.Index(r, "⟨")
		if i < 0 {
			break
		}
		j := strings.Index(r[i:], "⟩")
		if j < 0 {
			break
		}
		n := r[i : i+j+len("⟩")]
		r = r[i+j:]
		if strings.IndexByte(n, '#') < 0 {
			continue
		}
		dup := false
		for _, x := range out {
			dup = dup || x == n
		}
		if !dup {
			out = append(out, n)
		}
	}
	if len(m.nameMemo) > 2000000 {
		m.nameMemo = map[string][]string{}
	}
	m.nameMemo[k] = out
	return out
}

// gc forgets the objects nothing refers to, and what is known about values
// nothing refers to.
func (s *State) gc() {
	live := map[string]bool{}
	var work []string
	add := func(v Val) {
		for _, n := range s.m.names(v.Key()) {
			if !live[n] {
				live[n] = true
				work = append(work, n)
			}
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			add(v)
		}
		for _, d := range f.defers {
			add(d.fnv)
			for _, a := range d.args {
				add(a)
			}
		}
		if f.panicVal != nil {
			add(f.panicVal)
		}
	}
	for _, v := range s.Vals {
		add(v)
	}
	idNames := map[string][]string{}
	byName := map[string][]string{}
	done := map[string]bool{}
	expand := func(id string) {
		if done[id] {
			return
		}
		for _, n := range idNames[id] {
			if !live[n] {
				return
			}
		}
		done[id] = true
		for k, v := range s.heap[id].Fields {
			add(v)
			if strings.Contains(k, "#") {
				for _, n := range s.m.names(k) {
					if !live[n] {
						live[n] = true
						work = append(work, n)
					}
				}
			}
		}
	}
	for id := range s.heap {
		idNames[id] = s.m.names(id)
		for _, n := range idNames[id] {
			byName[n] = append(byName[n], id)
		}
	}
	for id := range s.heap {
		if len(idNames[id]) == 0 {
			expand(id)
		}
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for _, id := range byName[n] {
			expand(id)
		}
	}
	for id := range s.heap {
		if !done[id] {
			delete(s.heap, id)
		}
	}
	if s.m.keepAtoms {
		return
	}
	for k, a := range s.atoms {
		for _, n := range s.m.names(a.v.Key()) {
			if !live[n] {
				delete(s.atoms, k)
				break
			}
		}
	}
}

func (s *State) key() string {
	var b strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&b, "F%d:%s/%d/%d/%v;", f.ctx, f.Fn.String(), f.Blk.Index, f.ip, f.panicking)
		var live []string
		for v, x := range f.env {
			live = append(live, v.Name()+"="+x.Key())
		}
		sort.Strings(live)
		b.WriteString(strings.Join(live, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&b, "D%s", d.fnv.Key())
			for _, a := range d.args {
				b.WriteString("," + a.Key())
			}
		}
		if f.panicVal != nil {
			b.WriteString("P" + f.panicVal.Key())
		}
		fmt.Fprintf(&b, "r%v", f.recovered)
		var ls []int
		for l := range f.loops {
			ls = append(ls, l.Index)
		}
		sort.Ints(ls)
		fmt.Fprintf(&b, "L%v", ls)
	}
	for _, id := range s.HeapIDs() {
		o := s.heap[id]
		ks := make([]string, 0, len(o.Fields))
		for k, v := range o.Fields {
			ks = append(ks, k+"="+v.Key())
		}
		sort.Strings(ks)
		fmt.Fprintf(&b, "H%s{%s}", id, strings.Join(ks, ","))
	}
	b.WriteString(strings.Join(s.Atoms(), "&"))
	ms := make([]string, 0, len(s.Mon))
	for k, v := range s.Mon {
		ms = append(ms, k+"="+v)
	}
	sort.Strings(ms)
	b.WriteString("M" + strings.Join(ms, ";"))
	vs := make([]string, 0, len(s.Vals))
	for k, v := range s.Vals {
		vs = append(vs, k+"="+v.Key())
	}
	sort.Strings(vs)
	b.WriteString("V" + strings.Join(vs, ";"))
	h := fnv.New128a()
	h.Write([]byte(b.String()))
	return string(h.Sum(nil))
}

var _ = constant.MakeBool

// New makes an object with zero contents, and a pointer to it.
func (s *State) New(id string, t types.Type) *Ptr {
	s.heap["⟨"+id+"⟩"] = &Obj{Fields: map[string]Val{}, Typ: t}
	return &Ptr{Obj: "⟨" + id + "⟩"}
}

// NewSlice makes a slice with exactly these elements.
func (s *State) NewSlice(id string, t types.Type, elems ...Val) Val {
	if len(elems) == 0 {
		return Nil
	}
	e := t.Underlying().(*types.Slice).Elem()
	o := "⟨" + id + "⟩"
	s.heap[o] = &Obj{Fields: map[string]Val{}, Typ: t}
	for i, v := range elems {
		s.storePath(o, fmt.Sprintf("[%d]", i), v, e)
	}
	return &SliceRef{Obj: o, N: len(elems)}
}

// Detach copies the state without the functions being executed, keeping the
// values given.
func (s *State) Detach(keep map[string]Val) *State {
	n := s.Clone()
	n.frames = nil
	for k, v := range keep {
		n.Vals[k] = v
	}
	n.gc()
	return n
}

// Key identifies the state.
func (s *State) Key() string { return s.key() }

// Forget drops what is known about values that satisfy the predicate.
func (s *State) Forget(drop func(v Val) bool) {
	for k, a := range s.atoms {
		if drop(a.v) {
			delete(s.atoms, k)
		}
	}
}

// TypeOf is the type an object was made with.
func (s *State) TypeOf(id string) types.Type {
	if o := s.heap[id]; o != nil {
		return o.Typ
	}
	return nil
}

// Field sets a raw location.
func (s *State) Field(id, path string, v Val) {
	if o := s.heap[id]; o != nil {
		s.heap[id] = o.with(path, v)
	}
}

// NewMap makes a map with exactly these entries, whose keys are constants.
func (s *State) NewMap(id string, keys, vals []Val) Val {
	o := &Obj{Fields: map[string]Val{}}
	for i, k := range keys {
		o.Fields["{"+k.Key()+"}"] = vals[i]
	}
	s.heap["⟨"+id+"⟩"] = o
	return &MapRef{Obj: "⟨" + id + "⟩"}
}
