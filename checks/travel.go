package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

// Travel is the analysis of a navigation: of the whole of it, descending no
// further than the tree node, and of the visit of an arbitrary node below it.
// What holds for both holds for every node, by induction over the depth of
// the recursion.
type Travel struct {
	c    *C
	m    *engine.Machine
	s    Session
	Name string
	// Build holds the navigators (one per outcome of the set up).
	Built []engine.Outcome
	// Whole holds the outcomes of the navigation.
	Whole []engine.Outcome
	cuts  map[string]cut
	// Visit is the recursive function.
	visits []cut
	// Varying lists the locations that differ from one visit to the next.
	Varying map[string][]string
}

type cut struct {
	st   *engine.State
	fn   *ssa.Function
	args []engine.Val
}

// Client is the client's callback.
func (c *C) Client() engine.Val { return engine.NewNonNil("client", c.W.Type("core", "Client")) }

// Tree is the tree, any path but the empty one.
func (c *C) Tree(st *engine.State) engine.Val {
	t := engine.NewTok("tree", types.Typ[types.String])
	st.Assume(engine.Eq(t, engine.Str("")), false)
	return t
}

// NewTravel sets a navigation up.
func (c *C) NewTravel(name string, m *engine.Machine, st *engine.State, s Session) *Travel {
	t := &Travel{c: c, m: m, s: s, Name: name, cuts: map[string]cut{}, Varying: map[string][]string{}}
	on := m.On
	m.On = nil
	g := engine.Generations
	engine.Generations = 40 // every option of the session is told apart
	t.Built = c.Build(m, st, s)
	engine.Generations = g
	m.On = on
	return t
}

// Run analyses the whole navigation.
func (t *Travel) Run(start func(*engine.State)) []engine.Outcome {
	m := t.m
	on := m.On
	m.On = func(s *engine.State, e *engine.Event) {
		if e.Kind == "call" && e.Recursive {
			t.capture(s, e)
		}
		if on != nil {
			on(s, e)
		}
	}
	ctx := m.Param("ctx", t.c.W.Fn("", "Prime").Params[0].Type())
	if p := t.c.ctxType(); p != nil {
		ctx = engine.NewNonNil("ctx", p)
	}
	for _, b := range t.Built {
		if b.Panicked || len(b.Results) == 0 {
			continue
		}
		st := b.State.Clone()
		if start != nil {
			start(st)
		}
		t.Whole = append(t.Whole, t.c.Invoke(m, st, b.Results[0], "Navigate", ctx)...)
	}
	m.On = on
	return t.Whole
}

func (c *C) ctxType() types.Type {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == "context" {
			return p.Pkg.Scope().Lookup("Context").Type()
		}
	}
	return nil
}

// capture keeps the state in which a visit of a child node begins.
func (t *Travel) capture(s *engine.State, e *engine.Event) {
	keep := map[string]engine.Val{}
	for i, a := range e.Args {
		keep[fmt.Sprintf("arg%d", i)] = a
	}
	d := s.Detach(keep)
	for n := range d.Vals {
		if !t.setup(n) && keep[n] == nil {
			delete(d.Vals, n)
		}
	}
	d = d.Detach(nil)
	d.Mon = map[string]string{}
	d.Trace = nil
	k := e.Fn.String() + d.Key()
	if _, ok := t.cuts[k]; !ok {
		t.cuts[k] = cut{st: d, fn: e.Fn, args: append([]engine.Val(nil), e.Args...)}
	}
}

// setup says whether a value was kept when the session was built.
func (t *Travel) setup(name string) bool {
	for _, b := range t.Built {
		if _, ok := b.State.Vals[name]; ok {
			return true
		}
	}
	return false
}

// nodeIn finds the node within a servant.
func nodeIn(s *engine.State, v engine.Val, nodeT types.Type) engine.Val {
	switch x := v.(type) {
	case *engine.Iface:
		return nodeIn(s, x.V, nodeT)
	case *engine.Struct:
		for i, f := range x.F {
			if pt, ok := x.T.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), nodeT) {
				return f
			}
			if n := nodeIn(s, f, nodeT); n != nil {
				return n
			}
		}
	case *engine.Ptr:
		if tt := s.TypeOf(x.Obj); tt != nil && x.Path == "" {
			if types.Identical(tt, nodeT) {
				return x
			}
			if u, ok := tt.Underlying().(*types.Struct); ok {
				if types.Identical(tt, nodeT) {
					return x
				}
				return nodeIn(s, s.Load(x, u), nodeT)
			}
		}
	case *engine.Tok:
		if pt, ok := typ(x).(*types.Pointer); ok && types.Identical(pt.Elem(), nodeT) {
			return x
		}
	}
	return nil
}

func typ(x *engine.Tok) types.Type {
	if x.T == nil {
		return nil
	}
	return x.T.Underlying()
}

func (c *C) nodeT() types.Type { return c.W.Named("core", "Node") }

// NodeOf is the node a servant refers to.
func (c *C) NodeOf(s *engine.State, v engine.Val) engine.Val { return nodeIn(s, v, c.nodeT()) }

func replaceNode(s *engine.State, v engine.Val, nodeT types.Type, n engine.Val) engine.Val {
	switch x := v.(type) {
	case *engine.Iface:
		return &engine.Iface{Dyn: x.Dyn, V: replaceNode(s, x.V, nodeT, n)}
	case *engine.Struct:
		r := &engine.Struct{T: x.T, F: append([]engine.Val(nil), x.F...)}
		for i, f := range x.F {
			r.F[i] = replaceNode(s, f, nodeT, n)
		}
		return r
	case *engine.Ptr:
		if tt := s.TypeOf(x.Obj); tt != nil && x.Path == "" && types.Identical(tt, nodeT) {
			return n
		}
	}
	return v
}

// Visits prepares the visits of an arbitrary node: whatever differs between the
// start of the navigation and the visit of a child is made arbitrary.
func (t *Travel) Visits() []cut {
	if t.visits != nil {
		return t.visits
	}
	nodeT := t.c.nodeT()
	var ks []string
	for k := range t.cuts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		st := t.cuts[k].st
		for _, id := range st.HeapIDs() {
			before := t.startField(id)
			if before == nil {
				continue
			}
			for p, v := range st.ObjFields(id) {
				if b, ok := before[p]; ok && b.Key() == v.Key() {
					continue
				}
				c, ok := v.(*engine.Const)
				if !ok || c.V == nil {
					continue
				}
				if n, isInt := engine.IntOf(c); !isInt || n == 0 && before[p] == nil {
					continue
				}
				t.Varying[id] = appendNew(t.Varying[id], p)
			}
		}
	}
	facts := map[string]bool{}
	for _, b := range t.Built {
		for _, a := range b.State.Atoms() {
			facts[a] = true
		}
	}
	seen := map[string]bool{}
	for _, k := range ks {
		cu := t.cuts[k]
		st := cu.st.Clone()
		var args []engine.Val
		for _, a := range cu.args {
			args = append(args, replaceNode(st, a, nodeT, t.Node()))
		}
		for id, ps := range t.Varying {
			for _, p := range ps {
				if c, ok := st.ObjFields(id)[p].(*engine.Const); ok || st.TypeOf(id) != nil {
					var ct types.Type = types.Typ[types.Int]
					if ok {
						ct = c.T
					}
					st.Field(id, p, engine.NewTok("any "+strings.Trim(id, "⟨⟩")+p, ct))
				}
			}
		}
		st.Forget(func(v engine.Val) bool {
			k := v.Key()
			return !facts[k+"=true"] && !facts[k+"=false"]
		})
		for i, a := range args {
			st.Vals[fmt.Sprintf("arg%d", i)] = a
		}
		st = st.Detach(nil)
		kk := st.Key()
		if seen[kk] {
			continue
		}
		seen[kk] = true
		t.visits = append(t.visits, cut{st: st, fn: cu.fn, args: args})
	}
	return t.visits
}

func appendNew(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

func (t *Travel) startField(id string) map[string]engine.Val {
	for _, b := range t.Built {
		if b.State == nil {
			continue
		}
		if f := b.State.ObjFields(id); f != nil {
			return f
		}
		if b.State.TypeOf(id) != nil {
			return map[string]engine.Val{}
		}
	}
	return nil
}

// Node is the arbitrary node visited.
func (t *Travel) Node() engine.Val {
	return engine.NewNonNil("node", types.NewPointer(t.c.nodeT()))
}

// Visit analyses the visit of an arbitrary node.
func (t *Travel) Visit(start func(*engine.State)) []engine.Outcome {
	var outs []engine.Outcome
	for _, v := range t.Visits() {
		st := v.st.Clone()
		if start != nil {
			start(st)
		}
		outs = append(outs, t.m.Run(st, v.fn, v.args...)...)
	}
	return outs
}
