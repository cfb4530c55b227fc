package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

// Init runs the package initialisers of the library's packages named, so that
// package level variables have their initial contents.
func (c *C) Init(m *engine.Machine, rels ...string) *engine.State {
	st := m.NewState()
	on, model, op := m.On, m.Model, m.Opaque
	m.On, m.Model = nil, nil
	m.Opaque = func(fn *ssa.Function) bool { return fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil }
	for _, rel := range rels {
		p := c.W.pkg(rel)
		if g := p.Var("init$guard"); g != nil {
			st.StoreTo(&engine.Ptr{Obj: "g:" + g.String()}, engine.False, g.Type())
		}
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		outs := m.Run(st, fn)
		if len(outs) != 1 || outs[0].Panicked {
			c.Ob("init/"+rel, "the package initialiser has one outcome", false, c.W.Pos(fn.Pos()), "%d outcomes: %v", len(outs), func() (a []string) {
				for _, o := range outs {
					a = append(a, fmt.Sprint(o.Panicked, o.State.Atoms(), o.State.Trace.List()))
				}
				return a
			}())
			panic(Missing("initialiser of " + rel))
		}
		st = outs[0].State
	}
	m.On, m.Model, m.Opaque = on, model, op
	return st
}

// fieldsOf renders the contents of an object, for diagnostics.
func fieldsOf(st *engine.State, obj string) string {
	f := st.ObjFields(obj)
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + "=" + f[k].Key() + " ")
	}
	return b.String()
}

// one insists that a set-up step has a single outcome.
func (c *C) one(m *engine.Machine, what string, outs []engine.Outcome) engine.Outcome {
	if m.Err != nil {
		panic(fmt.Sprintf("%s: %v", what, m.Err))
	}
	if len(outs) != 1 || outs[0].Panicked {
		var b strings.Builder
		for _, o := range outs {
			fmt.Fprintf(&b, "panicked=%v %v; ", o.Panicked, o.State.Atoms())
		}
		panic(fmt.Sprintf("%s: %d outcomes: %s", what, len(outs), b.String()))
	}
	return outs[0]
}

// method resolves a method on an interface value whose dynamic type is known.
func (c *C) method(v engine.Val, name string) (engine.Val, engine.Val) {
	i, ok := v.(*engine.Iface)
	if !ok {
		panic(fmt.Sprintf("method %s: the dynamic type of %s is not known", name, v.Key()))
	}
	return &engine.Clos{Fn: c.W.MethodOf(i.Dyn, name)}, i.V
}

// Invoke calls a method on an interface value.
func (c *C) Invoke(m *engine.Machine, st *engine.State, v engine.Val, name string, args ...engine.Val) []engine.Outcome {
	f, r := c.method(v, name)
	return m.RunVal(st, f, append([]engine.Val{r}, args...)...)
}

// Session describes a navigation to set up through the public interface.
type Session struct {
	Resume   bool
	Parallel bool
	// WrongFacade gives a prime session the facade of a resume session, or the reverse
	WrongFacade bool
	// fields of the facade: Subscription, Tree, Handler, GetForest, O, From, Strategy
	Facade   map[string]engine.Val
	Settings func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val)
	// Composite is the composite that sets it up, given these arguments
	Composite string
	Args      []engine.Val
}

// NavInit lists the packages whose initial state matters to a navigation.
var NavInit = []string{"enums", "core", "pref", "internal/kernel", ""}

// Build runs the public set up functions up to the point where there is a
// navigator, and returns every outcome, the navigator being its result.
func (c *C) Build(m *engine.Machine, st *engine.State, s Session) []engine.Outcome {
	w := c.W
	fac, typ := "Prime", "Using"
	if s.Resume {
		fac, typ = "Resume", "Relic"
	}
	if s.WrongFacade {
		if typ == "Using" {
			typ = "Relic"
		} else {
			typ = "Using"
		}
	}
	ft := w.Named("pref", typ)
	f := st.New("facade", ft)
	var setField func(t types.Type, path string)
	setField = func(t types.Type, path string) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			fd := u.Field(i)
			if fd.Embedded() {
				setField(fd.Type(), path+"."+fd.Name())
				continue
			}
			if v, ok := s.Facade[fd.Name()]; ok {
				st.StoreTo(&engine.Ptr{Obj: f.Obj, Path: path + "." + fd.Name()}, v, fd.Type())
			}
		}
	}
	setField(ft, "")
	facade := &engine.Iface{Dyn: types.NewPointer(ft), V: f}
	var settings []engine.Val
	if s.Settings != nil {
		st, settings = s.Settings(m, st)
	}
	pf := w.Fn("", fac)
	sl := st.NewSlice("settings", pf.Params[1].Type(), settings...)
	if s.Composite != "" {
		o := c.one(m, s.Composite, m.Run(st, w.Fn("", s.Composite), s.Args...))
		return m.RunVal(o.State, o.Results[0], facade, sl)
	}
	o := c.one(m, fac, m.Run(st, pf, facade, sl))
	bs := o.Results[0]
	o.State.Vals["builders"] = bs
	if s.Parallel {
		rf := w.Fn("", "Run")
		o = c.one(m, "Run", m.Run(o.State, rf, engine.NewNonNil("wg", rf.Params[0].Type())))
	} else {
		o = c.one(m, "Walk", m.Run(o.State, w.Fn("", "Walk")))
	}
	o = c.one(m, "Configure", c.Invoke(m, o.State, o.Results[0], "Configure", engine.Nil))
	return c.Invoke(m, o.State, o.Results[0], "Extent", bs)
}
