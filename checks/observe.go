package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

// Setting is a call of one of the public option functions.
type Setting struct {
	Name string
	Args []engine.Val
	// Make makes the arguments in the state of the session.
	Make func(st *engine.State) []engine.Val
}

// Options makes the options of a session through the public functions.
func (c *C) Options(settings ...Setting) func(*engine.Machine, *engine.State) (*engine.State, []engine.Val) {
	return func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
		g := engine.Generations
		engine.Generations = 40
		defer func() { engine.Generations = g }()
		var out []engine.Val
		for i, s := range settings {
			args := s.Args
			if s.Make != nil {
				args = s.Make(st)
			}
			o := c.one(m, s.Name, m.Run(st, c.W.Fn("pref", s.Name), args...))
			st = o.State
			st.Vals[fmt.Sprintf("option%d", i)] = o.Results[0]
		}
		for i := range settings {
			out = append(out, st.Vals[fmt.Sprintf("option%d", i)])
		}
		return st, out
	}
}

// Opaque is a setting whose arguments are unknown values known by name.
func (c *C) Opaque(fn string, names ...string) Setting {
	f := c.W.Fn("pref", fn)
	s := Setting{Name: fn}
	for i, n := range names {
		s.Args = append(s.Args, engine.NewNonNil(n, f.Params[i].Type()))
	}
	return s
}

// Observers makes everything a client may observe or decide visible.
func (c *C) Observers() []Setting {
	return []Setting{
		c.Opaque("WithOnBegin", "onBegin"),
		c.Opaque("WithOnEnd", "onEnd"),
		c.Opaque("WithOnDescend", "onDescend"),
		c.Opaque("WithOnAscend", "onAscend"),
		c.Opaque("WithFaultHandler", "fault"),
		c.Opaque("WithSkipHandler", "skip"),
		c.Opaque("WithPanicHandler", "panic"),
		c.Opaque("WithHookQueryStatus", "queryStatus"),
		c.Opaque("WithHookReadDirectory", "readDirectory"),
		c.Opaque("WithHookSort", "sort"),
		c.Opaque("WithHookFileSubPath", "fileSubPath"),
		c.Opaque("WithHookDirectorySubPath", "directorySubPath"),
	}
}

// What names an event from the point of view of the client.
func What(e *engine.Event) string {
	if e.Recursive {
		return "visit"
	}
	bare := func(v engine.Val) string {
		if i, ok := v.(*engine.Iface); ok {
			v = i.V
		}
		if t, ok := v.(*engine.Tok); ok && strings.HasPrefix(t.ID, "⟨") {
			return strings.TrimSuffix(strings.TrimPrefix(t.ID, "⟨"), "⟩")
		}
		return ""
	}
	switch {
	case e.Fn != nil:
		return engine.FuncName(e.Fn)
	case e.Method != nil && e.Recv != nil:
		if b := bare(e.Recv); b != "" {
			return b + "." + e.Method.Name()
		}
		return "." + e.Method.Name()
	case e.FnVal != nil:
		if b := bare(e.FnVal); b != "" {
			return b
		}
		return e.FnVal.Key()
	}
	return ""
}

// observed are the events that matter to the rules about a traversal.
var observed = map[string]bool{
	"client": true, "visit": true, "onBegin": true, "onEnd": true, "onDescend": true, "onAscend": true,
	"fault.Accept": true, "skip.Ask": true, "panic.Rescue": true, "queryStatus": true, "readDirectory": true,
	"sort": true, "fileSubPath": true, "directorySubPath": true,
	"onWake": true, "onSleep": true,
}

// mayPanic: the client's code and the visits of children may panic.
func mayPanic(s *engine.State, e *engine.Event) bool {
	switch What(e) {
	case "client", "visit", "skip.Ask", "readDirectory":
		return true
	}
	return false
}

// anyPanic: the listeners may panic as well.
func anyPanic(s *engine.State, e *engine.Event) bool {
	switch What(e) {
	case "onDescend", "onAscend":
		return true
	}
	return mayPanic(s, e)
}

// Monitor is a typestate automaton over what happens during a traversal.
type Monitor func(s *engine.State, what, kind string, e *engine.Event)

// Watch attaches monitors to a machine.
func (c *C) Watch(m *engine.Machine, mons ...Monitor) {
	m.On = func(s *engine.State, e *engine.Event) {
		switch e.Kind {
		case "call", "ret", "panic":
		default:
			for _, f := range mons {
				f(s, "", e.Kind, e)
			}
			return
		}
		w := What(e)
		if observed[w] {
			switch e.Kind {
			case "call":
				var a []string
				for _, x := range e.Args {
					if k := x.Key(); len(k) < 60 {
						a = append(a, k)
					} else {
						a = append(a, "…")
					}
				}
				s.Note("%s(%s) @%s", w, strings.Join(a, ", "), c.short(e))
			case "panic":
				s.Note("%s panics", w)
			}
		}
		for _, f := range mons {
			f(s, w, e.Kind, e)
		}
	}
}

// short is the file and line of an event.
func (c *C) short(e *engine.Event) string {
	p := c.locate(e)
	return p[strings.LastIndexByte(p, '/')+1:]
}

// path renders how a state was reached.
func path(s *engine.State) string {
	l := s.Trace.List()
	if len(l) > 24 {
		l = append(append([]string{}, l[:10]...), append([]string{"…"}, l[len(l)-12:]...)...)
	}
	return strings.Join(l, " → ")
}

// Subscriptions of a navigation.
var Subscriptions = []string{"SubscribeUniversal", "SubscribeFiles", "SubscribeDirectories", "SubscribeDirectoriesWithFiles"}

// Plain is a navigation with observers and an unknown client.
func (c *C) Plain(sub string, st *engine.State, extra ...Setting) Session {
	return Session{
		Facade: map[string]engine.Val{
			"Subscription": c.W.Const("enums", sub),
			"Tree":         c.Tree(st),
			"Handler":      c.Client(),
		},
		Settings: c.Options(append(c.Observers(), extra...)...),
	}
}

// IsDir says what is known about the node visited being a directory.
func (c *C) IsDir(m *engine.Machine, s *engine.State, node engine.Val) (dir, known bool) {
	p, ok := node.(*engine.Ptr)
	if !ok {
		p = &engine.Ptr{Obj: "*" + node.Key()}
	}
	v := s.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + c.dirField()}, types.Typ[types.Bool])
	return s.Known(v)
}

// dirField is the field behind Node.IsDirectory: the first flag of the node
// that it, or what it calls, looks at.
func (c *C) dirField() string {
	seen := map[*ssa.Function]bool{}
	var find func(fn *ssa.Function) string
	find = func(fn *ssa.Function) string {
		if fn == nil || seen[fn] {
			return ""
		}
		seen[fn] = true
		var calls []*ssa.Function
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					pt := in.X.Type().Underlying().(*types.Pointer).Elem()
					if f := pt.Underlying().(*types.Struct).Field(in.Field); types.Identical(pt, c.W.Type("core", "Node")) && types.Identical(f.Type().Underlying(), types.Typ[types.Bool]) {
						return "." + f.Name()
					}
				case ssa.CallInstruction:
					calls = append(calls, in.Common().StaticCallee())
				}
			}
		}
		for _, f := range calls {
			if field := find(f); field != "" {
				return field
			}
		}
		return ""
	}
	if field := find(c.W.Method("core", "Node", "IsDirectory")); field != "" {
		return field
	}
	panic(Missing("the field behind Node.IsDirectory"))
}

// Sentinel is the value of an error variable of io/fs.
func (c *C) Sentinel(pkg, name string) engine.Val {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g := p.Var(name); g != nil {
				return &engine.Tok{ID: "g:" + g.String(), T: g.Type().(*types.Pointer).Elem(), NonNil: true}
			}
		}
	}
	panic(Missing("variable " + pkg + "." + name))
}

// Is is the condition errors.Is(err, target).
func Is(err, target engine.Val) engine.Val {
	return engine.MkApp("errors.Is", types.Typ[types.Bool], err, target)
}

// knownTrue: the condition holds on this path.
func knownTrue(s *engine.State, v engine.Val) bool {
	b, ok := s.Known(v)
	return ok && b
}

func knownFalse(s *engine.State, v engine.Val) bool {
	b, ok := s.Known(v)
	return ok && !b
}
