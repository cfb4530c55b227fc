package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P37", Min: 60,
		Rule: "for options of each kind, the set of abstract paths of a session that is given the options of another one, used or not, is that of a session that is given the settings they were made from",
		Run:  runP37})
}

// metricsOf renders all that the result of a session tells.
func (c *C) metricsOf(m *engine.Machine, o engine.Outcome) string {
	if len(o.Results) != 2 || !o.State.NonNilKnown(o.Results[0]) {
		return "no result"
	}
	metrics := c.enumConsts("Metric")
	var names, out []string
	for n := range metrics {
		names = append(names, n)
	}
	sort.Strings(names)
	on := m.On
	m.On = nil
	defer func() { m.On = on }()
	for _, r := range c.Invoke(m, o.State.Clone(), o.Results[0], "Metrics") {
		if r.Panicked || !r.State.NonNilKnown(r.Results[0]) {
			return "no metrics"
		}
		for _, n := range names {
			for _, k := range c.Invoke(m, r.State.Clone(), r.Results[0], "Count", metrics[n]) {
				if k.Panicked {
					return "no count"
				}
				out = append(out, n+"="+k.Results[0].Key())
			}
		}
	}
	return strings.Join(out, " ")
}

func runP37(c *C) {
	w := c.W
	uintT := types.Typ[types.Uint]
	g := grove{"": {"f1", "f2", "d1"}, "d1": {"f3"}}
	type mode struct {
		name, sub string
		settings  func(st *engine.State) []Setting
		parallel  bool
		// change is what the client does to the options in between, and instead the settings that have the same effect
		change  func(st *engine.State, o engine.Val)
		instead func(st *engine.State) []Setting
	}
	optT := w.Named("pref", "Options")
	zero := func(path string) func(*engine.State, engine.Val) {
		return func(st *engine.State, o engine.Val) {
			p := o.(*engine.Ptr)
			t := fieldType(optT, path)
			for _, f := range leavesOf(t, path) {
				st.StoreTo(&engine.Ptr{Obj: p.Obj, Path: p.Path + f.path}, zeroOf(f.t), f.t)
			}
		}
	}
	none := func(*engine.State) []Setting { return nil }
	filter := func(st *engine.State) []Setting {
		return []Setting{c.filterSetting(map[string]engine.Val{".Node": c.filterDef(st, "node filter", "FilterDef", "FilterTypeGlob", nil)})}
	}
	child := func(st *engine.State) []Setting {
		return []Setting{c.filterSetting(map[string]engine.Val{".Child": c.filterDef(st, "child filter", "ChildFilterDef", "FilterTypeGlob", nil)})}
	}
	slice := func(reverse bool) func(st *engine.State) []Setting {
		return func(st *engine.State) []Setting {
			return []Setting{{Name: "WithSamplingOptions", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.object(st, "sampling options", w.Named("pref", "SamplingOptions"), map[string]engine.Val{
					".Type": w.Const("enums", "SampleTypeSlice"), ".InReverse": engine.Bool(reverse), ".NoOf.Files": engine.IntT(1, uintT), ".NoOf.Directories": engine.IntT(1, uintT)})}
			}}}
		}
	}
	sample := func(st *engine.State) []Setting {
		return []Setting{
			c.filterSetting(map[string]engine.Val{".Sample": c.filterDef(st, "sample", "SampleFilterDef", "FilterTypeGlob", map[string]engine.Val{".Scope": c.scopes("ScopeFile")})}),
			{Name: "WithSamplingOptions", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.object(st, "sampling options", w.Named("pref", "SamplingOptions"), map[string]engine.Val{
					".Type": w.Const("enums", "SampleTypeFilter"), ".NoOf.Files": engine.IntT(1, uintT), ".NoOf.Directories": engine.IntT(1, uintT)})}
			}},
		}
	}
	hib := func(st *engine.State) []Setting {
		return []Setting{
			c.Opaque("WithOnWake", "onWake"), c.Opaque("WithOnSleep", "onSleep"),
			{Name: "WithHibernationFilterWake", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.filterDef(st, "wake", "FilterDef", "FilterTypeGlob", nil)}
			}},
			{Name: "WithHibernationFilterSleep", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.filterDef(st, "sleep", "FilterDef", "FilterTypeGlob", nil)}
			}},
		}
	}
	depth := func(st *engine.State) []Setting {
		return []Setting{{Name: "WithDepth", Args: []engine.Val{engine.IntT(1, uintT)}}}
	}
	both := func(fs ...func(st *engine.State) []Setting) func(st *engine.State) []Setting {
		return func(st *engine.State) (out []Setting) {
			for _, f := range fs {
				out = append(out, f(st)...)
			}
			return out
		}
	}
	more := func(st *engine.State) []Setting {
		return []Setting{c.Opaque("WithOnBegin", "onBegin"), c.Opaque("WithOnAscend", "onAscend"), c.Opaque("WithOnEnd", "onEnd")}
	}
	modes := []mode{
		{name: "observers", sub: "SubscribeUniversal", settings: none},
		{name: "observers", sub: "SubscribeFiles", settings: none, parallel: true},
		{name: "more observers", sub: "SubscribeDirectories", settings: more},
		{name: "filter", sub: "SubscribeUniversal", settings: filter},
		{name: "child filter", sub: "SubscribeDirectoriesWithFiles", settings: child},
		{name: "sampling", sub: "SubscribeUniversal", settings: slice(false)},
		{name: "sampling in reverse", sub: "SubscribeDirectoriesWithFiles", settings: slice(true)},
		{name: "sampling by filter", sub: "SubscribeUniversal", settings: sample},
		{name: "hibernation", sub: "SubscribeFiles", settings: hib},
		{name: "depth", sub: "SubscribeUniversal", settings: depth},
		{name: "filter and sampling", sub: "SubscribeFiles", settings: both(filter, slice(false)), parallel: true},
		{name: "sampling taken away", sub: "SubscribeUniversal", settings: slice(false), change: zero(".Sampling"), instead: none},
		{name: "sampling by filter taken away", sub: "SubscribeUniversal", settings: sample, change: func(st *engine.State, o engine.Val) {
			zero(".Sampling")(st, o)
			zero(".Filter")(st, o)
		}, instead: none},
		{name: "filter taken away", sub: "SubscribeUniversal", settings: filter, change: zero(".Filter"), instead: none},
		{name: "hibernation taken away", sub: "SubscribeFiles", settings: hib, change: zero(".Hibernate"), instead: func(st *engine.State) []Setting { return hib(st)[:2] }},
	}
	for _, md := range modes {
		name := fmt.Sprintf("%s/%s/parallel=%v", md.name, md.sub, md.parallel)
		m := c.Machine()
		m.Recur, m.Unroll = 4, 16
		calm := false
		list := c.Matching(c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
			switch What(e) {
			case "client":
				bad := engine.NewNonNil("failure", errT)
				if calm {
					return one(engine.Nil)
				}
				return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{bad}, Assume: c.fails(bad), Label: "the client fails"}}, true
			case "x option":
				s.Vals["options"] = e.Args[0]
				return one(engine.Nil)
			}
			switch n := callName(e); {
			case n == "Err" && e.Method != nil:
				return one(engine.Nil)
			case n == "NewManifoldFuncPool":
				return one(engine.NewNonNil("pool", e.Sig.Results().At(0).Type()), engine.Nil)
			case n == "Source":
				return one(engine.NewNonNil("input channel", e.Sig.Results().At(0).Type()))
			case n == "Wrap", n == "Wrapf", n == "Errorf":
				return one(engine.NewNonNil(n, errT))
			}
			return c.calmly(s, e)
		}))
		m.Model = g.paths(true, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" {
				id, ok := g.at(e.Args[len(e.Args)-1].Key())
				if !ok {
					return []engine.Alt{{Results: []engine.Val{engine.Nil, engine.NewNonNil("no such directory", errT)}}}, true
				}
				return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil}}}, true
			}
			return list(s, e)
		})
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			switch {
			case kind == "send":
				s.Note("a job is sent")
			case kind == "call" && callName(e) == "NewManifoldFuncPool":
				s.Note("a pool")
			}
		})
		init := c.Init(m, NavInit...)
		// start builds a session
		start := func(st *engine.State, settings func(st *engine.State) []Setting, given engine.Val) []engine.Outcome {
			sess := c.Plain(md.sub, st, settings(st)...)
			sess.Parallel = md.parallel
			if given != nil {
				sess.Facade["O"] = given
				sess.Settings = nil
			} else {
				set := sess.Settings
				sess.Settings = func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
					st, vs := set(m, st)
					return st, append(vs, engine.NewNonNil("x option", w.Type("pref", "Option")))
				}
			}
			st.Trace = nil
			return c.Build(m, st, sess)
		}
		navigate := func(b engine.Outcome) []engine.Outcome {
			return c.Invoke(m, b.State, b.Results[0], "Navigate", engine.NewNonNil("ctx", c.ctxType()))
		}
		collect := func(out map[string]bool, bs []engine.Outcome) (ends []engine.Outcome) {
			for _, b := range bs {
				if b.Panicked || len(b.Results) == 0 {
					out["it panics: "+strings.Join(b.State.Trace.List(), " → ")] = true
					continue
				}
				for _, o := range navigate(b) {
					p := sites.ReplaceAllString(strings.Join(o.State.Trace.List(), " → "), "")
					if o.Panicked {
						out[p+" → it panics"] = true
						continue
					}
					out[p+" → "+bareKey(o.Results[1])+" "+c.metricsOf(m, o)] = true
					ends = append(ends, o)
				}
			}
			return ends
		}
		want := map[string]bool{}
		ref := md.settings
		if md.instead != nil {
			ref = md.instead
		}
		collect(want, start(init.Clone(), ref, nil))
		c.Ob(name+"/reference", "there are paths to compare with", len(want) > 0, "-", "%d", len(want))
		again := func(st *engine.State) []engine.Outcome {
			st = st.Clone()
			o := st.Vals["options"]
			if o == nil {
				return nil
			}
			if md.change != nil {
				md.change(st, o)
			}
			return start(st, none, o)
		}
		// the options of a session that has only been built
		unused := map[string]bool{}
		for _, b := range start(init.Clone(), md.settings, nil) {
			if !b.Panicked {
				collect(unused, again(b.State))
			}
		}
		// of one that has come to an end, and of one that was given them in turn
		calm = false
		once, twice := map[string]bool{}, map[string]bool{}
		first := collect(map[string]bool{}, start(init.Clone(), md.settings, nil))
		c.Count("sessions_before", len(first))
		for _, o := range first {
			ends := collect(once, again(o.State))
			calm = true
			for i, e := range ends {
				if i < 2 {
					collect(twice, again(e.State))
				}
			}
			calm = false
			if c.stop() != "" {
				break
			}
		}
		at := w.Pos(fieldOf(w.Named("pref", "Using"), "O").Pos())
		for _, r := range []struct {
			when string
			got  map[string]bool
			all  bool
		}{{"not used before", unused, true}, {"used once", once, true}, {"used twice", twice, false}} {
			c.Ob(name+"/"+r.when+"/extra", "what a session does with options given is something that a session with their settings does", missing(want, r.got) == "", at, "%s", missing(want, r.got))
			if r.all {
				c.Ob(name+"/"+r.when+"/missing", "what a session with the settings does is something that one with options given does", missing(r.got, want) == "", at, "%s", missing(r.got, want))
			} else {
				c.Ob(name+"/"+r.when+"/some", "there are sessions", len(r.got) > 0, at, "none")
			}
		}
		if !c.Done(m, name) {
			return
		}
	}
}

type leaf struct {
	path string
	t    types.Type
}

// leavesOf are the fields below a type that are not structs.
func leavesOf(t types.Type, path string) []leaf {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return []leaf{{path, t}}
	}
	var out []leaf
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, leavesOf(s.Field(i).Type(), path+"."+s.Field(i).Name())...)
	}
	return out
}

func fieldOf(t types.Type, name string) *types.Var {
	s, ok := t.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i)
			}
		}
	}
	panic(Missing("field " + name + " of " + t.String()))
}

func fieldType(t types.Type, path string) types.Type {
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		t = fieldOf(t, n).Type()
	}
	return t
}

func zeroOf(t types.Type) engine.Val {
	b, ok := t.Underlying().(*types.Basic)
	switch {
	case ok && b.Info()&types.IsBoolean != 0:
		return engine.False
	case ok && b.Info()&types.IsString != 0:
		return engine.Str("")
	case ok && b.Info()&types.IsInteger != 0:
		return engine.IntT(0, t)
	}
	return engine.Nil
}
