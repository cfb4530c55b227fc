package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P14", Min: 80,
		Rule: "write-set analysis of every option function over an arbitrary options object: exactly the setting it is named after is written, with the value given; the re-exports of the root package denote the same functions",
		Run:  runP14})
}

// leaves lists the paths of the fields of a struct that are not structs.
func leaves(t types.Type, path string, out map[string]types.Type) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		out[path] = t
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		leaves(u.Field(i).Type(), path+"."+u.Field(i).Name(), out)
	}
}

// what an option is specified to do
type optionSpec struct {
	path string // the setting it sets
	how  string // "arg": to the argument, "*arg": to a copy of what it points to, a constant, "call M": calls method M of it with the argument
}

var optionSpecs = map[string]optionSpec{
	"WithFaultHandler":                       {".Defects.Fault", "arg"},
	"WithPanicHandler":                       {".Defects.Panic", "arg"},
	"WithSkipHandler":                        {".Defects.Skip", "arg"},
	"WithCPU":                                {".Concurrency.NoW", "cpu"},
	"WithNoW":                                {".Concurrency.NoW", "arg"},
	"WithOutput":                             {".Concurrency.Output", "*arg"},
	"WithFilter":                             {".Filter", "*arg"},
	"WithHibernationBehaviourExclusiveWake":  {".Hibernate.Behaviour.InclusiveWake", "false"},
	"WithHibernationBehaviourInclusiveSleep": {".Hibernate.Behaviour.InclusiveSleep", "true"},
	"WithHibernationFilterWake":              {".Hibernate.WakeAt", "arg"},
	"WithHibernationFilterSleep":             {".Hibernate.SleepAt", "arg"},
	"WithHibernationOptions":                 {".Hibernate", "*arg"},
	"WithHookCaseSensitiveSort":              {".Hooks.Sort", "tap CaseSensitiveSortHook"},
	"WithHookFileSubPath":                    {".Hooks.FileSubPath", "call Tap"},
	"WithHookDirectorySubPath":               {".Hooks.DirectorySubPath", "call Tap"},
	"WithHookQueryStatus":                    {".Hooks.QueryStatus", "call Tap"},
	"WithHookReadDirectory":                  {".Hooks.ReadDirectory", "call Tap"},
	"WithHookSort":                           {".Hooks.Sort", "call Tap"},
	"WithOnAscend":                           {".Events.Ascend", "call On"},
	"WithOnBegin":                            {".Events.Begin", "call On"},
	"WithOnDescend":                          {".Events.Descend", "call On"},
	"WithOnEnd":                              {".Events.End", "call On"},
	"WithOnWake":                             {".Events.Wake", "call On"},
	"WithOnSleep":                            {".Events.Sleep", "call On"},
	"WithAdminPath":                          {".Monitor.Admin.Path", "arg"},
	"WithLogger":                             {".Monitor.Log", "arg"},
	"WithNavigationBehaviours":               {".Behaviours", "*arg"},
	"WithSubPathBehaviour":                   {".Behaviours.SubPath", "*arg"},
	"WithSortBehaviour":                      {".Behaviours.Sort", "*arg"},
	"WithDepth":                              {".Behaviours.Cascade.Depth", "arg"},
	"WithNoRecurse":                          {".Behaviours.Cascade.NoRecurse", "true"},
	"WithSamplingOptions":                    {".Sampling", "*arg"},
}

func runP14(c *C) {
	w := c.W
	optionT := w.Type("pref", "Option")
	optionsT := w.Named("pref", "Options")
	lv := map[string]types.Type{}
	leaves(optionsT, "", lv)
	c.Count("settings_of_an_options_object", len(lv))
	sc := w.pkg("pref").Pkg.Scope()
	var names []string
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		r := f.Type().(*types.Signature).Results()
		if strings.HasPrefix(n, "With") && r.Len() == 1 && types.Identical(r.At(0).Type(), optionT) {
			names = append(names, n)
		}
	}
	for n := range optionSpecs {
		if sc.Lookup(n) == nil {
			c.Ob(n+"/exists", "the option exists", false, "-", "pref.%s is gone", n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		spec, ok := optionSpecs[n]
		if !ok {
			// an option this rule does not know: it may only write one setting
			continue
		}
		c.option(n, spec, optionsT, lv)
	}
	for _, n := range []string{"IfOption", "IfOptionF", "IfElseOptionF"} {
		c.conditional(n)
	}
	c.reexports()
}

func under(path, root string) bool {
	return path == root || strings.HasPrefix(path, root+".")
}

func (c *C) option(name string, spec optionSpec, optionsT types.Type, lv map[string]types.Type) {
	w := c.W
	fn := w.Fn("pref", name)
	at := w.Pos(fn.Pos())
	m := c.Machine()
	st := m.NewState()
	o := st.New("options", optionsT)
	st.Vals["o"] = o
	before := map[string]engine.Val{}
	for p, t := range lv {
		v := engine.Val(engine.NewTok("old"+p, t))
		if types.IsInterface(t) {
			v = engine.NewNonNil("old"+p, t)
		}
		st.StoreTo(&engine.Ptr{Obj: o.Obj, Path: p}, v, t)
		before[p] = v
	}
	var args []engine.Val
	var arg engine.Val
	pointee := map[string]engine.Val{}
	for i := range fn.Params {
		t := fn.Params[i].Type()
		var v engine.Val = engine.NewNonNil(fmt.Sprintf("argument%d", i), t)
		if spec.how == "*arg" {
			pt := t.Underlying().(*types.Pointer).Elem()
			p := st.New("argument", pt)
			pl := map[string]types.Type{}
			leaves(pt, "", pl)
			for q, qt := range pl {
				x := engine.NewTok("new"+q, qt)
				st.StoreTo(&engine.Ptr{Obj: p.Obj, Path: q}, x, qt)
				pointee[q] = x
			}
			v = p
			st.Vals["argument"] = p
		}
		args = append(args, v)
		arg = v
	}
	hook, taken := "", ""
	m.On = func(s *engine.State, e *engine.Event) {
		if e.Kind == "call" && e.Method != nil && e.Recv != nil {
			k := e.Recv.Key()
			if strings.Contains(k, "old"+spec.path) {
				hook = e.Method.Name()
				taken = ""
				if len(e.Args) > 0 {
					taken = e.Args[len(e.Args)-1].Key()
				}
			} else if strings.Contains(k, "⟨old.") {
				c.Ob(name+"/others", "nothing else of the options is affected", false, w.InstrPos(e.Instr), "%s.%s is called", k, e.Method.Name())
			}
		}
	}
	outs := m.Run(st, fn, args...)
	if !c.Done(m, name) {
		return
	}
	n := 0
	for _, a := range outs {
		if a.Panicked {
			c.Ob(name+"/made", "the option is made", false, at, "making it panics")
			continue
		}
		hook, taken = "", ""
		for _, b := range m.RunVal(a.State, a.Results[0], o) {
			n++
			if b.Panicked {
				c.Ob(name+"/applied", "applying the option succeeds", false, at, "it panics")
				continue
			}
			c.Ob(name+"/applied", "applying the option succeeds", b.State.IsNilKnown(b.Results[0]), at, "it returns %s", b.Results[0].Key())
			for p, t := range lv {
				v := b.State.Load(&engine.Ptr{Obj: o.Obj, Path: p}, t)
				if !under(p, spec.path) || strings.HasPrefix(spec.how, "call") || strings.HasPrefix(spec.how, "tap") {
					c.Ob(name+"/others", "nothing else of the options is affected", v.Key() == before[p].Key(), at, "%s becomes %s", p, v.Key())
					continue
				}
				var want string
				switch spec.how {
				case "arg":
					want = arg.Key()
				case "*arg":
					want = "?"
					if x := pointee[strings.TrimPrefix(p, spec.path)]; x != nil {
						want = x.Key()
					}
				case "cpu":
					want = v.Key()
					if !strings.Contains(want, "number of processors") {
						want = "the number of processors"
					}
				default:
					want = spec.how
				}
				c.Ob(name+"/sets", "the option sets "+spec.path, v.Key() == want, at, "%s becomes %s instead of %s", p, v.Key(), want)
			}
			switch {
			case strings.HasPrefix(spec.how, "call "):
				c.Ob(name+"/sets", "the option registers its argument with "+spec.path,
					hook == strings.TrimPrefix(spec.how, "call ") && taken == arg.Key(), at, "calls %q with %s", hook, taken)
			case strings.HasPrefix(spec.how, "tap "):
				f := strings.TrimPrefix(spec.how, "tap ")
				c.Ob(name+"/sets", "the option registers "+f+" with "+spec.path,
					hook == "Tap" && strings.HasSuffix(taken, "."+f), at, "calls %q with %s", hook, taken)
			}
		}
	}
	c.Ob(name+"/outcomes", "the option can be applied", n > 0, at, "no outcome")
	c.Done(m, name)
}

// conditional: the option selected is the one for the truth value of the condition.
func (c *C) conditional(name string) {
	fn := c.W.Fn("pref", name)
	at := c.W.Pos(fn.Pos())
	for _, cond := range []bool{true, false} {
		m := c.Machine()
		st := m.NewState()
		args := []engine.Val{engine.Bool(cond)}
		for i, p := range fn.Params[1:] {
			args = append(args, engine.NewNonNil(fmt.Sprintf("option%d", i), p.Type()))
		}
		called := map[string]int{}
		m.On = func(s *engine.State, e *engine.Event) {
			if e.Kind == "call" && e.FnVal != nil {
				called[What(e)]++
			}
		}
		m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if w := What(e); strings.HasPrefix(w, "option") {
				return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("made by "+w, c.W.Type("pref", "Option"))}}}, true
			}
			return LibModel(s, e)
		}
		want, calls := "nil", ""
		switch {
		case name == "IfOption" && cond:
			want = "⟨option0⟩"
		case name == "IfOptionF" && cond, name == "IfElseOptionF" && cond:
			want, calls = "⟨made by option0⟩", "option0"
		case name == "IfElseOptionF":
			want, calls = "⟨made by option1⟩", "option1"
		}
		outs := m.Run(st, fn, args...)
		k := fmt.Sprintf("%s/%v", name, cond)
		if !c.Done(m, k) {
			continue
		}
		for _, o := range outs {
			got := "a panic"
			if !o.Panicked {
				got = o.Results[0].Key()
			}
			c.Ob(k, "the option selected is the one the condition asks for, and only that one is made",
				got == want && (calls == "" && len(called) == 0 || len(called) == 1 && called[calls] == 1), at, "it is %s, having called %v", got, called)
		}
	}
}

// reexports: what the root package offers under the name of a function of
// pref (or a constant of enums) is that function (constant).
func (c *C) reexports() {
	root := c.W.pkg("")
	init := root.Func("init")
	pref := c.W.pkg("pref")
	stores := map[string][]ssa.Value{}
	for fn := range c.W.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg == root && (fn != init || pref.Func(g.Name()) != nil) {
						stores[g.Name()] = append(stores[g.Name()], s.Val)
					}
				}
			}
		}
	}
	sc := root.Pkg.Scope()
	n := 0
	for _, name := range sc.Names() {
		switch x := sc.Lookup(name).(type) {
		case *types.Var:
			f := pref.Func(name)
			if f == nil || !x.Exported() {
				continue
			}
			n++
			var got []string
			ok := len(stores[name]) == 1
			for _, v := range stores[name] {
				if ct, isC := v.(*ssa.ChangeType); isC {
					v = ct.X
				}
				got = append(got, v.String())
				ok = ok && v == ssa.Value(f)
			}
			c.Ob("root/"+name, "the root package's "+name+" is the option of that name", ok, c.W.Pos(x.Pos()), "it is set to %s", strings.Join(got, ", "))
		case *types.Const:
			o, ok := c.W.pkg("enums").Pkg.Scope().Lookup(name).(*types.Const)
			if !ok || !x.Exported() {
				continue
			}
			n++
			c.Ob("root/"+name, "the root package's "+name+" is the enum of that name", x.Val().ExactString() == o.Val().ExactString() && types.Identical(x.Type(), o.Type()),
				c.W.Pos(x.Pos()), "it is %s", x.Val())
		}
	}
	c.Count("re_exports", n)
	c.Ob("root/some", "the root package offers the options", n >= 30, "-", "only %d", n)
}
