package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P26", Min: 60,
		Rule: "every abstract path of fastward resumes over a tree with given entries, compared at each node with the automaton waiting → resumed, whichever node is the resume point",
		Run:  runP26})
}

// Saved is the contents of the file a session is resumed from.
type Saved struct {
	Active  map[string]engine.Val
	Options map[string]engine.Val
	// ActiveMissing and OptionsMissing leave that part out.
	ActiveMissing, OptionsMissing bool
	// Fails makes reading and decoding fail, or not.
	Fails bool
	// Relative tells file systems apart by whether they are relative.
	Relative bool
	// OnEncode is told what is saved in turn.
	OnEncode func(s *engine.State, v *engine.Ptr, t types.Type)
}

// Resumed is a session that resumes from a file with these contents.
func (c *C) Resumed(strategy string, st *engine.State, extra ...Setting) Session {
	from := engine.NewTok("from", types.Typ[types.String])
	st.Assume(engine.Eq(from, engine.Str("")), false)
	return Session{
		Resume: true,
		Facade: map[string]engine.Val{
			"From":     from,
			"Strategy": c.W.Const("enums", strategy),
			"Handler":  c.Client(),
		},
		Settings: c.Options(append(c.Observers(), extra...)...),
	}
}

// Reading models the file that is read to resume a session.
func (c *C) Reading(saved Saved, next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	j := &jsonPkg{c: c, encoded: map[string]types.Type{}, fail: saved.Fails, onEncode: saved.OnEncode}
	j.decode = func(s *engine.State, into *engine.Ptr, t types.Type) {
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			pt, ok := u.Field(i).Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			f, missing := saved.Options, saved.OptionsMissing
			if types.Identical(pt.Elem(), c.W.Type("core", "ActiveState")) {
				f, missing = saved.Active, saved.ActiveMissing
			}
			if missing {
				s.StoreTo(&engine.Ptr{Obj: into.Obj, Path: into.Path + "." + u.Field(i).Name()}, engine.Nil, u.Field(i).Type())
				continue
			}
			v := c.object(s, "saved "+u.Field(i).Name(), pt.Elem(), f)
			s.StoreTo(&engine.Ptr{Obj: into.Obj, Path: into.Path + "." + u.Field(i).Name()}, v, u.Field(i).Type())
		}
	}
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		if e.Method != nil {
			switch e.Method.Name() {
			case "ReadFile":
				alts := []engine.Alt{{Results: []engine.Val{engine.NewNonNil("file", e.Sig.Results().At(0).Type()), engine.Nil}}}
				if saved.Fails {
					alts = append(alts, engine.Alt{Results: []engine.Val{engine.Nil, engine.NewNonNil("read error", errT)}})
				}
				return alts, true
			case "IsRelative":
				if saved.Relative {
					return []engine.Alt{{Results: []engine.Val{relative(e.Recv)}}}, true
				}
				return []engine.Alt{{Results: []engine.Val{engine.False}}}, true
			}
		}
		if e.Fn != nil && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == "encoding/json" {
			return j.model(s, e)
		}
		return next(s, e)
	}
}

// calc models what is computed of paths.
func (c *C) calc(next func(*engine.State, *engine.Event) ([]engine.Alt, bool), dot bool) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	str := types.Typ[types.String]
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		name := ""
		switch {
		case e.Method != nil:
			name = e.Method.Name()
		case e.Fn != nil && e.Fn.Pkg != nil && (e.Fn.Pkg.Pkg.Path() == "path/filepath" || e.Fn.Pkg.Pkg.Path() == "path"):
			name = e.Fn.Name()
		}
		if len(e.Args) > 0 {
			a := e.Args[len(e.Args)-1]
			switch {
			case name == "Dir" && a.Key() == "⟨resume point⟩":
				d := engine.Val(engine.NewTok("directory of the resume point", str))
				if dot {
					return []engine.Alt{{Results: []engine.Val{engine.Str(".")}}}, true
				}
				return []engine.Alt{{Results: []engine.Val{d}, Assume: []engine.Cond{{V: engine.Eq(d, engine.Str(".")), Val: false}}}}, true
			case name == "Clean" && a.Key() == "⟨tree⟩" && dot:
				return []engine.Alt{{Results: []engine.Val{engine.Str(".")}}}, true
			}
		}
		return next(s, e)
	}
}

// calmly: nothing fails, every entry's status is known.
func (c *C) calmly(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
	switch What(e) {
	case "filter.IsMatch":
		return []engine.Alt{{Results: []engine.Val{engine.True}}, {Results: []engine.Val{engine.False}}}, true
	case "filter.Validate":
		return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
	case "info.IsDir":
		return []engine.Alt{{Results: []engine.Val{engine.True}}}, true
	case "queryStatus":
		return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("info", e.Sig.Results().At(0).Type()), engine.Nil}}}, true
	}
	return c.calm(s, e)
}

func runP26(c *C) {
	w := c.W
	str := types.Typ[types.String]
	type mode struct {
		sub         string
		filter, dot bool
		hib         string
		sleep       bool
		// nowake: the session has a sleep filter only
		nowake bool
		// top: the resume point is the tree, whose path is just a name
		top bool
	}
	var modes []mode
	for _, sub := range Subscriptions {
		modes = append(modes, mode{sub: sub}, mode{sub: sub, dot: true})
		if sub != "SubscribeFiles" {
			modes = append(modes, mode{sub: sub, top: true})
		}
	}
	modes = append(modes, mode{sub: "SubscribeUniversal", filter: true}, mode{sub: "SubscribeFiles", filter: true},
		mode{sub: "SubscribeUniversal", hib: "HibernationPending"}, mode{sub: "SubscribeFiles", hib: "HibernationActive"}, mode{sub: "SubscribeUniversal", hib: "HibernationActive"},
		mode{sub: "SubscribeDirectories", hib: "HibernationRetired"}, mode{sub: "SubscribeFiles", hib: "HibernationActive", sleep: true},
		mode{sub: "SubscribeFiles", hib: "HibernationActive", sleep: true, nowake: true},
		mode{sub: "SubscribeDirectories", hib: "HibernationRetired", sleep: true, nowake: true})
	for _, md := range modes {
		name := fmt.Sprintf("%s/current directory=%v/filter=%v", md.sub, md.dot, md.filter)
		if md.hib != "" {
			name += "/" + md.hib
		}
		if md.sleep {
			name += "/sleep"
		}
		if md.nowake {
			name += " only"
		}
		if md.top {
			name += "/tree"
		}
		m := c.Machine()
		m.Unroll = 16
		m.Recur = 3
		list := c.Listing(c.calmly, strings.Fields("f1 d1 d2")...)
		if md.filter || md.hib != "" {
			list = c.Listing(c.calmly, strings.Fields("f1 d1")...)
		}
		source := engine.NewTok("resume point", str)
		if md.top {
			source = engine.NewTok("tree", str)
		}
		active := map[string]engine.Val{
			".Tree": engine.NewTok("tree", str), ".CurrentPath": source, ".Subscription": w.Const("enums", md.sub),
			".IsDir": engine.NewTok("resume point is a directory", types.Typ[types.Bool]),
			".Depth": engine.NewTok("depth of the resume point", types.Typ[types.Int]),
		}
		if md.hib != "" {
			active[".Hibernation"] = w.Const("enums", md.hib)
		}
		wakeP := engine.NewTok("pattern of wake", str)
		m.Model = c.Matching(c.calc(c.Reading(Saved{Active: active, Options: map[string]engine.Val{".Hibernate.Behaviour.InclusiveWake": engine.True}}, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" {
				switch p := e.Args[len(e.Args)-1].Key(); {
				case p == "⟨tree⟩":
				case strings.Contains(p, "name of d1"):
					return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "inner", "f3", "d3"), engine.Nil}}}, true
				default:
					return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "nothing"), engine.Nil}}}, true
				}
			}
			return list(s, e)
		}), md.dot))
		if next := m.Model; md.top {
			m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				if n := len(e.Args); n > 0 && e.Args[n-1].Key() == "⟨tree⟩" {
					switch callName(e) {
					case "Dir":
						return []engine.Alt{{Results: []engine.Val{engine.Str(".")}}}, true
					case "Clean", "Base":
						return []engine.Alt{{Results: []engine.Val{engine.NewTok("tree", str)}, Assume: []engine.Cond{{V: engine.Eq(engine.NewTok("tree", str), engine.Str(".")), Val: false}}}}, true
					case "Split":
						return []engine.Alt{{Results: []engine.Val{engine.Str(""), engine.NewTok("tree", str)}}}, true
					}
				}
				return next(s, e)
			}
		}
		judged, resumed := 0, 0
		at := func(s *engine.State) (string, bool) { // is the node visited the resume point
			n := s.Vals["node"]
			if n == nil {
				return "-", false
			}
			p := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Path"}, str)
			yes, known := s.Known(engine.Eq(p, source))
			return p.Key(), yes && known
		}
		settle := func(s *engine.State, loc string) {
			n := s.Vals["node"]
			if n == nil {
				return
			}
			dir, known := c.IsDir(m, s, n)
			if !known {
				return
			}
			p, here := at(s)
			_, asked := s.Known(engine.Eq(s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Path"}, str), source))
			delete(s.Vals, "node")
			subscribed := map[string]bool{"SubscribeUniversal": true, "SubscribeFiles": !dir, "SubscribeDirectories": dir, "SubscribeDirectoriesWithFiles": dir}[md.sub]
			was := s.Mon["resumed"]
			if subscribed {
				judged++
				if was == "" {
					c.Ob(name+"/asked", "each node the client subscribes to is compared with the resume point until that is found", asked, loc, "%s: %s", p, path(s))
					if here {
						s.Mon["resumed"] = "yes"
						resumed++
					}
				}
			}
			called := subscribed && s.Mon["resumed"] == "yes"
			switch {
			case md.hib == "HibernationPending" && called && s.Mon["awake"] == "":
				yes, known := s.Known(Matches(wakeP, s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Name"}, str)))
				c.Ob(name+"/pending", "a session that was waiting to wake up keeps waiting", known, loc, "%s: %s", p, path(s))
				called = yes
				if yes {
					s.Mon["awake"] = "yes"
				}
				c.Ob(name+"/woke", "waking up is announced when the wake filter matches", s.Mon["woke"] == map[bool]string{true: "yes"}[yes], loc, "%q at %s: %s", s.Mon["woke"], p, path(s))
			case md.hib == "HibernationRetired" || s.Mon["asleep"] != "":
				called = false
			case md.sleep && called:
				yes, known := s.Known(Matches(engine.NewTok("pattern of sleep", str), s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Name"}, str)))
				c.Ob(name+"/asked-sleep", "a session that was awake asks the sleep filter", known, loc, "%s: %s", p, path(s))
				if yes {
					called = false
					s.Mon["asleep"] = "yes"
				}
				c.Ob(name+"/slept", "going to sleep is announced when the sleep filter matches", s.Mon["slept"] == map[bool]string{true: "yes"}[yes], loc, "%q at %s: %s", s.Mon["slept"], p, path(s))
			}
			if md.filter {
				c.Ob(name+"/filtered", "the filter is asked only about nodes from the resume point on", (s.Mon["asked"] != "") == called, loc, "%s: %s", p, path(s))
				called = called && s.Mon["asked"] == "matched"
			}
			got := s.Mon["called"]
			c.Ob(name+"/client", "the client is invoked precisely for the nodes from the resume point on", got == map[bool]string{true: "yes"}[called], loc,
				"%s: resumed=%q invoked=%q: %s", p, s.Mon["resumed"], got, path(s))
			if was == "yes" {
				c.Ob(name+"/descend", "descending is announced again for every node after the resume point", s.Mon["descended"] == "yes", loc, "%s: %q: %s", p, s.Mon["descended"], path(s))
			}
			for _, k := range []string{"called", "asked", "descended", "woke", "slept"} {
				delete(s.Mon, k)
			}
		}
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			switch {
			case what == "filter.IsMatch" && kind == "ret":
				s.Mon["asked"] = "matched"
				if e.Results[0].Key() == engine.False.Key() {
					s.Mon["asked"] = "rejected"
				}
			case kind != "call":
			case what == "queryStatus":
				c.Ob(name+"/tree", "the tree that was saved is traversed", e.Args[len(e.Args)-1].Key() == "⟨tree⟩", c.locate(e), "it is %s", e.Args[len(e.Args)-1].Key())
			case what == "visit":
				settle(s, c.locate(e))
			case what == "fileSubPath" || what == "directorySubPath":
				settle(s, c.locate(e))
				for _, a := range e.Args {
					if n := c.NodeOf(s, a); n != nil {
						s.Vals["node"] = n
					}
				}
			case what == "client":
				s.Mon["called"] = twice(s.Mon["called"])
			case what == "onDescend" || what == "onAscend" || what == "onWake" || what == "onSleep":
				settleAscend := s.Mon["resumed"]
				p, here := at(s)
				c.Ob(name+"/muted", "nothing is announced before the resume point is found", settleAscend == "yes" || here, c.locate(e), "%s at %s: %s", what, p, path(s))
				switch what {
				case "onDescend":
					settle(s, c.locate(e))
					s.Mon["descended"] = "yes"
					if n := c.nodeArg(s, e); n != nil {
						s.Mon["open "+objOf(n)] = "yes"
					}
				case "onAscend":
					if n := c.nodeArg(s, e); n != nil {
						delete(s.Mon, "open "+objOf(n))
					}
				case "onWake":
					s.Mon["woke"] = twice(s.Mon["woke"])
				case "onSleep":
					s.Mon["slept"] = twice(s.Mon["slept"])
				}
			case what == "onEnd":
				s.Mon["ended"] = twice(s.Mon["ended"])
			}
		})
		st := c.Init(m, NavInit...)
		st.Assume(engine.Eq(engine.NewTok("tree", str), engine.Str("")), false)
		var extra []Setting
		if md.filter {
			extra = append(extra, c.filterSetting(map[string]engine.Val{".Custom": engine.NewNonNil("filter", w.Type("core", "TraverseFilter"))}))
		}
		if md.hib != "" && !md.nowake {
			extra = append(extra, Setting{Name: "WithHibernationFilterWake", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.filterDef(st, "wake", "FilterDef", "FilterTypeGlob", map[string]engine.Val{".IfNotApplicable": w.Const("enums", "TriStateBoolFalse")})}
			}})
		}
		if md.sleep {
			extra = append(extra, Setting{Name: "WithHibernationFilterSleep", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.filterDef(st, "sleep", "FilterDef", "FilterTypeGlob", map[string]engine.Val{".IfNotApplicable": w.Const("enums", "TriStateBoolFalse")})}
			}})
		}
		extra = append(extra, c.Opaque("WithOnWake", "onWake"), c.Opaque("WithOnSleep", "onSleep"))
		t := c.NewTravel(name, m, st, c.Resumed("ResumeStrategyFastward", st, extra...))
		for _, o := range t.Run(nil) {
			settle(o.State, "-")
			if o.Panicked {
				c.Ob(name+"/completes", "the navigation completes", false, "-", "it panics: %s: %s", o.PanicVal.Key(), path(o.State))
				continue
			}
			if o.State.Mon["resumed"] == "yes" {
				for k := range o.State.Mon {
					if strings.HasPrefix(k, "open ") {
						c.Ob(name+"/ascend", "each descend that is announced is followed by an ascend", false, "-", "%s is not: %s", k[5:], path(o.State))
					}
				}
				c.Ob(name+"/end", "the end is announced once the resume point was found", o.State.Mon["ended"] == "yes", "-", "%q: %s", o.State.Mon["ended"], path(o.State))
			}
			c.Ob(name+"/error", "a resume that nothing stops ends without an error", engine.IsNil(o.Results[1]), "-", "%s: %s", o.Results[1].Key(), path(o.State))
		}
		c.Ob(name+"/judged", "nodes are visited before and after the resume point", judged > resumed && resumed > 0, "-", "%d, %d", judged, resumed)
		if !c.Done(m, name) {
			return
		}
	}
}
