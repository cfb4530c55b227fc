package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P23", Min: 60,
		Rule: "every abstract path of navigations of a tree with given entries, compared at each node with the automaton pending → active → retired, whatever the wake and sleep filters answer for each node",
		Run:  runP23})
}

func runP23(c *C) {
	w := c.W
	str := types.Typ[types.String]
	type mode struct {
		sub, tree   string
		wake, sleep bool
		excWake     bool // wake exclusively
		incSleep    bool
		filter      bool
		poly        bool // a node filter, also poly
		kind        string
	}
	var modes []mode
	for _, exc := range []bool{false, true} {
		for _, inc := range []bool{false, true} {
			modes = append(modes,
				mode{sub: "SubscribeUniversal", tree: "f1 f2 d1", wake: true, sleep: true, excWake: exc, incSleep: inc, kind: "FilterTypeGlob"},
				mode{sub: "SubscribeFiles", tree: "f1 f2 f3", wake: true, sleep: true, excWake: exc, incSleep: inc, kind: "FilterTypeRegex"},
			)
		}
		modes = append(modes,
			mode{sub: "SubscribeUniversal", tree: "f1 f2 d1", wake: true, excWake: exc, kind: "FilterTypeGlob"},
			mode{sub: "SubscribeUniversal", tree: "f1 f2 d1", sleep: true, incSleep: exc, kind: "FilterTypeGlob"},
			mode{sub: "SubscribeDirectories", tree: "d1 d2 f1", wake: true, sleep: true, excWake: exc, kind: "FilterTypeGlob"},
			mode{sub: "SubscribeDirectoriesWithFiles", tree: "d1 d2 f1", wake: true, sleep: true, excWake: exc, kind: "FilterTypeGlob"},
		)
	}
	modes = append(modes, mode{sub: "SubscribeUniversal", tree: "f1 d1", wake: true, sleep: true, filter: true, kind: "FilterTypeGlob"},
		mode{sub: "SubscribeFiles", tree: "f1 f2", wake: true, sleep: true, kind: "FilterTypePoly"},
		mode{sub: "SubscribeFiles", tree: "f1 f2", wake: true, filter: true, kind: "FilterTypePoly"},
		mode{sub: "SubscribeFiles", tree: "f1", wake: true, sleep: true, poly: true, kind: "FilterTypePoly"})
	for _, md := range modes {
		name := fmt.Sprintf("%s/[%s]/wake=%v sleep=%v exclusive wake=%v inclusive sleep=%v filter=%v %s poly=%v", md.sub, md.tree, md.wake, md.sleep, md.excWake, md.incSleep, md.filter, md.kind, md.poly)
		ids := strings.Fields(md.tree)
		m := c.Machine()
		m.Unroll = 16
		m.Recur = 2
		list := c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "filter.IsMatch" {
				return []engine.Alt{{Results: []engine.Val{engine.True}}, {Results: []engine.Val{engine.False}}}, true
			}
			if What(e) == "filter.Validate" {
				return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
			}
			if What(e) == "info.IsDir" {
				return []engine.Alt{{Results: []engine.Val{engine.True}}}, true
			}
			if What(e) == "queryStatus" {
				return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("info", e.Sig.Results().At(0).Type()), engine.Nil}}}, true
			}
			return c.calm(s, e)
		}, ids...)
		m.Model = c.Matching(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" && e.Args[len(e.Args)-1].Key() != "⟨tree⟩" {
				return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "nothing"), engine.Nil}}}, true
			}
			return list(s, e)
		})
		// matches tells whether the wake or the sleep filter matches a file or directory, if that is known
		matches := func(s *engine.State, id string, n engine.Val, dir bool) (yes, known bool) {
			at := func(n engine.Val) engine.Val {
				return s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Name"}, str)
			}
			if md.kind != "FilterTypePoly" {
				return s.Known(Matches(engine.NewTok("pattern of "+id, str), at(n)))
			}
			if dir {
				return true, true
			}
			parent := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Parent"}, types.NewPointer(w.Named("core", "Node")))
			d, dk := s.Known(Matches(engine.NewTok("pattern of "+id+" directory", str), at(parent)))
			f, fk := s.Known(Matches(engine.NewTok("pattern of "+id+" file", str), at(n)))
			return d && f, dk && fk || dk && !d || fk && !f
		}
		judged := 0
		// settle compares what happened at the node visited last with the automaton
		settle := func(s *engine.State, at string) {
			n := s.Vals["node"]
			if n == nil {
				return
			}
			dir, known := c.IsDir(m, s, n)
			if !known {
				return
			}
			delete(s.Vals, "node")
			nm := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Name"}, str)
			did := func(k string, want bool) bool { return s.Mon[k] == map[bool]string{true: "yes", false: ""}[want] }
			defer func() {
				for _, k := range []string{"called", "woke", "slept", "asked"} {
					delete(s.Mon, k)
				}
			}()
			subscribed := map[string]bool{"SubscribeUniversal": true, "SubscribeFiles": !dir, "SubscribeDirectories": dir, "SubscribeDirectoriesWithFiles": dir}[md.sub]
			state := s.Mon["hibernation"]
			if state == "" {
				state = "active"
				if md.wake {
					state = "pending"
				}
			}
			awake, woke, slept := false, false, false
			if subscribed {
				judged++
				switch state {
				case "over":
					c.Ob(name+"/over", "nothing is visited once the traversal has ended", false, at, "%s", path(s))
				case "retired":
					state = "over"
				case "pending":
					yes, known := matches(s, "wake", n, dir)
					c.Ob(name+"/asked-wake", "the wake filter is asked about each node until it matches", known, at, "%s: %s", nm.Key(), path(s))
					if yes {
						state, woke, awake = "active", true, !md.excWake
					}
				case "active":
					awake = true
					if md.sleep {
						yes, known := matches(s, "sleep", n, dir)
						c.Ob(name+"/asked-sleep", "the sleep filter is asked about each node while awake", known, at, "%s: %s", nm.Key(), path(s))
						if yes {
							state, slept, awake = "retired", true, md.incSleep
						}
					}
				}
			}
			s.Mon["hibernation"] = state
			c.Ob(name+"/woke", "waking is announced once, when the wake filter first matches", did("woke", woke), at, "%q, expected %v: %s", s.Mon["woke"], woke, path(s))
			c.Ob(name+"/slept", "going to sleep is announced once, when the sleep filter first matches while awake", did("slept", slept), at, "%q, expected %v: %s", s.Mon["slept"], slept, path(s))
			if md.filter {
				c.Ob(name+"/asked", "the node filter is asked only about nodes that get past hibernation", s.Mon["asked"] != "" == awake, at, "%s: %s", s.Mon["asked"], path(s))
				awake = awake && s.Mon["asked"] == "matched"
			}
			if md.poly && awake {
				yes, known := matches(s, "node", n, dir)
				c.Ob(name+"/asked", "the node filter is asked about the nodes that get past hibernation", known, at, "%s", path(s))
				awake = yes
			}
			c.Ob(name+"/client", "the client is invoked for the nodes between waking and going to sleep", did("called", awake), at, "%s: invoked %q, expected %v: %s", state, s.Mon["called"], awake, path(s))
		}
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			switch {
			case what == "filter.IsMatch" && kind == "ret":
				s.Mon["asked"] = "matched"
				if e.Results[0].Key() == engine.False.Key() {
					s.Mon["asked"] = "rejected"
				}
			case kind != "call":
			case what == "onDescend":
				settle(s, c.locate(e))
				for _, a := range e.Args {
					if n := c.NodeOf(s, a); n != nil {
						s.Vals["node"] = n
					}
				}
			case what == "client":
				s.Mon["called"] = twice(s.Mon["called"])
			case what == "onWake":
				s.Mon["woke"] = twice(s.Mon["woke"])
			case what == "onSleep":
				s.Mon["slept"] = twice(s.Mon["slept"])
			}
		})
		st := c.Init(m, NavInit...)
		def := func(id string) func(st *engine.State) []engine.Val {
			return func(st *engine.State) []engine.Val {
				if md.kind == "FilterTypePoly" {
					poly := c.object(st, id+" poly", w.Named("core", "PolyFilterDef"), map[string]engine.Val{
						".File.Type": c.filterType("FilterTypeGlob"), ".File.Pattern": c.pattern(st, id+" file"),
						".Directory.Type": c.filterType("FilterTypeRegex"), ".Directory.Pattern": c.pattern(st, id+" directory"),
					})
					return []engine.Val{c.object(st, id, w.Named("core", "FilterDef"), map[string]engine.Val{".Type": c.filterType(md.kind), ".Poly": poly})}
				}
				return []engine.Val{c.filterDef(st, id, "FilterDef", md.kind, map[string]engine.Val{".IfNotApplicable": w.Const("enums", "TriStateBoolFalse")})}
			}
		}
		extra := []Setting{c.Opaque("WithOnWake", "onWake"), c.Opaque("WithOnSleep", "onSleep")}
		if md.wake {
			extra = append(extra, Setting{Name: "WithHibernationFilterWake", Make: def("wake")})
		}
		if md.sleep {
			extra = append(extra, Setting{Name: "WithHibernationFilterSleep", Make: def("sleep")})
		}
		if md.excWake {
			extra = append(extra, Setting{Name: "WithHibernationBehaviourExclusiveWake"})
		}
		if md.incSleep {
			extra = append(extra, Setting{Name: "WithHibernationBehaviourInclusiveSleep"})
		}
		if md.poly {
			extra = append(extra, Setting{Name: "WithFilter", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.object(st, "filter options", w.Named("pref", "FilterOptions"), map[string]engine.Val{".Node": def("node")(st)[0]})}
			}})
		}
		if md.filter {
			extra = append(extra, c.filterSetting(map[string]engine.Val{".Custom": engine.NewNonNil("filter", w.Type("core", "TraverseFilter"))}))
		}
		t := c.NewTravel(name, m, st, c.Plain(md.sub, st, extra...))
		for _, o := range t.Run(nil) {
			settle(o.State, "-")
			if o.Panicked {
				c.Ob(name+"/completes", "the navigation completes", false, "-", "it panics: %s: %s", o.PanicVal.Key(), path(o.State))
			}
		}
		c.Ob(name+"/judged", "nodes are visited", judged > 0, "-", "none is")
		if !c.Done(m, name) {
			return
		}
	}
}

func twice(s string) string {
	if s == "" {
		return "yes"
	}
	return "more than once"
}
