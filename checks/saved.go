package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P28", Min: 60,
		Rule: "value flow into the active state that is encoded, on every abstract path on which the client's code panics; effects and results when saving fails",
		Run:  runP28})
}

// without leaves settings out.
func without(l []Setting, names ...string) []Setting {
	var out []Setting
	for _, s := range l {
		drop := false
		for _, n := range names {
			drop = drop || s.Name == n
		}
		if !drop {
			out = append(out, s)
		}
	}
	return out
}

// Trees models a forest whose file systems can be told apart.
func (c *C) Trees(next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		if What(e) == "forest" {
			ft := c.W.Named("core", "Forest")
			f := s.New("the forest", ft)
			u := ft.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				v := engine.NewNonNil("fs "+u.Field(i).Name(), u.Field(i).Type())
				s.StoreTo(&engine.Ptr{Obj: f.Obj, Path: "." + u.Field(i).Name()}, v, u.Field(i).Type())
			}
			return []engine.Alt{{Results: []engine.Val{f}}}, true
		}
		if e.Method != nil && e.Method.Name() == "IsRelative" && e.Recv != nil {
			return []engine.Alt{{Results: []engine.Val{relative(e.Recv)}}}, true
		}
		return next(s, e)
	}
}

func relative(recv engine.Val) engine.Val {
	return engine.NewTok("relative "+bareKey(recv), types.Typ[types.Bool])
}

func runP28(c *C) {
	w := c.W
	str, num := types.Typ[types.String], types.Typ[types.Int]
	actT := w.Named("core", "ActiveState")
	for _, sub := range Subscriptions {
		for _, where := range []string{"tree", "node", "failing", "hibernating"} {
			if where == "hibernating" && sub != "SubscribeUniversal" {
				continue
			}
			name := sub + "/" + where
			m := c.Machine()
			m.Unroll = 16
			if where != "node" {
				m.Recur = 3
			}
			m.MayPanic = func(s *engine.State, e *engine.Event) bool {
				if where == "failing" || where == "hibernating" {
					return What(e) == "client"
				}
				return anyPanic(s, e)
			}
			j := &jsonPkg{c: c, encoded: map[string]types.Type{}, fail: where == "failing"}
			saves := 0
			j.onEncode = func(s *engine.State, v *engine.Ptr, t types.Type) {
				u := t.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					pt, ok := u.Field(i).Type().Underlying().(*types.Pointer)
					if !ok || !types.Identical(pt.Elem(), actT) {
						continue
					}
					a, ok := s.Load(&engine.Ptr{Obj: v.Obj, Path: v.Path + "." + u.Field(i).Name()}, u.Field(i).Type()).(*engine.Ptr)
					if !ok {
						c.Ob(name+"/active", "the active state is encoded", false, "-", "%s", path(s))
						return
					}
					saves++
					get := func(f string, t types.Type) engine.Val {
						return s.Load(&engine.Ptr{Obj: a.Obj, Path: a.Path + "." + f}, t)
					}
					n := s.Vals["node"]
					if n == nil {
						c.Ob(name+"/node", "the node that panicked is known", false, "-", "%s", path(s))
						return
					}
					depth, isDir := s.Vals["depth"], c.dirOf(m, s, n)
					if s.Mon["panicked"] == "visit" {
						n = s.Vals["child"]
						isDir = c.dirOf(m, s, n)
						if depth != nil {
							depth = engine.Add(depth, engine.Int(1), num)
						}
					}
					np := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Path"}, str)
					c.Ob(name+"/path", "the resume point saved is the node whose processing panicked", get("CurrentPath", str).Key() == np.Key(), "-",
						"%s instead of %s: %s", get("CurrentPath", str).Key(), np.Key(), path(s))
					c.Ob(name+"/directory", "it is saved whether the resume point is a directory", get("IsDir", types.Typ[types.Bool]).Key() == isDir.Key(), "-", "%s instead of %s: %s", get("IsDir", types.Typ[types.Bool]).Key(), isDir.Key(), path(s))
					c.Ob(name+"/tree", "the tree saved is that of the session", get("Tree", str).Key() == "⟨tree⟩", "-", "%s", get("Tree", str).Key())
					c.Ob(name+"/subscription", "the subscription saved is that of the session", get("Subscription", w.Type("enums", "Subscription")).Key() == w.Const("enums", sub).Key(), "-", "%s", get("Subscription", w.Type("enums", "Subscription")).Key())
					if depth != nil {
						c.Ob(name+"/depth", "the depth saved is that of the resume point", get("Depth", num).Key() == depth.Key(), "-", "%s instead of %s: %s", get("Depth", num).Key(), depth.Key(), path(s))
					}
					fsd := func(f, fs string) {
						k := s.Load(&engine.Ptr{Obj: a.Obj, Path: a.Path + "." + f + ".IsRelative"}, types.Typ[types.Bool]).Key()
						c.Ob(name+"/"+f, "it is saved whether the file system is relative", k == relative(engine.NewNonNil("fs "+fs, str)).Key(), "-", "%s is %s", f, k)
					}
					fsd("TraverseDescription", "T")
					fsd("ResumeDescription", "R")
					if where == "hibernating" {
						hib := get("Hibernation", w.Type("enums", "Hibernation"))
						c.Ob("hibernation", "the hibernation state saved is that of the session", hib.Key() == w.Const("enums", "HibernationActive").Key(), "-", "a session that is awake is saved as %s: %s", hib.Key(), path(s))
					}
				}
			}
			list := c.Listing(c.calmly, strings.Fields("f1 d1")...)
			m.Model = c.Matching(c.Trees(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				if e.Method != nil && (e.Method.Name() == "MakeDirAll" || e.Method.Name() == "WriteFile") {
					ok := engine.Alt{Results: []engine.Val{engine.Nil}}
					if where != "failing" {
						return []engine.Alt{ok}, true
					}
					return []engine.Alt{ok, {Results: []engine.Val{engine.NewNonNil("error of "+e.Method.Name(), errT)}}}, true
				}
				if e.Fn != nil && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == "encoding/json" {
					return j.model(s, e)
				}
				if What(e) == "readDirectory" {
					switch p := e.Args[len(e.Args)-1].Key(); {
					case p == "⟨tree⟩" || where == "node":
					case strings.Contains(p, "name of d1"):
						return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "inner", "f3"), engine.Nil}}}, true
					default:
						return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "nothing"), engine.Nil}}}, true
					}
				}
				return list(s, e)
			}))
			c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
				switch kind {
				case "panic":
					if s.Mon["panicked"] == "" {
						s.Mon["panicked"] = what
					}
				case "ret":
					if e.Method != nil && (e.Method.Name() == "MakeDirAll" || e.Method.Name() == "WriteFile") && !engine.IsNil(e.Results[0]) {
						s.Mon["failed"] = "yes"
					}
					if e.Fn != nil && strings.HasPrefix(e.Fn.Name(), "Marshal") && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == "encoding/json" && !engine.IsNil(e.Results[1]) {
						s.Mon["failed"] = "yes"
					}
				case "call":
					switch {
					case what == "onDescend", what == "onAscend":
						if n := c.nodeArg(s, e); n != nil {
							if old := s.Vals["node"]; old == nil || old.Key() != n.Key() {
								delete(s.Vals, "depth")
							}
							s.Vals["node"] = n
						}
					case what == "fileSubPath" || what == "directorySubPath":
						if n := c.nodeArg(s, e); n != nil {
							s.Vals["depth"] = s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Depth"}, num)
						}
					case what == "visit":
						if n := c.nodeArg(s, e); n != nil {
							s.Vals["child"] = n
						}
					}
					if e.Method != nil && (e.Method.Name() == "MakeDirAll" || e.Method.Name() == "WriteFile") {
						c.Ob(name+"/where", "the state is saved in the resume file system", bareKey(e.Recv) == "⟨fs R⟩", c.locate(e), "%s of %s", e.Method.Name(), e.Recv.Key())
						if e.Method.Name() == "WriteFile" {
							s.Vals["written"] = e.Args[0]
						}
					}
				}
			})
			st := c.Init(m, NavInit...)
			sess := c.Plain(sub, st)
			sess.Facade["GetForest"] = engine.NewNonNil("forest", w.Type("pref", "BuildForest"))
			settings := without(c.Observers(), "WithPanicHandler")
			if where == "hibernating" {
				settings = append(settings, Setting{Name: "WithHibernationFilterWake", Make: func(st *engine.State) []engine.Val {
					return []engine.Val{c.filterDef(st, "wake", "FilterDef", "FilterTypeGlob", nil)}
				}})
			}
			sess.Settings = c.Options(settings...)
			t := c.NewTravel(name, m, st, sess)
			savedT, lostT := w.Named("locale", "TraversalSavedError"), w.Named("locale", "TraversalNotSavedError")
			panics := 0
			judge := func(outs []engine.Outcome) {
				for _, o := range outs {
					s := o.State
					if s.Mon["panicked"] == "" || o.Panicked {
						continue
					}
					panics++
					res := errResult(o.Results)
					dyn := func(t types.Type) *engine.Ptr {
						i, ok := res.(*engine.Iface)
						if !ok {
							return nil
						}
						if pt, ok := i.Dyn.(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
							p, _ := i.V.(*engine.Ptr)
							return p
						}
						return nil
					}
					if s.Mon["failed"] != "" {
						c.Ob(name+"/not-saved", "when the state can't be saved, that is what the error says", dyn(lostT) != nil, "-", "%s: %s", key(res), path(s))
						continue
					}
					p := dyn(savedT)
					c.Ob(name+"/saved", "when the state is saved, that is what the error says", p != nil && s.Vals["written"] != nil, "-", "%s: %s", key(res), path(s))
					if p != nil && s.Vals["written"] != nil {
						d := s.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + ".Destination"}, str)
						c.Ob(name+"/destination", "the error tells where the state is saved", d.Key() == s.Vals["written"].Key(), "-", "%s, written to %s", d.Key(), s.Vals["written"].Key())
					}
				}
			}
			if where == "node" {
				t.Run(nil)
				saves = 0
				judge(t.Visit(func(s *engine.State) {
					s.Assume(s.Load(&engine.Ptr{Obj: "*" + t.Node().Key(), Path: c.dirField()}, types.Typ[types.Bool]), true)
					s.Vals["node"] = t.Node()
				}))
			} else {
				judge(t.Run(nil))
			}
			c.Ob(name+"/panics", "panics are analysed", panics > 0 && saves > 0, "-", "%d panics, %d saved", panics, saves)
			if !c.Done(m, name) {
				return
			}
		}
	}
	c.savedAgain()
}

// savedAgain decides that a session that was resumed is saved, when it is
// interrupted in turn, as the original session would have been.
func (c *C) savedAgain() {
	w := c.W
	num, boolT := types.Typ[types.Int], types.Typ[types.Bool]
	g := grove{"": {"f1", "d1", "d2"}, "d1": {"f3", "d3"}, "d3": {"f5"}, "d2": {"f7"}}
	og := g.ordered(false)
	for _, strategy := range []string{"ResumeStrategySpawn", "ResumeStrategyFastward"} {
		for _, sub := range Subscriptions {
			for _, point := range og.preorder("", sub) {
				if strategy == "ResumeStrategyFastward" && (sub != "SubscribeUniversal" || point == "") {
					continue
				}
				name := fmt.Sprintf("%s/%s/resumed at %q", strategy, sub, point)
				m := c.Machine()
				m.Opaque = metricsOpaque(c, m.Opaque)
				m.Unroll = 16
				m.Recur = 6
				m.MayPanic = func(s *engine.State, e *engine.Event) bool {
					switch What(e) {
					case "client":
						return true
					case "onDescend", "onAscend":
						return strategy == "ResumeStrategySpawn"
					}
					return false
				}
				source := g.place(point)
				if point == "" {
					source = engine.NewTok("tree", strT)
				}
				saves := 0
				encode := func(s *engine.State, v *engine.Ptr, t types.Type) {
					n, _ := s.Vals["node"].(*engine.Ptr)
					var a *engine.Ptr
					u, ok := t.Underlying().(*types.Struct)
					for i := 0; ok && i < u.NumFields(); i++ {
						if pt, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), w.Named("core", "ActiveState")) {
							a, _ = s.Load(&engine.Ptr{Obj: v.Obj, Path: v.Path + "." + u.Field(i).Name()}, u.Field(i).Type()).(*engine.Ptr)
						}
					}
					if n == nil || a == nil {
						c.Ob(name+"/active", "the active state is encoded", false, "-", "%s", path(s))
						return
					}
					saves++
					get := func(f string, t types.Type) string {
						return s.Load(&engine.Ptr{Obj: a.Obj, Path: a.Path + "." + f}, t).Key()
					}
					np := s.Load(&engine.Ptr{Obj: n.Obj, Path: n.Path + ".Path"}, strT).Key()
					id, _ := g.at(np)
					c.Ob(name+"/path", "the resume point saved is the node whose processing panicked", get("CurrentPath", strT) == np, "-", "%s instead of %s: %s", get("CurrentPath", strT), np, path(s))
					c.Ob(name+"/depth", "the depth saved is that of the resume point in the original tree", get("Depth", num) == engine.Int(int64(g.depth(id))).Key(), "-", "%s for %s: %s", get("Depth", num), np, path(s))
					c.Ob(name+"/directory", "it is saved whether the resume point is a directory", get("IsDir", boolT) == engine.Bool(id == "" || id[0] == 'd').Key(), "-", "%s for %s", get("IsDir", boolT), np)
					c.Ob(name+"/tree", "the tree saved is the original one", get("Tree", strT) == "⟨tree⟩", "-", "%s: %s", get("Tree", strT), path(s))
					c.Ob(name+"/subscription", "the subscription saved is the original one", get("Subscription", w.Type("enums", "Subscription")) == w.Const("enums", sub).Key(), "-", "%s", get("Subscription", w.Type("enums", "Subscription")))
				}
				m.Model = c.Reading(Saved{OnEncode: encode, Active: map[string]engine.Val{
					".Tree": engine.NewTok("tree", strT), ".CurrentPath": source, ".Subscription": w.Const("enums", sub),
					".IsDir": engine.Bool(point == "" || point[0] == 'd'), ".Depth": engine.Int(int64(g.depth(point))),
				}}, g.paths(true, g.contents(c, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
					if e.Method != nil && (e.Method.Name() == "MakeDirAll" || e.Method.Name() == "WriteFile") {
						return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
					}
					return c.calmly(s, e)
				})))
				c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
					if kind == "call" && (what == "client" || what == "onDescend" || what == "onAscend") {
						if n := c.nodeArg(s, e); n != nil {
							s.Vals["node"] = n
						}
					}
				})
				st := c.Init(m, NavInit...)
				st.Assume(engine.Eq(engine.NewTok("tree", strT), engine.Str("")), false)
				g.distinct(st)
				for id := range g {
					for _, k := range append([]string{id}, g[id]...) {
						st.Assume(engine.Eq(g.place(k), engine.NewTok("tree", strT)), false)
					}
				}
				sess := c.Resumed(strategy, st)
				sess.Settings = c.Options(without(c.Observers(), "WithPanicHandler")...)
				t := c.NewTravel(name, m, st, sess)
				for _, o := range t.Run(nil) {
					c.Ob(name+"/contained", "a panic of the client is contained", !o.Panicked, "-", "%s: %s", key(o.PanicVal), path(o.State))
				}
				c.Ob(name+"/panics", "panics are analysed", saves > 0, "-", "none")
				if !c.Done(m, name) {
					return
				}
			}
		}
	}
}

// nodeArg is the node an event is about.
func (c *C) nodeArg(s *engine.State, e *engine.Event) engine.Val {
	for _, a := range e.Args {
		if n := c.NodeOf(s, a); n != nil {
			return n
		}
	}
	return nil
}

// dirOf is the value of a node's being a directory.
func (c *C) dirOf(m *engine.Machine, s *engine.State, node engine.Val) engine.Val {
	p, ok := node.(*engine.Ptr)
	if !ok {
		p = &engine.Ptr{Obj: "*" + node.Key()}
	}
	return s.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + c.dirField()}, types.Typ[types.Bool])
}
