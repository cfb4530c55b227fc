package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P40", Min: 300,
		Rule: "value flow into the extension of every node of a tree with given entries, up to the client; decision table of the scope over depths; symbolic evaluation of the default sub path over the way a path is composed of the tree's and what follows it",
		Run:  runP40})
}

func runP40(c *C) {
	w := c.W
	num, boolT, scopeT := types.Typ[types.Int], types.Typ[types.Bool], w.Type("enums", "FilterScope")
	flag := func(name string) int64 { n, _ := engine.IntOf(w.Const("enums", name)); return n }
	g := grove{"": {"f1", "d1", "d2", "d3"}, "d1": {"f2", "d4"}, "d4": {"d5"}, "d5": {"f3"}, "d2": {"f4"}, "d3": {}}
	scope := func(depth int, dir, leaf bool) int64 {
		if !dir {
			return flag("ScopeLeaf") | flag("ScopeFile")
		}
		n := flag("ScopeDirectory")
		switch {
		case depth == 0:
			n |= flag("ScopeTree")
		case depth == 1:
			n |= flag("ScopeTop")
		case !leaf:
			n |= flag("ScopeIntermediate")
		}
		if leaf {
			n |= flag("ScopeLeaf")
		}
		return n
	}
	get := func(s *engine.State, n engine.Val, f string, t types.Type) engine.Val {
		return s.Load(&engine.Ptr{Obj: objOf(n), Path: "." + f}, t)
	}
	// what the hook answers, and what is left of it without the trailing separator
	type answer struct{ sub, trimmed string }
	answers := []answer{{"", ""}, {"/", ""}, {"/a", "/a"}, {"/a/b/", "/a/b"}, {"a//", "a/"}}
	split := func(next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
		return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if fnName(e) == "path/filepath.Split" && e.Args[0].Key() == "⟨tree⟩" {
				return []engine.Alt{{Results: []engine.Val{engine.NewTok("parent of the tree", strT), engine.NewTok("name of the tree", strT)}}}, true
			}
			return next(s, e)
		}
	}
	for _, sub := range Subscriptions {
		for _, keep := range []bool{false, true} {
			for ai, ans := range answers {
				if ai > 0 && sub != "SubscribeUniversal" {
					continue
				}
				name := fmt.Sprintf("%s/keep=%v/%q", sub, keep, ans.sub)
				m := c.Machine()
				m.Opaque = metricsOpaque(c, m.Opaque)
				m.Unroll, m.Recur = 16, 6
				m.Model = g.paths(true, split(g.contents(c, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) { return c.calmly(s, e) })))
				inner := m.Model
				m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
					if What(e) == "fileSubPath" || What(e) == "directorySubPath" {
						return []engine.Alt{{Results: []engine.Val{engine.Str(ans.sub)}}}, true
					}
					return inner(s, e)
				}
				seen := map[string]bool{}
				// the node's own place, depth and scope
				known := func(s *engine.State, n engine.Val, when string, e *engine.Event) (string, bool) {
					id, ok := g.at(get(s, n, "Path", strT).Key())
					if !ok {
						c.Ob(name+"/"+when+"/node", "the node is one of the tree", false, c.locate(e), "%s", get(s, n, "Path", strT).Key())
						return "", false
					}
					k := name + "/" + when + "/" + id
					dir := id == "" || id[0] == 'd'
					leaf := dir && len(kindOf(g[id], 'd')) == 0
					eq := func(f, what string, t types.Type, want ...engine.Val) {
						got, ok := get(s, n, "Extension."+f, t), false
						for _, x := range want {
							ok = ok || got.Key() == x.Key()
						}
						c.Ob(k+"/"+f, what, ok, c.locate(e), "%s instead of %s: %s", got.Key(), want[0].Key(), path(s))
					}
					eq("Depth", "the depth is the number of levels below the tree", num, engine.Int(int64(g.depth(id))))
					eq("Scope", "the scope tells the level and the kind", scopeT, engine.IntT(scope(g.depth(id), dir, leaf), scopeT))
					eq("IsLeaf", "a leaf is a directory without sub directories", boolT, engine.Bool(leaf))
					if id == "" {
						eq("Name", "the name is the last element of the path", strT, engine.NewTok("name of the tree", strT))
						eq("Parent", "the parent is what precedes the name", strT, engine.NewTok("parent of the tree", strT))
					} else {
						eq("Name", "the name is the last element of the path", strT, EntryName(id))
						up := g.place(g.parent(id))
						if g.parent(id) == "" {
							up = engine.NewTok("clean tree", strT)
						}
						eq("Parent", "the parent is what precedes the name", strT, engine.MkApp("with separator", strT, up))
					}
					return id, true
				}
				c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
					if kind != "call" {
						return
					}
					switch what {
					case "fileSubPath", "directorySubPath":
						info, ok := e.Args[0].(*engine.Ptr)
						if !ok {
							c.Ob(name+"/info", "the hook is told what about", false, c.locate(e), "%s", e.Args[0].Key())
							return
						}
						n := s.Load(&engine.Ptr{Obj: info.Obj, Path: info.Path + ".Node"}, types.NewPointer(c.nodeT()))
						if id, ok := known(s, n, what, e); ok {
							dir := id == "" || id[0] == 'd'
							c.Ob(name+"/"+what+"/"+id+"/kind", "the sub path hook asked is that of the node's kind", dir == (what == "directorySubPath"), c.locate(e), "%s", path(s))
							tr := s.Load(&engine.Ptr{Obj: info.Obj, Path: info.Path + ".Tree"}, strT).Key()
							c.Ob(name+"/"+what+"/"+id+"/tree", "the hook is given the session's tree", tr == "⟨tree⟩", c.locate(e), "%s", tr)
							kt := s.Load(&engine.Ptr{Obj: info.Obj, Path: info.Path + ".KeepTrailingSep"}, boolT).Key()
							c.Ob(name+"/"+what+"/"+id+"/keep", "the hook is told whether separators are kept", kt == engine.Bool(keep).Key(), c.locate(e), "%s", kt)
						}
					case "client":
						n := c.nodeArg(s, e)
						if n == nil {
							c.Ob(name+"/client/node", "the client is given a node", false, c.locate(e), "%s", path(s))
							return
						}
						if id, ok := known(s, n, what, e); ok {
							seen[id] = true
							want := ans.trimmed
							if keep {
								want = ans.sub
							}
							got := get(s, n, "Extension.SubPath", strT).Key()
							c.Ob(name+"/client/"+id+"/SubPath", "the sub path is what the hook says, without its trailing separator unless it is kept", got == engine.Str(want).Key(), c.locate(e), "%s instead of %q", got, want)
						}
					}
				})
				st := c.Init(m, NavInit...)
				t := c.NewTravel(name, m, st, c.Plain(sub, st, Setting{Name: "WithSubPathBehaviour", Make: func(st *engine.State) []engine.Val {
					return []engine.Val{c.object(st, "sub path behaviour", w.Named("pref", "SubPathBehaviour"), map[string]engine.Val{".KeepTrailingSep": engine.Bool(keep)})}
				}}))
				for _, o := range t.Run(nil) {
					c.Ob(name+"/completes", "the navigation completes", !o.Panicked, "-", "%s: %s", key(o.PanicVal), path(o.State))
				}
				for _, id := range g.ordered(false).preorder("", sub) {
					c.Ob(name+"/client/"+id+"/seen", "the client is given the node", seen[id], "-", "never")
				}
				if !c.Done(m, name) {
					return
				}
			}
		}
	}
	c.depths(scope)
	c.defaultSubPath()
}

// depths decides depth and scope of the visit of a directory at any level.
func (c *C) depths(scope func(int, bool, bool) int64) {
	num, scopeT := types.Typ[types.Int], c.W.Type("enums", "FilterScope")
	for _, sub := range Subscriptions {
		for _, leaf := range []bool{false, true} {
			ids := []string{"f1", "d1"}
			if leaf {
				ids = []string{"f1"}
			}
			name := fmt.Sprintf("%s/leaf=%v", sub, leaf)
			m := c.Machine()
			m.Opaque = metricsOpaque(c, m.Opaque)
			m.Model = c.Listing(c.calmly, ids...)
			level, hits := 0, 0
			c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
				if kind != "call" || what != "directorySubPath" || level == 0 {
					return
				}
				info, ok := e.Args[0].(*engine.Ptr)
				if !ok {
					return
				}
				hits++
				n := s.Load(&engine.Ptr{Obj: info.Obj, Path: info.Path + ".Node"}, types.NewPointer(c.nodeT()))
				d := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Depth"}, num).Key()
				sc := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Scope"}, scopeT).Key()
				c.Ob(fmt.Sprintf("%s/level=%d/depth", name, level), "the depth is the number of levels below the tree", d == engine.Int(int64(level)).Key(), c.locate(e), "%s", d)
				c.Ob(fmt.Sprintf("%s/level=%d/scope", name, level), "the scope tells the level and the kind", sc == engine.IntT(scope(level, true, leaf), scopeT).Key(), c.locate(e), "%s", sc)
			})
			st := c.Init(m, NavInit...)
			t := c.NewTravel(name, m, st, c.Plain(sub, st))
			t.Run(nil)
			fields := t.depthFields()
			if len(fields) != 1 {
				// a leaf has no children for a subscription of directories
				if len(t.Visits()) > 0 {
					c.Ob(name+"/depth-counter", "the navigation keeps one depth counter", false, "-", "%d counters", len(fields))
				}
				continue
			}
			f, base := fields[0], int64(0)
			if b := t.startField(f.Obj)[f.Path]; b != nil {
				base, _ = engine.IntOf(b)
			}
			for _, l := range []int{1, 2, 3, 4, 5, 17, 255, 256, 70000} {
				level, hits = l, 0
				t.Visit(func(s *engine.State) {
					s.Assume(s.Load(&engine.Ptr{Obj: "*" + t.Node().Key(), Path: c.dirField()}, types.Typ[types.Bool]), true)
					s.Field(f.Obj, f.Path, engine.IntT(base+int64(l), num))
				})
				c.Ob(fmt.Sprintf("%s/level=%d", name, l), "directories are visited", hits > 0, "-", "none")
			}
			level = 0
			c.Done(m, name)
		}
	}
}

// defaultSubPath decides the sub path of a node by default: what follows the
// tree in the path of the directory that the node is in.
func (c *C) defaultSubPath() {
	w := c.W
	scopeT := w.Type("enums", "FilterScope")
	tree, rest := engine.NewTok("tree", strT), engine.NewTok("what follows", strT)
	longer := engine.MkApp("+", strT, tree, rest)
	for _, h := range []string{"DefaultSubPathHook", "RootItemSubPathHook"} {
		for _, above := range []bool{false, true} {
			fn := w.Fn("pref", h)
			m := c.Machine()
			st := c.Init(m, NavInit...)
			of, parent := tree, engine.Val(longer)
			if above {
				// the directory that the tree itself is in
				of, parent = nil, rest
			}
			fields := map[string]engine.Val{".Tree": engine.MkApp("+", strT, rest, tree)}
			if of != nil {
				fields[".Tree"] = of
			}
			// for the one, where the node is, for the other, the node itself
			in, at := parent, engine.Val(engine.MkApp("+", strT, parent, engine.NewTok("name", strT)))
			if h == "RootItemSubPathHook" {
				in, at = engine.NewTok("directory", strT), parent
			}
			n := c.object(st, "node of "+h, c.nodeT(), map[string]engine.Val{
				".Extension.Parent": in, ".Path": at, ".Extension.Scope": engine.NewTok("scope", scopeT)})
			fields[".Node"] = n
			info := c.object(st, "info of "+h, w.Named("core", "SubPathInfo"), fields)
			outs := m.Run(st, fn, info)
			key := fmt.Sprintf("%s/above=%v", h, above)
			c.Ob(key+"/outcomes", "the hook has outcomes", len(outs) > 0, "-", "none")
			for _, o := range outs {
				if o.Panicked {
					c.Ob(key+"/completes", "the hook completes", false, w.Pos(fn.Pos()), "it panics: %s", o.PanicVal.Key())
					continue
				}
				if knownTrue(o.State, engine.Eq(engine.NewTok("scope", scopeT), w.Const("enums", "ScopeTop"))) {
					// the scope of a node is never just this
					continue
				}
				got := o.Results[0].Key()
				want := got == rest.Key()
				if got == engine.Str("").Key() {
					// nothing follows: the runes, or bytes, are none
					for _, a := range o.State.Atoms() {
						if strings.Contains(a, rest.Key()) && strings.Contains(a, "len") {
							want = true
						}
					}
				}
				if above {
					want = got == engine.Str("").Key()
				}
				c.Ob(key+"/value", "the sub path is what follows the tree's path, nothing above it", want, w.Pos(fn.Pos()), "it is %s, when %s", got, strings.Join(o.State.Atoms(), ", "))
			}
			c.Done(m, key)
		}
	}
}
