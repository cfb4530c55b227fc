package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P29", Min: 60,
		Rule: "every abstract path of loading a saved session: the first thing that fails decides the error that is returned, and nothing is visited; otherwise the saved tree is traversed with the saved options, as amended by the settings of the resume",
		Run:  runP29})
}

func runP29(c *C) {
	w := c.W
	boolT := types.Typ[types.Bool]
	savedT, savedR := engine.NewTok("saved traverse relative", boolT), engine.NewTok("saved resume relative", boolT)
	optT := w.Type("pref", "Option")
	type mode struct {
		name     string
		missing  string
		forest   string
		override bool
	}
	modes := []mode{{name: "failing"}, {name: "without options", missing: "options"}, {name: "without active state", missing: "active"},
		{name: "nil forest", forest: "nil"}, {name: "forest without T", forest: "T"}, {name: "forest without R", forest: "R"}, {name: "own forest", forest: "own"},
		{name: "amended", override: true}}
	readErr, decErr, optErr := engine.NewNonNil("read error", errT), engine.NewNonNil("decode error", errT), engine.NewNonNil("error of the option", errT)
	g := grove{"": {"f1", "d1"}, "d1": {"f2"}}
	for _, par := range []bool{false, true} {
		for _, strategy := range []string{"ResumeStrategyFastward", "ResumeStrategySpawn"} {
			for _, md := range modes {
				name := fmt.Sprintf("%s/%s/%s", map[bool]string{false: "walk", true: "run"}[par], strategy, md.name)
				m := c.Machine()
				m.Recur, m.Unroll = 4, 16
				m.Opaque = metricsOpaque(c, m.Opaque)
				list := c.Listing(c.calmly)
				flawed := md.name == "failing"
				current := "tree"
				if md.forest == "nil" {
					current = "elsewhere"
				}
				saved := Saved{Active: map[string]engine.Val{
					".Tree": engine.NewTok("tree", strT), ".CurrentPath": engine.NewTok(current, strT), ".Subscription": w.Const("enums", "SubscribeUniversal"),
					".IsDir": engine.True, ".Depth": engine.Int(0), ".TraverseDescription.IsRelative": savedT, ".ResumeDescription.IsRelative": savedR,
				}, Options: map[string]engine.Val{".Behaviours.Cascade.NoRecurse": engine.True, ".Concurrency.NoW": engine.NewNonNil("saved number of workers", types.Typ[types.Uint])},
					ActiveMissing: md.missing == "active", OptionsMissing: md.missing == "options", Fails: flawed, Relative: true}
				m.Model = c.Reading(saved, g.paths(true, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
					one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
					switch What(e) {
					case "forest":
						c.Ob(name+"/forest", "the forest is built for the tree that was saved", e.Args[0].Key() == "⟨tree⟩", c.locate(e), "%s", e.Args[0].Key())
						if md.forest == "nil" {
							return one(engine.Nil)
						}
						ft := w.Named("core", "Forest")
						f := s.New("the forest", ft)
						u := ft.Underlying().(*types.Struct)
						for i := 0; i < u.NumFields(); i++ {
							var v engine.Val = engine.Nil
							if md.forest != u.Field(i).Name() {
								v = engine.NewNonNil("fs "+u.Field(i).Name(), u.Field(i).Type())
							}
							s.StoreTo(&engine.Ptr{Obj: f.Obj, Path: "." + u.Field(i).Name()}, v, u.Field(i).Type())
						}
						return one(f)
					case "option#1":
						if flawed {
							return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{optErr}}}, true
						}
						if o, ok := e.Args[0].(*engine.Ptr); ok && md.override {
							s.StoreTo(&engine.Ptr{Obj: o.Obj, Path: o.Path + ".Behaviours.Cascade.NoRecurse"}, engine.False, boolT)
						}
						return one(engine.Nil)
					case "readDirectory":
						id, ok := g.at(e.Args[len(e.Args)-1].Key())
						if !ok {
							return one(engine.Nil, engine.NewNonNil("no such directory", errT))
						}
						return one(c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil)
					case "queryStatus":
						return one(engine.NewNonNil("info", e.Sig.Results().At(0).Type()), engine.Nil)
					}
					switch n := callName(e); {
					case n == "NewManifoldFuncPool":
						return one(engine.NewNonNil("pool", e.Sig.Results().At(0).Type()), engine.Nil)
					case n == "Source":
						return one(engine.NewNonNil("input channel", e.Sig.Results().At(0).Type()))
					case n == "Wrap", n == "Wrapf", n == "Errorf":
						return one(engine.NewNonNil(n, errT))
					}
					return list(s, e)
				}))
				c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
					n := ""
					if kind == "call" || kind == "ret" {
						n = callName(e)
					}
					switch {
					case kind == "call" && n == "ReadFile":
						c.Ob(name+"/read", "the file that is read is the one asked for", e.Args[len(e.Args)-1].Key() == "⟨from⟩", c.locate(e), "%s", e.Args[len(e.Args)-1].Key())
						s.Note("ReadFile")
					case kind == "ret" && (n == "ReadFile" || n == "Unmarshal" || what == "option#1" && s.Mon["applied"] == ""):
						r := e.Results[len(e.Results)-1]
						s.Note("%s %s", n, r.Key())
						if !engine.IsNil(r) && s.Mon["failed"] == "" {
							s.Mon["failed"] = r.Key()
						}
						if what == "option#1" {
							s.Mon["applied"] = "yes"
						}
					case kind == "call" && what == "option#1":
						if s.Mon["applied"] != "" || s.Mon["failed"] != "" || md.missing != "" {
							// to the options of a session that is not going to be
							return
						}
						o, ok := e.Args[0].(*engine.Ptr)
						if !ok {
							c.Ob(name+"/options", "the settings are applied to known options", false, c.locate(e), "%s", e.Args[0].Key())
							return
						}
						v := s.Load(&engine.Ptr{Obj: o.Obj, Path: o.Path + ".Behaviours.Cascade.NoRecurse"}, boolT)
						k := s.Load(&engine.Ptr{Obj: o.Obj, Path: o.Path + ".Concurrency.NoW"}, types.Typ[types.Uint])
						c.Ob(name+"/amended", "the settings are applied to the options that were saved", v.Key() == engine.True.Key() && k.Key() == "⟨saved number of workers⟩",
							c.locate(e), "%s, %s: %s", v.Key(), k.Key(), path(s))
					case kind == "call" && n == "WithSize":
						c.Ob(name+"/workers", "the number of workers is the one that was saved", e.Args[0].Key() == "⟨saved number of workers⟩", c.locate(e), "%s", e.Args[0].Key())
					case kind == "call" && what == "readDirectory":
						s.Mon["read"] = "yes"
					case kind == "call" && what == "client":
						if n := c.nodeArg(s, e); n != nil {
							p := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Path"}, strT)
							id, _ := g.at(p.Key())
							s.Mon["seq"] += "[" + id + "]"
						}
					}
					if a := active(e); a != "" {
						s.Mon["active"] = "yes"
						c.Ob(name+"/idle", "nothing happens until the session is loaded", s.Mon["failed"] == "" && s.Mon["applied"] == "yes" && md.missing == "" && (md.forest == "" || md.forest == "own"),
							c.locate(e), "%s: %s", a, path(s))
					}
				})
				st := c.Init(m, NavInit...)
				st.Assume(engine.Eq(engine.NewTok("tree", strT), engine.Str("")), false)
				for _, x := range []string{"SkipDir", "SkipAll"} {
					for _, err := range []engine.Val{readErr, decErr, optErr, engine.NewNonNil("Wrap", errT), engine.NewNonNil("Errorf", errT)} {
						st.Assume(Is(err, c.Sentinel("io/fs", x)), false)
					}
				}
				for p, ks := range g {
					for a := range ks {
						for b := range ks[:a] {
							st.Assume(engine.Eq(EntryName(ks[a]), EntryName(ks[b])), false)
						}
						for q := p; ; q = g.parent(q) {
							st.Assume(engine.Eq(g.place(ks[a]), g.place(q)), false)
							if q == "" {
								break
							}
						}
					}
				}
				sess := c.Resumed(strategy, st)
				sess.Parallel = par
				if md.forest != "" {
					sess.Facade["GetForest"] = engine.NewNonNil("forest", w.Type("pref", "BuildForest"))
				}
				settings := sess.Settings
				sess.Settings = func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
					st, os := settings(m, st)
					return st, append(os, engine.NewNonNil("option#1", optT))
				}
				built := c.Build(m, st, sess)
				good, bad, deep := 0, 0, 0
				for _, b := range built {
					if b.Panicked {
						c.Ob(name+"/built", "a session that can't be loaded does not panic", false, "-", "%s: %s", b.PanicVal.Key(), path(b.State))
						continue
					}
					for _, o := range c.Invoke(m, b.State, b.Results[0], "Navigate", engine.NewNonNil("ctx", c.ctxType())) {
						s := o.State
						if o.Panicked {
							c.Ob(name+"/completes", "the resume does not panic", false, "-", "%s: %s", o.PanicVal.Key(), path(s))
							continue
						}
						err := o.Results[1]
						c.Ob(name+"/result", "there is a result", s.NonNilKnown(o.Results[0]), "-", "%s: %s", o.Results[0].Key(), path(s))
						rel := func(f string, saved engine.Val) string {
							var a engine.Val = relative(engine.NewNonNil("fs "+f, strT))
							if md.forest == "" {
								a = relative(engine.NewNonNil("github.com/snivilised/nefilim.NewUniversalABS", strT))
							}
							x, ok1 := s.Decide(a)
							y, ok2 := s.Decide(saved)
							if eq, ok := s.Decide(engine.Eq(a, saved)); ok {
								return fmt.Sprint(eq)
							}
							if !ok1 || !ok2 {
								return "?"
							}
							return fmt.Sprint(x == y)
						}
						want, is := "", false
						fail := s.Mon["failed"]
						switch {
						case fail != "":
							want, is = fail, err.Key() == fail
						case md.missing != "":
							want, is = "an error", s.NonNilKnown(err)
						case md.forest == "nil" || md.forest == "T" || md.forest == "R":
							want, is = "core.ErrNilForest", c.isError(s, err, "core", "ErrNilForest")
						case rel("T", savedT) == "false":
							want, is = "that the traversal file system differs", dynName(err) == "TraverseFsMismatchError"
						case rel("R", savedR) == "false":
							want, is = "that the resume file system differs", dynName(err) == "ResumeFsMismatchError"
						default:
							good++
							c.Ob(name+"/known", "a session is resumed only on file systems like those it was saved with", rel("T", savedT) == "true" && rel("R", savedR) == "true", "-", "%s", path(s))
							c.Ob(name+"/resumed", "a session that is loaded is resumed", s.Mon["read"] == "yes", "-", "%s: %s", err.Key(), path(s))
							if strings.Contains(s.Mon["seq"], "[d1]") {
								deep++
								c.Ob(name+"/effective", "the options that were saved are in effect, as amended", strings.Contains(s.Mon["seq"], "[f2]") == md.override, "-", "the client is invoked for %s: %s", s.Mon["seq"], path(s))
							}
							continue
						}
						bad++
						c.Ob(name+"/reported", "the reason for which a session can't be loaded is returned", is, "-", "%s instead of %s: %s", err.Key(), want, path(s))
						c.Ob(name+"/idle", "nothing happens unless the session is loaded", s.Mon["active"] == "", "-", "%s", path(s))
					}
				}
				c.Ob(name+"/judged", "outcomes are analysed", bad > 0 && (good > 0) == (md.missing == "" && (md.forest == "" || md.forest == "own")), "-", "%d good, %d bad", good, bad)
				c.Ob(name+"/judged-effect", "the effect of the options is analysed", par || (good > 0) == (deep > 0), "-", "%d of %d", deep, good)
				if !c.Done(m, name) {
					return
				}
			}
		}
	}
}

// dynName is the name of the type of a value in an interface.
func dynName(v engine.Val) string {
	if i, ok := v.(*engine.Iface); ok {
		t := i.Dyn
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}
