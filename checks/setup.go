package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P16", Min: 40,
		Rule: "typestate over every abstract path from the public factories to the end of Navigate: the options are applied in order, none after one that fails; a session that cannot be built reports its error and neither queries, reads nor invokes the client",
		Run:  runP16})
}

// active names an event by which a traversal gets going.
func active(e *engine.Event) string {
	if e.Kind == "go" {
		return "a goroutine is started"
	}
	if e.Kind != "call" {
		return ""
	}
	switch w := What(e); {
	case w == "client" || w == "visit":
		return "the client is invoked"
	case strings.Contains(w, "pants.NewManifoldFuncPool"):
		return "a worker pool is made"
	case e.Method != nil && (e.Method.Name() == "Stat" || e.Method.Name() == "ReadDir" || e.Method.Name() == "Lstat"):
		return "the file system is asked (" + e.Method.Name() + ")"
	}
	return ""
}

// sentinelType is the type of an exported error variable of the library.
func (c *C) sentinelType(rel, name string) string {
	return types.TypeString(c.W.Global(rel, name).Type().(*types.Pointer).Elem(), nil)
}

// isError says whether an error value is the given one.
func (c *C) isError(s *engine.State, v engine.Val, rel, name string) bool {
	g := c.W.Global(rel, name)
	if v.Key() == s.Load(&engine.Ptr{Obj: "g:" + g.String()}, g.Type().(*types.Pointer).Elem()).Key() {
		return true
	}
	switch x := v.(type) {
	case *engine.Iface:
		return types.TypeString(x.Dyn, nil) == c.sentinelType(rel, name)
	case *engine.Tok:
		return x.ID == "g:"+g.String()
	}
	return false
}

func runP16(c *C) {
	w := c.W
	type cas struct {
		name     string
		resume   bool
		facade   func(st *engine.State) map[string]engine.Val
		rel, err string
	}
	ok := func(drop ...string) func(st *engine.State) map[string]engine.Val {
		return func(st *engine.State) map[string]engine.Val {
			f := map[string]engine.Val{
				"Subscription": w.Const("enums", "SubscribeUniversal"),
				"Tree":         c.Tree(st),
				"Handler":      c.Client(),
			}
			for _, d := range drop {
				delete(f, d)
			}
			return f
		}
	}
	relic := func(drop ...string) func(st *engine.State) map[string]engine.Val {
		return func(st *engine.State) map[string]engine.Val {
			from := engine.NewTok("from", types.Typ[types.String])
			st.Assume(engine.Eq(from, engine.Str("")), false)
			f := map[string]engine.Val{
				"From":     from,
				"Strategy": w.Const("enums", "ResumeStrategyFastward"),
				"Handler":  c.Client(),
			}
			for _, d := range drop {
				delete(f, d)
			}
			return f
		}
	}
	optT := w.Type("pref", "Option")
	for _, par := range []bool{false, true} {
		how := "walk"
		if par {
			how = "run"
		}
		// the options of a valid session
		{
			m := c.Machine()
			m.Unroll = 8
			name := how + "/options"
			watch := func(s *engine.State, e *engine.Event) {
				wt := What(e)
				if strings.HasPrefix(wt, "option#") {
					var k int
					fmt.Sscanf(wt, "option#%d", &k)
					switch e.Kind {
					case "call":
						due := "1"
						if d := s.Mon["due"]; d != "" {
							due = d
						}
						c.Ob(name+"/order", "the options are applied once each, in the order they are given, up to the first that fails",
							due == fmt.Sprint(k), w.InstrPos(e.Instr), "%s is applied when #%s is due", wt, due)
						if p := s.Vals["result "+s.Mon["last"]]; p != nil {
							c.Ob(name+"/stop", "no option is applied after one that fails", s.IsNilKnown(p), w.InstrPos(e.Instr), "%s is applied although %s may have failed: %s", wt, s.Mon["last"], path(s))
						}
						s.Mon["due"] = fmt.Sprint(k + 1)
						s.Note("%s", wt)
					case "ret":
						s.Vals["result "+wt] = e.Results[0]
						s.Mon["last"] = wt
						if !s.IsNilKnown(e.Results[0]) {
							s.Mon["due"] = "none"
							if !s.NonNilKnown(e.Results[0]) {
								s.Mon["due"] = fmt.Sprint(k + 1)
							}
						}
					}
				}
				if a := active(e); a != "" {
					c.Ob(name+"/first", "the traversal begins when all the options have been applied successfully",
						s.Mon["due"] == "4" && s.IsNilKnown(s.Vals["result "+s.Mon["last"]]), w.InstrPos(e.Instr), "%s after %s", a, path(s))
				}
			}
			m.On = watch
			st := c.Init(m, NavInit...)
			sess := Session{Parallel: par, Facade: ok()(st), Settings: func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
				return st, []engine.Val{
					engine.NewNonNil("option#1", optT), engine.Nil, engine.NewNonNil("option#2", optT), engine.NewNonNil("option#3", optT),
				}
			}}
			built := c.Build(m, st, sess)
			n, good := 0, 0
			for _, b := range built {
				if b.Panicked {
					c.Ob(name+"/built", "building the session does not panic", false, "-", "%s", path(b.State))
					continue
				}
				outs := c.Invoke(m, b.State, b.Results[0], "Navigate", engine.NewNonNil("ctx", c.ctxType()))
				for _, o := range outs {
					n++
					last := o.State.Mon["last"]
					if last == "" {
						c.Ob(name+"/applied", "the options are applied", false, "-", "none is: %s", path(o.State))
						continue
					}
					e := o.State.Vals["result "+last]
					switch {
					case o.State.IsNilKnown(e):
						good++
						c.Ob(name+"/applied", "every option is applied", last == "option#3", "-", "the last one is %s, without an error", last)
					case o.Panicked:
						c.Ob(name+"/reported", "the error of an option is what Navigate returns", false, "-", "it panics, after %s", path(o.State))
					case knownTrue(o.State, Is(e, c.Sentinel("io/fs", "SkipDir"))), knownTrue(o.State, Is(e, c.Sentinel("io/fs", "SkipAll"))):
						// a request to skip is never a failure
					default:
						c.Ob(name+"/reported", "the error of an option is what Navigate returns", o.Results[1].Key() == e.Key(), "-",
							"it returns %s, after %s", o.Results[1].Key(), path(o.State))
					}
				}
			}
			c.Done(m, name)
			c.Ob(name+"/outcomes", "there are outcomes with and without errors", n > good && good > 0, "-", "%d of %d", good, n)
		}
		cases := []cas{
			{"prime without a tree", false, ok("Tree"), "locale", "ErrUsageMissingTreePath"},
			{"prime without a subscription", false, ok("Subscription"), "locale", "ErrUsageMissingSubscription"},
			{"prime without a handler", false, ok("Handler"), "locale", "ErrUsageMissingHandler"},
			{"prime without a forest", false, func(st *engine.State) map[string]engine.Val {
				f := ok()(st)
				f["GetForest"] = engine.NewNonNil("forest", w.Type("pref", "BuildForest"))
				return f
			}, "core", "ErrNilForest"},
			{"resume without a path", true, relic("From"), "locale", "ErrUsageMissingRestorePath"},
			{"resume without a handler", true, relic("Handler"), "locale", "ErrUsageMissingHandler"},
			{"resume without a strategy", true, relic("Strategy"), "", ""},
			{"prime with the facade of a resume", false, nil, "core", "ErrWrongPrimaryFacade"},
			{"resume with the facade of a prime", true, nil, "core", "ErrWrongResumeFacade"},
		}
		for _, k := range cases {
			m := c.Machine()
			name := how + "/" + k.name
			m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				if What(e) == "forest" {
					return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
				}
				return LibModel(s, e)
			}
			m.On = func(s *engine.State, e *engine.Event) {
				a := active(e)
				if e.Kind == "call" && e.Method != nil && strings.HasPrefix(e.Method.Name(), "ReadFile") {
					a = "the saved state is read"
				}
				if a != "" {
					c.Ob(name+"/idle", "a session that cannot be built does nothing", false, w.InstrPos(e.Instr), "%s", a)
				}
			}
			st := c.Init(m, NavInit...)
			sess := Session{Resume: k.resume, Parallel: par}
			if k.facade != nil {
				sess.Facade = k.facade(st)
			} else {
				sess.WrongFacade = true
				if k.resume {
					sess.Facade = ok()(st)
				} else {
					sess.Facade = relic()(st)
				}
			}
			built := c.Build(m, st, sess)
			n := 0
			for _, b := range built {
				if b.Panicked {
					c.Ob(name+"/built", "building the session does not panic", false, "-", "it panics: %v", b.PanicVal.Key())
					continue
				}
				for _, o := range c.Invoke(m, b.State, b.Results[0], "Navigate", engine.NewNonNil("ctx", c.ctxType())) {
					n++
					if o.Panicked {
						c.Ob(name+"/reported", "the reason is reported by Navigate", false, "-", "it panics: %s", o.PanicVal.Key())
						continue
					}
					e := o.Results[1]
					if k.err == "" {
						c.Ob(name+"/reported", "the reason is reported by Navigate", o.State.NonNilKnown(e), "-", "it returns %s", e.Key())
						continue
					}
					c.Ob(name+"/reported", "the reason is reported by Navigate", c.isError(o.State, e, k.rel, k.err), "-", "it returns %s", e.Key())
					c.Ob(name+"/result", "there is a result nevertheless", o.State.NonNilKnown(o.Results[0]), "-", "it is %s", o.Results[0].Key())
				}
			}
			c.Done(m, name)
			c.Ob(name+"/outcomes", "the navigation has an outcome", n > 0, "-", "none")
		}
	}
}
