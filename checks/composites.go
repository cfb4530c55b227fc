package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P38", Min: 40,
		Rule: "for each composite and all of its arguments, the set of abstract paths of the navigation it sets up is that of the navigation set up by Walk or Run with Prime or Resume",
		Run:  runP38})
}

// sites are the parts of a path that tell where something was made or called.
var sites = regexp.MustCompile(`[#@][0-9]+| @[a-z-]+\.go:[0-9]+|&⟨new [^⟩]*⟩`)

func runP38(c *C) {
	w := c.W
	type scenario struct{ walk, prime bool }
	type mode struct {
		composite   string
		args        string // what the arguments are, in order
		walk, prime string // which scenarios there are
	}
	g := grove{"": {"f1", "d1"}, "d1": {"f2"}}
	// navigate collects the paths of a session
	navigate := func(name string, sc scenario, composite string, args []engine.Val, strategy string, wrong bool) map[string]bool {
		m := c.Machine()
		m.Recur, m.Unroll = 4, 16
		list := c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
			if What(e) == "client" {
				bad := engine.NewNonNil("failure", errT)
				return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{bad}, Assume: c.fails(bad), Label: "the client fails"}}, true
			}
			if What(e) == "x option" {
				return one(engine.Nil)
			}
			switch n := callName(e); {
			case n == "Err" && e.Method != nil:
				return one(engine.Nil)
			case n == "NewManifoldFuncPool":
				return one(engine.NewNonNil("pool", e.Sig.Results().At(0).Type()), engine.Nil)
			case n == "Source":
				return one(engine.NewNonNil("input channel", e.Sig.Results().At(0).Type()))
			case n == "Wrap", n == "Wrapf", n == "Errorf":
				return one(engine.NewNonNil(n, errT))
			}
			return c.calmly(s, e)
		})
		next := g.paths(true, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" {
				id, ok := g.at(e.Args[len(e.Args)-1].Key())
				if !ok {
					return []engine.Alt{{Results: []engine.Val{engine.Nil, engine.NewNonNil("no such directory", errT)}}}, true
				}
				return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil}}}, true
			}
			return list(s, e)
		})
		m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			saved := Saved{Active: map[string]engine.Val{
				".Tree": engine.NewTok("tree", strT), ".CurrentPath": g.place("d1"), ".Subscription": w.Const("enums", "SubscribeUniversal"), ".IsDir": engine.True, ".Depth": engine.Int(1),
				".Metrics": s.NewMap("saved metrics", nil, nil)}}
			return c.Reading(saved, next)(s, e)
		}
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			switch {
			case kind == "send":
				s.Note("a job is sent")
			case kind != "call":
			case callName(e) == "NewManifoldFuncPool":
				n := 0
				for _, a := range e.Args {
					if strip(a).Key() == "⟨wg⟩" {
						n++
					}
				}
				s.Note("a pool with the wait group %d times", n)
			case callName(e) == "ReadFile":
				s.Note("it reads %s", e.Args[len(e.Args)-1].Key())
			case what == "x option":
				s.Note("the option is applied")
			}
		})
		st := c.Init(m, NavInit...)
		sess := c.Plain("SubscribeUniversal", st)
		if sc.prime == wrong {
			sess = c.Resumed(strategy, st)
		}
		sess.Resume, sess.Parallel, sess.WrongFacade = !sc.prime, !sc.walk, wrong
		sess.Composite, sess.Args = composite, args
		set := sess.Settings
		sess.Settings = func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
			st, vs := set(m, st)
			return st, append(vs, engine.NewNonNil("x option", w.Type("pref", "Option")))
		}
		out := map[string]bool{}
		for _, b := range c.Build(m, st, sess) {
			if b.Panicked || len(b.Results) == 0 {
				out["it panics: "+strings.Join(b.State.Trace.List(), " → ")] = true
				continue
			}
			for _, o := range c.Invoke(m, b.State, b.Results[0], "Navigate", engine.NewNonNil("ctx", c.ctxType())) {
				p := sites.ReplaceAllString(strings.Join(o.State.Trace.List(), " → "), "")
				if o.Panicked {
					out[p+" → it panics"] = true
					continue
				}
				out[p+" → "+bareKey(o.Results[1])] = true
			}
		}
		c.Done(m, name)
		return out
	}
	wg := engine.NewNonNil("wg", w.Fn("", "Run").Params[0].Type())
	for _, strategy := range []string{"ResumeStrategyFastward", "ResumeStrategySpawn"} {
		for _, wrong := range []bool{false, true} {
			direct := map[scenario]map[string]bool{}
			for _, walk := range []bool{true, false} {
				for _, prime := range []bool{true, false} {
					sc := scenario{walk, prime}
					direct[sc] = navigate("direct", sc, "", nil, strategy, wrong)
					c.Ob(fmt.Sprintf("direct/%v/%v/%s/%v", walk, prime, strategy, wrong), "there are paths to compare with", len(direct[sc]) > 0, "-", "none")
					for o := range direct {
						if o != sc && len(direct[o]) > 0 && !wrong {
							c.Ob(fmt.Sprintf("differ/%v/%v/%v/%v/%s", sc.walk, sc.prime, o.walk, o.prime, strategy), "the scenarios can be told apart", missing(direct[sc], direct[o])+missing(direct[o], direct[sc]) != "", "-", "")
						}
					}
				}
			}
			for _, md := range []mode{
				{"Hydra", "walk prime wg", "tf", "tf"}, {"Hare", "prime wg", "f", "tf"}, {"Tortoise", "prime", "t", "tf"}, {"Goldfish", "walk wg", "tf", "t"},
			} {
				for _, wk := range md.walk {
					for _, pr := range md.prime {
						sc := scenario{wk == 't', pr == 't'}
						var args []engine.Val
						for _, a := range strings.Fields(md.args) {
							switch a {
							case "walk":
								args = append(args, engine.Bool(sc.walk))
							case "prime":
								args = append(args, engine.Bool(sc.prime))
							case "wg":
								args = append(args, wg)
							}
						}
						name := fmt.Sprintf("%s/walk=%v/prime=%v/%s/wrong facade=%v", md.composite, sc.walk, sc.prime, strategy, wrong)
						at := w.Pos(w.Fn("", md.composite).Pos())
						got := navigate(name, sc, md.composite, args, strategy, wrong)
						c.Ob(name+"/extra", "what the composite's navigation does is something that the scenario does", missing(direct[sc], got) == "", at, "%s", missing(direct[sc], got))
						c.Ob(name+"/missing", "what the scenario does is something that the composite's navigation does", missing(got, direct[sc]) == "", at, "%s", missing(got, direct[sc]))
						if c.stop() != "" {
							return
						}
					}
				}
			}
		}
	}
}

// missing is the first of want's paths that isn't in have.
func missing(have, want map[string]bool) string {
	var ks []string
	for k := range want {
		if !have[k] {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Strings(ks)
	if len(ks[0]) == 0 {
		return "nothing"
	}
	return ks[0]
}
