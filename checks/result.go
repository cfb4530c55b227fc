package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P41", Min: 60,
		Rule: "every abstract path to the end of Navigate, for sessions that complete, fail, panic or can't be built: there is a result, and what it answers for each metric is the number of events of that kind on the path",
		Run:  runP41})
}

// enumConsts are the names of the constants of an enum type, with their values.
func (c *C) enumConsts(typ string) map[string]*engine.Const {
	t := c.W.Type("enums", typ)
	out := map[string]*engine.Const{}
	sc := c.W.pkg("enums").Pkg.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && k.Exported() && types.Identical(k.Type(), t) && k.Val().Kind() == constant.Int {
			if v, ok := c.W.Const("enums", n).(*engine.Const); ok {
				out[n] = v
			}
		}
	}
	return out
}

// counts asks the result of a session for each metric.
func (c *C) counts(m *engine.Machine, name string, o engine.Outcome, want func(metric string) engine.Val) {
	c.Ob(name+"/result", "there is a result", len(o.Results) == 2 && o.State.NonNilKnown(o.Results[0]), "-", "it is %v: %s", o.Results, path(o.State))
	if len(o.Results) != 2 || !o.State.NonNilKnown(o.Results[0]) {
		return
	}
	metrics := c.enumConsts("Metric")
	var names []string
	for n := range metrics {
		names = append(names, n)
	}
	sort.Strings(names)
	on, wasOn := m.On, m.Model
	m.On = nil
	defer func() { m.On, m.Model = on, wasOn }()
	for _, r := range c.Invoke(m, o.State.Clone(), o.Results[0], "Metrics") {
		if r.Panicked || !r.State.NonNilKnown(r.Results[0]) {
			c.Ob(name+"/metrics", "the result has metrics", false, "-", "%v: %s", r.Results, path(o.State))
			continue
		}
		for _, n := range names {
			for _, k := range c.Invoke(m, r.State.Clone(), r.Results[0], "Count", metrics[n]) {
				if k.Panicked {
					c.Ob(name+"/metrics", "the metrics of the result can be read", false, "-", "%s panics: %s", n, path(o.State))
					continue
				}
				w := want(n)
				if w == nil {
					c.Ob(name+"/metrics", "the metrics of the result can be read", true, "-", "")
					continue
				}
				c.Ob(name+"/"+n, "the result tells how many there were", k.Results[0].Key() == w.Key(), "-", "%s, not %s: %s", k.Results[0].Key(), w.Key(), path(o.State))
			}
		}
	}
}

func runP41(c *C) {
	w := c.W
	uintT := types.Typ[types.Uint]
	ctx := engine.NewNonNil("ctx", c.ctxType())
	g := grove{"": {"f1", "d1"}, "d1": {"f2"}}
	type mode struct {
		sub, resume string
		run         bool
		filter      bool
		// stops: the client may fail or panic
		stops bool
	}
	var modes []mode
	for _, sub := range Subscriptions {
		modes = append(modes, mode{sub: sub}, mode{sub: sub, filter: true}, mode{sub: sub, stops: true})
	}
	modes = append(modes, mode{sub: "SubscribeUniversal", run: true}, mode{sub: "SubscribeUniversal", resume: "ResumeStrategySpawn"}, mode{sub: "SubscribeFiles", resume: "ResumeStrategySpawn", stops: true},
		mode{sub: "SubscribeUniversal", resume: "ResumeStrategyFastward", stops: true})
	for _, md := range modes {
		name := fmt.Sprintf("%s/filter=%v/stops=%v/%s", md.sub, md.filter, md.stops, map[bool]string{false: "walk", true: "run"}[md.run])
		if md.resume != "" {
			name += "/" + md.resume
		}
		m := c.Machine()
		m.Recur, m.Unroll = 4, 16
		list := c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
			switch What(e) {
			case "client":
				if md.stops {
					bad := engine.NewNonNil("failure", errT)
					return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{bad}, Assume: c.fails(bad), Label: "the client fails"}, {Panics: true, Label: "the client panics"}}, true
				}
			case "panic.Rescue":
				return one(engine.Str("somewhere"), engine.Nil)
			}
			switch n := callName(e); {
			case n == "Err" && e.Method != nil:
				bad := engine.NewNonNil("cancelled", errT)
				return []engine.Alt{{Results: []engine.Val{bad}, Assume: c.fails(bad)}}, true
			case n == "NewManifoldFuncPool":
				return one(engine.NewNonNil("pool", e.Sig.Results().At(0).Type()), engine.Nil)
			case n == "Source":
				return one(engine.NewNonNil("input channel", e.Sig.Results().At(0).Type()))
			case n == "Wrap", n == "Wrapf", n == "Errorf":
				return one(engine.NewNonNil(n, errT))
			}
			return c.calmly(s, e)
		})
		m.Model = g.paths(true, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" {
				id, ok := g.at(e.Args[len(e.Args)-1].Key())
				if !ok {
					return []engine.Alt{{Results: []engine.Val{engine.Nil, engine.NewNonNil("no such directory", errT)}}}, true
				}
				return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil}}}, true
			}
			return list(s, e)
		})
		before := func(metric string) engine.Val { return engine.IntT(0, uintT) }
		if md.resume != "" {
			known := map[string]engine.Val{}
			if md.resume == "ResumeStrategySpawn" {
				before = func(metric string) engine.Val {
					if v := known[metric]; v != nil {
						return v
					}
					return engine.IntT(0, uintT)
				}
			}
			next := m.Model
			m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				var keys, vals []engine.Val
				for _, n := range []string{"MetricNoFilesInvoked", "MetricNoDirectoriesInvoked", "MetricNoDirectoriesFilteredOut"} {
					known[n] = engine.NewTok("saved "+n, uintT)
					keys = append(keys, w.Const("enums", n))
					vals = append(vals, c.object(s, "saved metric "+n, w.Named("core", "NavigationMetric"), map[string]engine.Val{".T": w.Const("enums", n), ".Counter": known[n]}))
				}
				saved := Saved{Active: map[string]engine.Val{
					".Tree": engine.NewTok("tree", strT), ".CurrentPath": g.place("d1"), ".Subscription": w.Const("enums", md.sub), ".IsDir": engine.True, ".Depth": engine.Int(1),
					".Metrics": s.NewMap("saved metrics", keys, vals)}}
				return c.Reading(saved, next)(s, e)
			}
		}
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			n := s.Vals["node"]
			switch {
			case kind == "call" && what == "onDescend":
				if a := c.nodeArg(s, e); a != nil {
					s.Vals["node"] = a
				}
			case what == "filter.IsMatch" && kind == "ret" && e.Results[0].Key() == engine.False.Key(), kind == "call" && what == "client" && !md.run, kind == "send" && md.run:
				if kind == "send" {
					n = nil
					if p, ok := e.Args[1].(*engine.Ptr); ok {
						n = c.NodeOf(s, s.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + ".Servant"}, w.Type("core", "Servant")))
					}
					if n == nil {
						c.Ob(name+"/kind", "the node that a job is for is known", false, c.locate(e), "%s", path(s))
					}
				} else if what != "filter.IsMatch" {
					if a := c.nodeArg(s, e); a != nil {
						n = a
					}
				}
				if n == nil {
					return
				}
				dir, known := c.IsDir(m, s, n)
				if !known {
					c.Ob(name+"/kind", "it is known whether a node is a directory", false, c.locate(e), "%s", path(s))
					return
				}
				k := map[bool]string{true: "MetricNoDirectories", false: "MetricNoFiles"}[dir] + map[bool]string{true: "FilteredOut", false: "Invoked"}[what == "filter.IsMatch"]
				s.Mon[k] += "I"
			}
		})
		st := c.Init(m, NavInit...)
		var extra []Setting
		if md.filter {
			extra = append(extra, c.filterSetting(map[string]engine.Val{".Custom": engine.NewNonNil("filter", w.Type("core", "TraverseFilter"))}))
		}
		sess := c.Plain(md.sub, st, extra...)
		if md.resume != "" {
			sess = c.Resumed(md.resume, st, extra...)
		}
		sess.Parallel = md.run
		t := c.NewTravel(name, m, st, sess)
		tallied := 0
		for _, o := range t.Run(nil) {
			if o.Panicked {
				c.Ob(name+"/completes", "the navigation completes", false, "-", "%s: %s", o.PanicVal.Key(), path(o.State))
				continue
			}
			c.counts(m, name, o, func(metric string) engine.Val {
				if md.resume == "ResumeStrategyFastward" {
					return nil // the nodes on the way to the resume point are counted or not
				}
				if md.run && !engine.IsNil(o.Results[1]) {
					return nil // cancelled: the node whose job could not be sent is counted
				}
				switch metric {
				case "MetricNoFilesInvoked", "MetricNoDirectoriesInvoked", "MetricNoFilesFilteredOut", "MetricNoDirectoriesFilteredOut":
					tallied++
					return engine.Add(before(metric), engine.IntT(int64(len(o.State.Mon[metric])), uintT), uintT)
				}
				return nil
			})
		}
		c.Ob(name+"/tallied", "navigations end with a result", tallied > 0 || md.resume == "ResumeStrategyFastward", "-", "none")
		if !c.Done(m, name) {
			return
		}
	}
	// sessions that can't be built
	c.unbuildable(func(m *engine.Machine, name string, st *engine.State, sess Session) {
		n := 0
		for _, b := range c.Build(m, st, sess) {
			if b.Panicked {
				c.Ob(name+"/built", "building the session does not panic", false, "-", "%s", b.PanicVal.Key())
				continue
			}
			for _, o := range c.Invoke(m, b.State, b.Results[0], "Navigate", ctx) {
				if o.Panicked {
					c.Ob(name+"/completes", "the navigation completes", false, "-", "%s", o.PanicVal.Key())
					continue
				}
				n++
				c.counts(m, name, o, func(string) engine.Val { return engine.IntT(0, uintT) })
			}
		}
		c.Ob(name+"/outcomes", "Navigate returns", n > 0, "-", "it does not")
	})
}

// unbuildable sets up sessions that can't be built, in each way there is.
func (c *C) unbuildable(judge func(m *engine.Machine, name string, st *engine.State, sess Session)) {
	w := c.W
	optT := w.Type("pref", "Option")
	for _, par := range []bool{false, true} {
		for _, k := range []string{"option", "tree", "wrong facade", "restore path", "read", "wrong prime"} {
			name := fmt.Sprintf("%s/without %s", map[bool]string{false: "walk", true: "run"}[par], k)
			m := c.Machine()
			m.Model = c.Reading(Saved{Fails: true}, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				if What(e) == "option" {
					bad := engine.NewNonNil("refusal", errT)
					return []engine.Alt{{Results: []engine.Val{bad}, Assume: c.fails(bad)}}, true
				}
				if What(e) == "forest" {
					return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
				}
				if active(e) != "" {
					return []engine.Alt{}, true
				}
				return LibModel(s, e)
			})
			st := c.Init(m, NavInit...)
			from := engine.NewTok("from", strT)
			st.Assume(engine.Eq(from, engine.Str("")), false)
			using := map[string]engine.Val{"Subscription": w.Const("enums", "SubscribeUniversal"), "Tree": c.Tree(st), "Handler": c.Client()}
			relic := map[string]engine.Val{"From": from, "Strategy": w.Const("enums", "ResumeStrategySpawn"), "Handler": c.Client()}
			sess := Session{Parallel: par, Facade: using}
			switch k {
			case "option":
				sess.Settings = func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
					return st, []engine.Val{engine.NewNonNil("option", optT)}
				}
			case "tree":
				delete(using, "Tree")
			case "wrong facade":
				sess.Facade, sess.WrongFacade = relic, true
			case "wrong prime":
				sess.Resume, sess.WrongFacade = true, true
			case "restore path":
				delete(relic, "From")
				sess.Facade, sess.Resume = relic, true
			case "read":
				sess.Facade, sess.Resume = relic, true
			}
			judge(m, name, st, sess)
			if !c.Done(m, name) {
				return
			}
		}
	}
}
