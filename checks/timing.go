package checks

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P43", Min: 100,
		Rule: "on every abstract path of a session, a reading of the clock is a value that names what had happened by then: that the session's start and its duration are made of the readings taken first and last, and no other later, is decided by what they are made of",
		Run:  runP43})
}

// clock models the readings of the clock: each tells when it was taken.
func (c *C) clock(next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		if e.Fn == nil || e.Fn.Pkg == nil || e.Fn.Pkg.Pkg.Path() != "time" {
			return next(s, e)
		}
		now := func() engine.Val {
			s.Mon["readings"] += "I"
			return engine.NewTok(fmt.Sprintf("clock %s %s #%d", s.Mon["phase"], s.Mon["latest"], len(s.Mon["readings"])), c.timeType())
		}
		between := func(from, to engine.Val) ([]engine.Alt, bool) {
			return []engine.Alt{{Results: []engine.Val{engine.MkApp("elapsed", e.Sig.Results().At(0).Type(), from, to)}}}, true
		}
		switch e.Fn.Name() {
		case "Now":
			return []engine.Alt{{Results: []engine.Val{now()}}}, true
		case "Since":
			return between(e.Args[0], now())
		case "Until":
			return between(now(), e.Args[0])
		case "Sub":
			return between(e.Args[1], e.Args[0])
		case "IsZero":
			k := reading(e.Args[0])
			if zero := k == "struct{0;0;nil}"; zero || strings.HasPrefix(k, "⟨clock ") {
				return []engine.Alt{{Results: []engine.Val{engine.Bool(zero)}}}, true
			}
		case "UTC", "Local": // the same instant
			return []engine.Alt{{Results: []engine.Val{e.Args[0]}}}, true
		}
		return next(s, e)
	}
}

var instants = regexp.MustCompile(`struct\{(⟨clock [^⟩]*⟩)\.wall;[^}]*\}`)

// reading renders an instant.
func reading(v engine.Val) string { return instants.ReplaceAllString(v.Key(), "$1") }

// happening: it is part of the navigation.
func happening(what string) bool {
	switch what {
	case "client", "readDirectory", "queryStatus", "filter.IsMatch":
		return true
	}
	return strings.HasPrefix(what, "on")
}

func (c *C) timeType() types.Type {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == "time" {
			return p.Pkg.Scope().Lookup("Time").Type()
		}
	}
	panic(Missing("package time"))
}

// timed judges the session that a result tells of. at is the state in which
// it is asked, and before, unless nil, what its duration was found to be earlier.
func (c *C) timed(m *engine.Machine, name string, at *engine.State, result engine.Val, before engine.Val) (took engine.Val) {
	on := m.On
	m.On = nil
	defer func() { m.On = on }()
	ask := func(st *engine.State, v engine.Val, method string) (engine.Val, *engine.State) {
		outs := c.Invoke(m, st.Clone(), v, method)
		for _, o := range outs {
			if o.Panicked {
				c.Ob(name+"/"+method, "the session can be asked", false, "-", "%s panics: %s", method, path(at))
				return nil, nil
			}
		}
		if len(outs) == 0 {
			return nil, nil
		}
		return outs[0].Results[0], outs[0].State
	}
	if !at.NonNilKnown(result) {
		c.Ob(name+"/result", "there is a result", false, "-", "%s", path(at))
		return nil
	}
	sess, st := ask(at, result, "Session")
	if st == nil {
		return nil
	}
	ok := !engine.IsNil(sess) && st.NonNilKnown(sess)
	c.Ob(name+"/session", "the result of a navigation tells of its session", ok, "-", "%s: %s", sess.Key(), path(at))
	if !ok {
		return nil
	}
	st.Vals["session"] = sess
	c.Ob(name+"/complete", "the session can be asked whether it is complete", true, "-", "")
	ask(st, sess, "IsComplete")
	began, _ := ask(st, sess, "StartedAt")
	if began == nil {
		return nil
	}
	c.Ob(name+"/began", "the session tells when it began: the time as the navigation was asked for", strings.HasPrefix(reading(began), "⟨clock navigate  #"), "-", "%s: %s", began.Key(), path(at))
	st.Mon["phase"] = "afterwards"
	took, st2 := ask(st, sess, "Elapsed")
	if st2 == nil {
		return nil
	}
	again, _ := ask(st2, sess, "Elapsed")
	c.Ob(name+"/stopped", "how long the session took stays the same when asked again", again != nil && reading(again) == reading(took), "-", "%s: %s", reading(took), path(at))
	a, isApp := took.(*engine.App)
	ok = isApp && a.Op == "elapsed" && len(a.Args) == 2 && reading(a.Args[0]) == reading(began)
	c.Ob(name+"/from", "how long the session took counts from when it began", ok, "-", "%s: %s", took.Key(), path(at))
	if ok {
		end := reading(a.Args[1])
		late := strings.HasPrefix(end, "⟨clock navigate "+st.Mon["latest"]+" #") || strings.HasPrefix(end, "⟨clock navigate "+strings.TrimSuffix(st.Mon["latest"], "onEnd")+" #")
		c.Ob(name+"/to", "how long the session took counts to when it ended", late, "-", "%s, the latest to happen being %s: %s", end, st.Mon["latest"], path(at))
	}
	if before != nil {
		c.Ob(name+"/end listener", "how long the session took is what the listener of its end was told", reading(before) == reading(took), "-", "%s, not %s: %s", reading(took), reading(before), path(at))
	}
	return took
}

func runP43(c *C) {
	w := c.W
	ctx := engine.NewNonNil("ctx", c.ctxType())
	g := grove{"": {"f1", "d1"}, "d1": {"f2"}}
	type mode struct {
		sub, resume string
		run         bool
		stops       bool
	}
	var modes []mode
	for _, sub := range Subscriptions {
		modes = append(modes, mode{sub: sub, stops: sub != "SubscribeUniversal"})
	}
	modes = append(modes, mode{sub: "SubscribeUniversal", run: true}, mode{sub: "SubscribeFiles", stops: true, run: true}, mode{sub: "SubscribeUniversal", resume: "ResumeStrategySpawn"}, mode{sub: "SubscribeFiles", resume: "ResumeStrategySpawn", stops: true},
		mode{sub: "SubscribeUniversal", resume: "ResumeStrategyFastward", stops: true})
	for _, md := range modes {
		name := fmt.Sprintf("%s/stops=%v/%s", md.sub, md.stops, map[bool]string{false: "walk", true: "run"}[md.run])
		if md.resume != "" {
			name += "/" + md.resume
		}
		m := c.Machine()
		m.Recur, m.Unroll = 4, 16
		list := c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
			switch What(e) {
			case "client":
				if md.stops {
					bad := engine.NewNonNil("failure", errT)
					return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{bad}, Assume: c.fails(bad), Label: "the client fails"}, {Panics: true, Label: "the client panics"}}, true
				}
			case "panic.Rescue":
				return one(engine.Str("somewhere"), engine.Nil)
			}
			switch n := callName(e); {
			case n == "Err" && e.Method != nil:
				bad := engine.NewNonNil("cancelled", errT)
				return []engine.Alt{{Results: []engine.Val{bad}, Assume: c.fails(bad)}}, true
			case n == "NewManifoldFuncPool":
				return one(engine.NewNonNil("pool", e.Sig.Results().At(0).Type()), engine.Nil)
			case n == "Source":
				return one(engine.NewNonNil("input channel", e.Sig.Results().At(0).Type()))
			case n == "Wrap", n == "Wrapf", n == "Errorf":
				return one(engine.NewNonNil(n, errT))
			}
			return c.calmly(s, e)
		})
		m.Model = c.clock(g.paths(true, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" {
				id, ok := g.at(e.Args[len(e.Args)-1].Key())
				if !ok {
					return []engine.Alt{{Results: []engine.Val{engine.Nil, engine.NewNonNil("no such directory", errT)}}}, true
				}
				return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil}}}, true
			}
			return list(s, e)
		}))
		if md.resume != "" {
			next := m.Model
			m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				saved := Saved{Active: map[string]engine.Val{
					".Tree": engine.NewTok("tree", strT), ".CurrentPath": g.place("d1"), ".Subscription": w.Const("enums", md.sub), ".IsDir": engine.True, ".Depth": engine.Int(1),
					".Metrics": s.NewMap("saved metrics", nil, nil)}}
				return c.Reading(saved, next)(s, e)
			}
		}
		type ending struct {
			st     *engine.State
			result engine.Val
		}
		ends := map[string]ending{}
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			if kind == "send" {
				what = "a job is sent"
			} else if kind != "call" || !happening(what) {
				return
			}
			s.Mon["events"] += "I"
			if what == "onEnd" {
				s.Mon["latest"] += "onEnd"
				id := fmt.Sprint(len(ends))
				s.Mon["end"] = id
				ends[id] = ending{s.Detach(map[string]engine.Val{"result": e.Args[0]}), e.Args[0]}
				return
			}
			s.Mon["latest"] = fmt.Sprintf("%s%d", what, len(s.Mon["events"]))
		})
		st := c.Init(m, NavInit...)
		sess := c.Plain(md.sub, st)
		if md.resume != "" {
			sess = c.Resumed(md.resume, st)
		}
		sess.Parallel = md.run
		st.Mon["phase"] = "build"
		t := c.NewTravel(name, m, st, sess)
		n := 0
		for _, o := range t.Run(func(st *engine.State) { st.Mon["phase"], st.Mon["latest"] = "navigate", "" }) {
			if o.Panicked {
				continue // P21 judges it
			}
			n++
			var told engine.Val
			if end, ok := ends[o.State.Mon["end"]]; ok {
				told = c.timed(m, name+"/as it ends", end.st, end.result, nil)
			}
			c.timed(m, name, o.State, o.Results[0], told)
		}
		c.Ob(name+"/ends", "navigations end with a result", n > 0 && len(ends) > 0, "-", "none")
		if !c.Done(m, name) {
			return
		}
	}
	c.unbuildable(func(m *engine.Machine, name string, st *engine.State, sess Session) {
		m.Model = c.clock(m.Model)
		st.Mon["phase"] = "build"
		n := 0
		for _, b := range c.Build(m, st, sess) {
			if b.Panicked {
				continue // P41 judges it
			}
			b.State.Mon["phase"] = "navigate"
			for _, o := range c.Invoke(m, b.State, b.Results[0], "Navigate", ctx) {
				if o.Panicked {
					continue
				}
				n++
				c.timed(m, name, o.State, o.Results[0], nil)
			}
		}
		c.Ob(name+"/outcomes", "Navigate returns", n > 0, "-", "it does not")
	})
}
