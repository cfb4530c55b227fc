package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P05", Min: 20,
		Rule: "dominance along every abstract path of a visit: the client is only reached through a positive answer of the active filter for the same node, and the metrics of what was filtered out follow the answers",
		Run:  runP05})
	register(&Check{ID: "P07", Min: 20,
		Rule: "error-flow typestate over every abstract path: an error of the client or of a child's visit that is not a request to skip ends the visit, and reaches the caller of Navigate unchanged",
		Run:  runP07})
	register(&Check{ID: "P08", Min: 20,
		Rule: "typestate over every abstract path: what follows a request to skip, made by the client or by the skip handler",
		Run:  runP08})
	register(&Check{ID: "P09", Min: 20,
		Rule: "exceptional control flow over every abstract path: a panic raised below the tree is rescued exactly once, by the innermost enclosing visit, and never leaves Navigate",
		Run:  runP09})
	register(&Check{ID: "P10", Min: 20,
		Rule: "typestate over every abstract path of Navigate: one begin, then the traversal, then one end",
		Run:  runP10})
}

// struct makes an object of a type with some of its fields set.
func (c *C) object(st *engine.State, id string, t types.Type, fields map[string]engine.Val) *engine.Ptr {
	p := st.New(id, t)
	var set func(t types.Type, path string)
	set = func(t types.Type, path string) {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fp := path + "." + f.Name()
			if v, ok := fields[fp]; ok {
				st.StoreTo(&engine.Ptr{Obj: p.Obj, Path: fp}, v, f.Type())
				continue
			}
			set(f.Type(), fp)
		}
	}
	set(t, "")
	st.Vals["made "+id] = p
	return p
}

func runP05(c *C) {
	admits := map[string][2]bool{
		"SubscribeUniversal": {true, true}, "SubscribeFiles": {false, true},
		"SubscribeDirectories": {true, false}, "SubscribeDirectoriesWithFiles": {true, false},
	}
	uintT := types.Typ[types.Uint]
	type mode struct {
		sub, kind string
		child     bool
	}
	var modes []mode
	for _, sub := range Subscriptions {
		modes = append(modes, mode{sub, "", false}, mode{sub, "FilterTypeGlob", false})
	}
	modes = append(modes, mode{Subscriptions[3], "", true}, mode{Subscriptions[3], "FilterTypeRegex", true})
	pat := engine.NewTok("pattern of node", types.Typ[types.String])
	for _, md := range modes {
		sub, name := md.sub, md.sub
		if md.kind != "" {
			name += " " + md.kind
		}
		if md.child {
			name += " with child filter"
		}
		m := c.Machine()
		m.MayPanic = mayPanic
		m.Model = Entries
		if md.kind != "" || md.child {
			m.Model = c.Matching(Entries)
		}
		// settle looks up the answer of a filter that is one of the library's own
		settle := func(s *engine.State, n engine.Val) {
			if md.kind == "" || n == nil {
				return
			}
			v := Matches(pat, s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Name"}, types.Typ[types.String]))
			if _, known := s.Known(v); known {
				s.Mon["asked"] = "yes"
				s.Vals["match"] = v
			}
		}
		st := c.Init(m, NavInit...)
		where := "tree"
		c.Watch(m, func(s *engine.State, w, kind string, e *engine.Event) {
			k := name + "/" + where + "/"
			switch {
			case w == "onDescend" && kind == "call":
				s.Mon["descended"] = "yes"
				for _, a := range e.Args {
					if n := c.NodeOf(s, a); n != nil {
						s.Vals["node"] = n
					}
				}
			case w == "filter.IsMatch" && kind == "ret":
				s.Mon["asked"] = "yes"
				s.Vals["match"] = e.Results[0]
				if len(e.Args) > 0 && s.Vals["node"] != nil {
					c.Ob(k+"asked-about", "the filter is asked about the node visited", e.Args[len(e.Args)-1].Key() == s.Vals["node"].Key(), c.locate(e), "%s", path(s))
				}
			case w == "client" && kind == "call":
				s.Mon["called"] = "yes"
				settle(s, c.NodeOf(s, e.Args[0]))
				c.Ob(k+"gated", "the client is only invoked for a node that the filter matched", s.Mon["asked"] == "yes" && knownTrue(s, s.Vals["match"]), c.locate(e), "%s", path(s))
			case kind == "panic" && w != "visit":
				s.Mon["panic"] = "yes"
			case w == "filter.Validate" && kind == "ret":
				s.Vals["invalid"] = e.Results[0]
			}
		})
		s := c.Plain(sub, st, Setting{Name: "WithFilter", Make: func(st *engine.State) []engine.Val {
			ft := c.W.Named("pref", "FilterOptions")
			tf := c.W.Type("core", "TraverseFilter")
			f := map[string]engine.Val{".Custom": engine.NewNonNil("filter", tf)}
			if md.kind != "" {
				f = map[string]engine.Val{".Node": c.filterDef(st, "node", "FilterDef", md.kind, map[string]engine.Val{
					".IfNotApplicable": c.W.Const("enums", "TriStateBoolFalse")})}
			}
			if md.child {
				f[".Child"] = c.filterDef(st, "child", "ChildFilterDef", "FilterTypeGlob", nil)
			}
			return []engine.Val{c.object(st, "filter options", ft, f)}
		}})
		on := m.On
		t := c.NewTravel(name, m, st, s)
		m.On = on
		judged := 0
		judge := func(o engine.Outcome, before func(p *engine.Ptr) engine.Val) {
			s := o.State
			if s.Mon["descended"] != "yes" || s.Mon["panic"] == "yes" {
				return
			}
			n := s.Vals["node"]
			settle(s, n)
			if md.kind != "" && s.Mon["asked"] != "yes" {
				return // the filter does not apply, or the node is not subscribed to
			}
			judged++
			dir, known := c.IsDir(m, s, n)
			k := name + "/" + where + "/"
			called, asked := s.Mon["called"] == "yes", s.Mon["asked"] == "yes"
			kindOK := admits[sub][0] && admits[sub][1] || known && (dir && admits[sub][0] || !dir && admits[sub][1])
			if where == "tree" && !admits[sub][1] {
				kindOK = kindOK || called
			}
			if asked && knownTrue(s, s.Vals["match"]) && kindOK {
				c.Ob(k+"passed", "the client is invoked for a node that the filter matched", called, "-", "%s", path(s))
			}
			out := asked && knownFalse(s, s.Vals["match"])
			for _, mt := range []string{"MetricNoFilesFilteredOut", "MetricNoDirectoriesFilteredOut"} {
				p := c.metricObj(s, mt)
				if p == nil {
					c.Ob(k+mt, "the metric exists", false, "-", "no counter for %s", mt)
					continue
				}
				b := before(p)
				now := s.Load(p, uintT)
				if out && !known {
					continue
				}
				want := b
				if out && dir == (mt == "MetricNoDirectoriesFilteredOut") {
					want = engine.Add(b, engine.IntT(1, uintT), uintT)
				}
				c.Ob(k+mt, "the metric counts the nodes of its kind that the filter rejected", now.Key() == want.Key(), "-", "from %s to %s, directory=%v %s", key(b), key(now), dir, path(s))
			}
		}
		c.Ob(name+"/sessions", "sessions are built", len(t.Built) > 0, "-", "none")
		for _, o := range t.Run(nil) {
			judge(o, func(*engine.Ptr) engine.Val { return engine.IntT(0, uintT) })
		}
		where = "node"
		t.markMetrics(c)
		outs := t.Visit(func(s *engine.State) {
			if !admits[sub][1] {
				s.Assume(s.Load(&engine.Ptr{Obj: "*" + t.Node().Key(), Path: c.dirField()}, types.Typ[types.Bool]), true)
			}
		})
		c.Ob(name+"/visits", "visits of child nodes are analysed", len(outs) > 0, "-", "no visit")
		for _, o := range outs {
			judge(o, func(p *engine.Ptr) engine.Val { return t.anyField(p) })
		}
		c.Ob(name+"/judged", "the filter is asked", judged > 1, "-", "it is not")
		c.Done(m, name)
	}
}

// errResult is the error among the results of an event or outcome.
func errResult(rs []engine.Val) engine.Val {
	if len(rs) == 0 {
		return nil
	}
	return rs[len(rs)-1]
}

func runP07(c *C) {
	skipDir, skipAll := c.Sentinel("io/fs", "SkipDir"), c.Sentinel("io/fs", "SkipAll")
	sampled := Setting{Name: "WithSamplingOptions", Make: func(st *engine.State) []engine.Val {
		return []engine.Val{c.object(st, "sampling options", c.W.Named("pref", "SamplingOptions"), map[string]engine.Val{
			".Type":       c.W.Const("enums", "SampleTypeSlice"),
			".NoOf.Files": engine.IntT(1, types.Typ[types.Uint]), ".NoOf.Directories": engine.IntT(1, types.Typ[types.Uint])})}
	}}
	type session struct {
		name, sub string
		extra     []Setting
	}
	var sessions []session
	for _, sub := range Subscriptions {
		sessions = append(sessions, session{sub, sub, nil})
	}
	sessions = append(sessions, session{"sampled", "SubscribeUniversal", []Setting{sampled}})
	for _, of := range sessions {
		sub := of.name
		m := c.Machine()
		st := c.Init(m, NavInit...)
		where := "tree"
		// settled: the error returned last does not stop the traversal
		settled := func(s *engine.State, of string) (bool, string) {
			v := s.Vals[of]
			if v == nil || engine.IsNil(v) || s.IsNilKnown(v) {
				return true, ""
			}
			if of == "visit error" && knownTrue(s, Is(v, skipDir)) {
				return true, ""
			}
			return false, v.Key()
		}
		c.Watch(m, func(s *engine.State, w, kind string, e *engine.Event) {
			k := sub + "/" + where + "/"
			if kind == "ret" {
				switch w {
				case "client":
					s.Vals["client error"] = errResult(e.Results)
				case "visit":
					s.Vals["visit error"] = errResult(e.Results)
				case "readDirectory":
					s.Vals["read error"] = errResult(e.Results)
				case "queryStatus":
					s.Vals["status error"] = errResult(e.Results)
				case "fault.Accept":
					s.Vals["fault error"] = errResult(e.Results)
				}
				return
			}
			if kind != "call" {
				return
			}
			switch w {
			case "visit", "readDirectory", "client":
				for _, of := range []string{"client error", "visit error"} {
					ok, v := settled(s, of)
					if of == "client error" && w == "readDirectory" && s.Vals[of] == nil {
						continue
					}
					c.Ob(k+"stop-after-"+of, "after an error that is not a request to skip nothing more is read or visited", ok, c.locate(e), "%s is %s when %s begins: %s", of, v, w, path(s))
				}
				c.Ob(k+"no-status-error", "nothing is visited when the tree's status could not be queried", s.Vals["status error"] == nil || s.IsNilKnown(s.Vals["status error"]), c.locate(e), "%s", path(s))
			case "skip.Ask":
				ok, v := settled(s, "client error")
				c.Ob(k+"skip-after-client", "after an error of the client nothing more is decided", ok, c.locate(e), "client error is %s: %s", v, path(s))
				if re := s.Vals["read error"]; re != nil && len(e.Args) > 0 {
					c.Ob(k+"read-error-reported", "an error of reading a directory is reported to the skip handler", errResult(e.Args).Key() == re.Key(), c.locate(e), "%s, not %s: %s", errResult(e.Args).Key(), re.Key(), path(s))
				}
			case "fault.Accept":
				s.Mon["fault"] = "yes"
				se := s.Vals["status error"]
				c.Ob(k+"fault-only", "the fault handler is only asked when the status could not be queried", se != nil && s.NonNilKnown(se), c.locate(e), "%s", path(s))
				if len(e.Args) > 0 {
					got := s.Load(&engine.Ptr{Obj: objOf(errResult(e.Args)), Path: ".Err"}, errT)
					c.Ob(k+"fault-error", "the fault handler is given the error", se != nil && got.Key() == se.Key(), c.locate(e), "%s", key(got))
				}
			}
		})
		judge := func(o engine.Outcome) {
			s := o.State
			k := sub + "/" + where + "/"
			res := errResult(o.Results)
			for _, of := range []string{"client error", "visit error", "fault error"} {
				if ok, v := settled(s, of); !ok {
					ev := s.Vals[of]
					if where == "tree" && (knownTrue(s, Is(ev, skipDir)) || knownTrue(s, Is(ev, skipAll))) {
						c.Ob(k+"benign-"+of, "a request to skip is no failure of the navigation", res != nil && (engine.IsNil(res) || s.IsNilKnown(res)), "-", "%s: %s", key(res), path(s))
						continue
					}
					c.Ob(k+"returned-"+of, "an error that is not a request to skip is returned to the caller", res != nil && res.Key() == ev.Key(), "-", "%s is %s but %s is returned: %s", of, v, key(res), path(s))
				}
			}
			if se := s.Vals["status error"]; where == "tree" && se != nil && s.NonNilKnown(se) {
				c.Ob(k+"fault-asked", "the fault handler is asked when the status of the tree could not be queried", s.Mon["fault"] == "yes", "-", "%s", path(s))
			}
		}
		t := c.NewTravel(sub, m, st, c.Plain(of.sub, st, of.extra...))
		for _, o := range t.Run(nil) {
			judge(o)
		}
		where = "node"
		outs := t.Visit(nil)
		c.Ob(sub+"/visits", "visits of child nodes are analysed", len(outs) > 0, "-", "no visit")
		for _, o := range outs {
			judge(o)
		}
		c.Done(m, sub)
	}
}

var errT = types.Universe.Lookup("error").Type()

// objOf is the object a pointer value refers to.
func objOf(v engine.Val) string {
	switch x := v.(type) {
	case *engine.Ptr:
		return x.Obj
	case *engine.Iface:
		return objOf(x.V)
	case nil:
		return ""
	}
	return "*" + v.Key()
}

func runP08(c *C) {
	skipDir, skipAll := c.Sentinel("io/fs", "SkipDir"), c.Sentinel("io/fs", "SkipAll")
	none, dirSkip, allSkip := c.W.Const("enums", "SkipNoneTraversal"), c.W.Const("enums", "SkipDirTraversal"), c.W.Const("enums", "SkipAllTraversal")
	for _, sub := range Subscriptions {
		m := c.Machine()
		m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			r := func(err engine.Val, label string, skip ...engine.Val) engine.Alt {
				return engine.Alt{Results: append(skip, err), Label: label}
			}
			other := engine.NewNonNil("failure", errT)
			plainErr := []engine.Cond{{V: Is(other, skipDir), Val: false}, {V: Is(other, skipAll), Val: false}}
			switch What(e) {
			case "client":
				return []engine.Alt{r(engine.Nil, "client:ok"), r(skipDir, "client:SkipDir"), r(skipAll, "client:SkipAll")}, true
			case "visit":
				var alts []engine.Alt
				for _, p := range []engine.Val{engine.True, engine.False} {
					f := r(other, "visit:failure", p)
					f.Assume = plainErr
					alts = append(alts, r(engine.Nil, "visit:ok", p), r(skipDir, "visit:SkipDir", p), r(skipAll, "visit:SkipAll", p), f)
				}
				return alts, true
			case "skip.Ask":
				return []engine.Alt{r(engine.Nil, "skip:none", none), r(engine.Nil, "skip:dir", dirSkip), r(engine.Nil, "skip:all", allSkip)}, true
			}
			return LibModel(s, e)
		}
		st := c.Init(m, NavInit...)
		where := "tree"
		type asked struct {
			s        *engine.State
			key      string
			contents engine.Val
		}
		var asks []asked
		// answers are the results of the visit of a child after which its
		// siblings are still visited.
		answers := map[string]bool{}
		answer := func(s *engine.State, results []engine.Val) (string, bool) {
			var parts []string
			for _, r := range results {
				if b, known := s.Known(r); known {
					parts = append(parts, fmt.Sprint(b))
				} else if s.IsNilKnown(r) {
					parts = append(parts, "nil")
				} else {
					parts = append(parts, r.Key())
				}
			}
			err := errResult(results)
			return strings.Join(parts, ", "), err == nil || engine.IsNil(err) || s.IsNilKnown(err) || err.Key() == skipDir.Key()
		}
		c.Watch(m, func(s *engine.State, w, kind string, e *engine.Event) {
			k := sub + "/" + where + "/"
			if kind == "call" && w == "skip.Ask" && len(e.Args) == 3 {
				asks = append(asks, asked{s.Clone(), k, e.Args[1]})
			}
			if kind == "ret" {
				switch w {
				case "client", "visit":
					l := "ok"
					switch errResult(e.Results).Key() {
					case skipDir.Key():
						l = "SkipDir"
					case skipAll.Key():
						l = "SkipAll"
					case engine.NewNonNil("failure", errT).Key():
						l = "failure"
					}
					s.Mon[w] = l
					if w == "visit" {
						s.Mon["answer"], _ = answer(s, e.Results)
					}
				case "skip.Ask":
					s.Mon["ask"] = e.Results[0].Key()
				}
				return
			}
			if kind != "call" {
				return
			}
			switch w {
			case "visit":
				c.Ob(k+"client-skip", "a directory for which the client asked to skip is not descended into", s.Mon["client"] == "" || s.Mon["client"] == "ok", c.locate(e), "%s", path(s))
				c.Ob(k+"handler-skip", "a directory which the skip handler decided to skip is not descended into", s.Mon["ask"] == none.Key(), c.locate(e), "%s", path(s))
				c.Ob(k+"skip-all", "once everything that remains is to be skipped nothing more is visited", s.Mon["visit"] != "SkipAll" && s.Mon["visit"] != "failure", c.locate(e), "%s", path(s))
				if s.Mon["visit"] == "SkipDir" {
					s.Mon["resumed"] = "yes"
				}
				if s.Mon["answer"] != "" {
					answers[s.Mon["answer"]] = true
				}
			case "client":
				s.Vals["told"] = c.NodeOf(s, e.Args[0])
			}
		})
		t := c.NewTravel(sub, m, st, c.Plain(sub, st))
		judge := func(o engine.Outcome) {
			s := o.State
			k := sub + "/" + where + "/"
			res := errResult(o.Results)
			isNil := res != nil && (engine.IsNil(res) || s.IsNilKnown(res))
			all := s.Mon["client"] == "SkipAll" || s.Mon["visit"] == "SkipAll" || s.Mon["ask"] == allSkip.Key()
			if where == "tree" {
				if s.Mon["visit"] != "failure" && s.Mon["stat"] != "failed" && (s.Mon["client"] != "" || s.Mon["visit"] != "" || s.Mon["ask"] != "") && s.Vals["readfail"] == nil {
					c.Ob(k+"no-failure", "a navigation cut short by a request to skip reports no failure", isNil || !(all || s.Mon["client"] == "SkipDir" || s.Mon["visit"] == "SkipDir" || s.Mon["ask"] == dirSkip.Key()), "-", "%s is returned: %s", key(res), path(s))
				}
				return
			}
			if all {
				c.Ob(k+"skip-all-reported", "a request to skip all that remains is passed on to the enclosing visits", res != nil && res.Key() == skipAll.Key(), "-", "%s is returned: %s", key(res), path(s))
			} else {
				c.Ob(k+"skip-all-only", "nothing but a request to skip all that remains ends the enclosing visits", res == nil || res.Key() != skipAll.Key(), "-", "%s is returned: %s", key(res), path(s))
			}
			if s.Mon["ask"] == dirSkip.Key() {
				c.Ob(k+"skip-dir-only", "the skip handler's request to skip a directory does not fail the enclosing visits", isNil || res.Key() == skipDir.Key(), "-", "%s is returned: %s", key(res), path(s))
			}
		}
		outs := t.Run(nil)
		for _, o := range outs {
			judge(o)
		}
		where = "node"
		outs = t.Visit(nil)
		c.Ob(sub+"/visits", "visits of child nodes are analysed", len(outs) > 0, "-", "no visit")
		resumed := false
		for _, o := range outs {
			judge(o)
			resumed = resumed || o.State.Mon["resumed"] == "yes"
		}
		for _, o := range outs {
			s := o.State
			a, goesOn := answer(s, o.Results)
			if o.Panicked || !goesOn {
				continue
			}
			if n := s.Vals["told"]; n != nil && s.Mon["client"] == "SkipDir" {
				// a file: what remains of its directory may be left out.
				if dir, known := c.IsDir(m, s, n); sub == "SubscribeFiles" || known && !dir {
					continue
				}
			}
			c.Ob(sub+"/node/outside", "a visit that does not end the navigation does not keep the siblings of the node from being visited", answers[a], "-", "%s is returned, after which no sibling is visited: %s", a, path(s))
		}
		c.Done(m, sub)
		m.On = nil
		for _, a := range asks {
			for _, method := range []string{"All", "Directories", "Files"} {
				if engine.IsNil(a.contents) {
					c.Ob(a.key+"contents", "the contents that the skip handler is given can be looked at", false, "-", "there are none: %s", path(a.s))
					continue
				}
				for _, o := range c.Invoke(m, a.s.Clone(), a.contents, method) {
					c.Ob(a.key+"contents", "the contents that the skip handler is given can be looked at", !o.Panicked, "-", "%s panics: %s", method, path(o.State))
				}
			}
		}
		c.Ob(sub+"/asked", "the skip handler is asked", len(asks) > 0, "-", "it is not")
		c.Ob(sub+"/node/siblings", "after a child asked to skip the directory's other children can still be visited", resumed, "-", "no path visits another child after a child returned SkipDir")
		c.Done(m, sub)
	}
}

func runP09(c *C) {
	for _, sub := range Subscriptions {
		m := c.Machine()
		m.MayPanic = mayPanic
		st := c.Init(m, NavInit...)
		where := "tree"
		c.Watch(m, func(s *engine.State, w, kind string, e *engine.Event) {
			k := sub + "/" + where + "/"
			if kind == "panic" {
				s.Mon["panicked"] = w
				return
			}
			if kind == "ret" && w == "panic.Rescue" {
				s.Vals["saved"] = errResult(e.Results)
			}
			if kind != "call" {
				return
			}
			switch w {
			case "panic.Rescue":
				c.Ob(k+"rescue-panic", "the panic handler is only asked after a panic", s.Mon["panicked"] != "", c.locate(e), "%s", path(s))
				c.Ob(k+"rescue-once", "the panic handler is asked once for a panic", s.Mon["rescued"] == "", c.locate(e), "%s", path(s))
				s.Mon["rescued"] = "yes"
			case "visit", "client", "readDirectory", "skip.Ask":
				c.Ob(k+"stop", "nothing more is visited after a panic", s.Mon["panicked"] == "", c.locate(e), "%s", path(s))
			}
		})
		t := c.NewTravel(sub, m, st, c.Plain(sub, st))
		judge := func(o engine.Outcome) {
			s := o.State
			k := sub + "/" + where + "/"
			if s.Mon["panicked"] == "" {
				c.Ob(k+"no-other-panic", "nothing panics but the code of the client", !o.Panicked, "-", "%s %s", key(o.PanicVal), path(s))
				return
			}
			if o.Panicked {
				c.Ob(k+"unrescued", "a panic that is rescued ends there", s.Mon["rescued"] == "", "-", "%s", path(s))
				c.Ob(k+"contained", "a panic of the client's code does not leave Navigate", where != "tree", "-", "%s panics: %s", s.Mon["panicked"], path(s))
				return
			}
			res := errResult(o.Results)
			c.Ob(k+"rescued", "a panic of the client's code is given to the panic handler", s.Mon["rescued"] == "yes", "-", "%s panics: %s", s.Mon["panicked"], path(s))
			c.Ob(k+"reported", "a panic of the client's code becomes an error", res != nil && s.NonNilKnown(res), "-", "%s is returned: %s", key(res), path(s))
		}
		for _, o := range t.Run(nil) {
			judge(o)
		}
		where = "node"
		outs := t.Visit(nil)
		c.Ob(sub+"/visits", "visits of child nodes are analysed", len(outs) > 0, "-", "no visit")
		for _, o := range outs {
			judge(o)
		}
		c.Done(m, sub)
	}
}

func runP10(c *C) {
	failure, cancelled := engine.NewNonNil("pool error", errT), engine.NewNonNil("ctx error", errT)
	for _, md := range []struct {
		sub      string
		parallel bool
	}{
		{"SubscribeUniversal", false}, {"SubscribeFiles", false}, {"SubscribeDirectories", false}, {"SubscribeDirectoriesWithFiles", false},
		{"SubscribeUniversal", true}, {"SubscribeFiles", true}, {"SubscribeDirectories", true}, {"SubscribeDirectoriesWithFiles", true},
	} {
		name := md.sub
		if md.parallel {
			name += "/concurrent"
		}
		k := name + "/"
		m := c.Machine()
		m.MayPanic = mayPanic
		if md.parallel {
			m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				if alts, ok := poolModel(s, e, failure, cancelled); ok {
					return alts, ok
				}
				return LibModel(s, e)
			}
		}
		st := c.Init(m, NavInit...)
		for _, x := range []string{"SkipDir", "SkipAll"} {
			for _, err := range []engine.Val{failure, cancelled, engine.NewNonNil("error that wraps "+bareKey(failure), errT)} {
				st.Assume(Is(err, c.Sentinel("io/fs", x)), false)
			}
		}
		c.Watch(m, func(s *engine.State, w, kind string, e *engine.Event) {
			switch kind {
			case "send":
				c.Ob(k+"send-within", "jobs are sent between begin and end", s.Mon["phase"] == "begun", c.locate(e), "%s", path(s))
				return
			case "call":
			case "ret":
				if md.parallel && callName(e) == "NewManifoldFuncPool" && len(e.Results) == 2 {
					s.Mon["pool"] = e.Results[1].Key()
				}
				return
			default:
				return
			}
			switch w {
			case "onBegin":
				c.Ob(k+"begin-first", "the beginning is announced once, before anything else", s.Mon["phase"] == "", c.locate(e), "%s", path(s))
				s.Mon["phase"] = "begun"
				if len(e.Args) == 1 {
					got := s.Load(&engine.Ptr{Obj: objOf(e.Args[0]), Path: ".Tree"}, types.Typ[types.String])
					c.Ob(k+"begin-tree", "the tree is announced", got.Key() == c.Tree(s).Key(), c.locate(e), "%s", key(got))
				}
			case "onEnd":
				c.Ob(k+"end-last", "the end is announced once, after the traversal", s.Mon["phase"] == "begun", c.locate(e), "%s", path(s))
				s.Mon["phase"] = "ended"
				if len(e.Args) == 1 {
					s.Vals["announced"] = e.Args[0]
				}
			case "client", "visit", "onDescend", "onAscend", "readDirectory", "skip.Ask", "queryStatus", "fault.Accept", "panic.Rescue":
				c.Ob(k+w+"-within", w+" happens between begin and end", s.Mon["phase"] == "begun", c.locate(e), "%s", path(s))
			}
		})
		session := c.Plain(md.sub, st)
		session.Parallel = md.parallel
		t := c.NewTravel(name, m, st, session)
		outs := t.Run(nil)
		c.Ob(k+"outcomes", "navigations are analysed", len(outs) > 0, "-", "no outcome")
		without := 0
		for _, o := range outs {
			if o.State.Mon["pool"] == failure.Key() {
				without++
				c.Ob(k+"no-pool", "a navigation without workers ends with the reason", !o.Panicked && strings.Contains(key(errResult(o.Results)), failure.Key()), "-", "%s is returned: %s", key(errResult(o.Results)), path(o.State))
			}
			c.Ob(k+"ended", "the end is announced, however the traversal ends", o.State.Mon["phase"] == "ended", "-", "phase %q panicked=%v: %s", o.State.Mon["phase"], o.Panicked, path(o.State))
			if !o.Panicked && len(o.Results) > 0 {
				r, a := o.Results[0], o.State.Vals["announced"]
				c.Ob(k+"result", "there is a result, and it is the one announced", a != nil && o.State.NonNilKnown(r) && bareKey(r) == bareKey(a), "-", "result %s, announced %s", key(r), key(a))
			}
		}
		if md.parallel {
			c.Ob(k+"judged", "a navigation without workers is analysed", without > 0, "-", "none of %d outcomes", len(outs))
		}
		c.Done(m, name)
	}
}

func bareKey(v engine.Val) string {
	if i, ok := v.(*engine.Iface); ok {
		return bareKey(i.V)
	}
	return v.Key()
}
