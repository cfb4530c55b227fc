package checks

import (
	"fmt"
	"go/types"
	"regexp"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P02", Min: 60,
		Rule: "abstract interpretation of a visit at every depth d and limit n of a grid, and of the recursion step (a child is visited at the depth of its parent plus one), which together give the statement by induction",
		Run:  runP02})
	register(&Check{ID: "P03", Min: 20,
		Rule: "typestate over every abstract path of a visit: the number of client invocations for a node, decided by the kind of the node and the subscription, and the metric ticked with it",
		Run:  runP03})
}

func runP02(c *C) {
	w := c.W
	depth := func(n int64) Setting {
		f := w.Fn("pref", "WithDepth")
		return Setting{Name: "WithDepth", Args: []engine.Val{engine.IntT(n, f.Params[0].Type())}}
	}
	type limit struct {
		name     string
		n        int64
		settings []Setting
	}
	for _, sub := range Subscriptions {
		limits := []limit{{name: "0"}, {name: "zero", settings: []Setting{depth(0)}},
			{name: "no-recurse", n: 1, settings: []Setting{{Name: "WithNoRecurse"}}},
			{name: "no-recurse-3", n: 1, settings: []Setting{{Name: "WithNoRecurse"}, depth(3)}},
			{name: "3-no-recurse", n: 1, settings: []Setting{depth(3), {Name: "WithNoRecurse"}}},
		}
		for _, n := range []int64{1, 2, 3, 10, 127, 128, 255, 256, 300, 1000, 32768, 65536, 1 << 31, 1<<32 + 2} {
			limits = append(limits, limit{name: fmt.Sprint(n), n: n, settings: []Setting{depth(n)}})
		}
		for _, l := range limits {
			n := l.n
			m := c.Machine()
			st := c.Init(m, NavInit...)
			k := fmt.Sprintf("%s/limit=%s", sub, l.name)
			var fields []*engine.Ptr
			c.Watch(m, func(s *engine.State, w, kind string, e *engine.Event) {
				if kind != "call" {
					return
				}
				switch w {
				case "client", "readDirectory", "onDescend":
					s.Mon["reached"] = "yes"
				case "visit":
					for _, f := range fields {
						now := s.ObjFields(f.Obj)[f.Path]
						if s.Vals["start"] == nil {
							continue
						}
						want := engine.Add(s.Vals["start"], engine.Int(1), types.Typ[types.Int])
						c.Ob(sub+"/step", "a child is visited at the depth of its parent plus one", now != nil && now.Key() == want.Key(), c.locate(e), "depth is %s, not %s", key(now), key(want))
					}
				}
			})
			t := c.NewTravel(sub, m, st, c.Plain(sub, st, l.settings...))
			t.Run(nil)
			fields = t.depthFields()
			c.Ob(sub+"/depth-counter", "the navigation keeps one depth counter", len(fields) == 1, "-", "%d counters", len(fields))
			if len(fields) != 1 {
				c.Done(m, k)
				continue
			}
			f := fields[0]
			// the counter's value at the tree
			base := int64(0)
			if b := t.startField(f.Obj)[f.Path]; b != nil {
				base, _ = engine.IntOf(b)
			}
			// children of the tree start at base+1
			depths := []int64{0, 1, 2, 3, 4, 5, 256, 70000}
			if n > 3 {
				depths = []int64{1, n - 1, n, n + 1, 2 * n}
			}
			for _, d := range depths {
				reached, total := 0, 0
				start := engine.IntT(base+d, types.Typ[types.Int])
				outs := t.Visit(func(s *engine.State) {
					s.Field(f.Obj, f.Path, start)
					s.Vals["start"] = start
				})
				for _, o := range outs {
					total++
					if o.State.Mon["reached"] == "yes" {
						reached++
					}
				}
				within := n == 0 || d <= n
				if within {
					c.Ob(fmt.Sprintf("%s/depth=%d", k, d), "a node within the limit is visited", reached == total && total > 0, "-", "reached on %d of %d paths", reached, total)
				} else {
					c.Ob(fmt.Sprintf("%s/depth=%d", k, d), "a node beyond the limit is not visited: neither descended into, read, nor given to the client", reached == 0 && total > 0, "-", "reached on %d of %d paths", reached, total)
				}
			}
			c.Done(m, k)
		}
	}
}

var entryOf = regexp.MustCompile(`^\*⟨call nefilim\.Separate [^⟩]*⟩·([01])\[`)

// Entries states what separating the entries of a directory means: what is in
// the list of directories is a directory, what is in the list of files is not.
func Entries(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
	if e.Method != nil && e.Method.Name() == "IsDir" && e.Recv != nil {
		if g := entryOf.FindStringSubmatch(e.Recv.Key()); g != nil {
			return []engine.Alt{{Results: []engine.Val{engine.Bool(g[1] == "1")}}}, true
		}
	}
	return LibModel(s, e)
}

// metricObj finds the counter of a metric.
func (c *C) metricObj(s *engine.State, name string) *engine.Ptr {
	want, _ := engine.IntOf(c.W.Const("enums", name))
	t := c.W.Named("core", "NavigationMetric")
	for _, id := range s.HeapIDs() {
		if tt := s.TypeOf(id); tt != nil && types.Identical(tt, t) {
			v := s.Load(&engine.Ptr{Obj: id, Path: ".T"}, c.W.Type("enums", "Metric"))
			if n, ok := engine.IntOf(v); ok && n == want {
				return &engine.Ptr{Obj: id, Path: ".Counter"}
			}
		}
	}
	return nil
}

func runP03(c *C) {
	admits := map[string][2]bool{ // directories, files
		"SubscribeUniversal": {true, true}, "SubscribeFiles": {false, true},
		"SubscribeDirectories": {true, false}, "SubscribeDirectoriesWithFiles": {true, false},
	}
	uintT := types.Typ[types.Uint]
	for _, sub := range Subscriptions {
		m := c.Machine()
		m.MayPanic = mayPanic
		m.Model = Entries
		st := c.Init(m, NavInit...)
		dirsOnly := !admits[sub][1]
		where := "tree"
		c.Watch(m, func(s *engine.State, w, kind string, e *engine.Event) {
			if kind != "call" {
				return
			}
			switch w {
			case "client":
				switch s.Mon["n"] {
				case "":
					s.Mon["n"] = "1"
				default:
					s.Mon["n"] = "many"
				}
				c.Ob(sub+"/"+where+"/once", "the client is invoked at most once for a node", s.Mon["n"] != "many", c.locate(e), "%s", path(s))
				if n := c.NodeOf(s, e.Args[0]); n != nil {
					s.Vals["node"] = n
					dir, known := c.IsDir(m, s, n)
					if where == "tree" && dirsOnly {
						break // a tree that is a file
					}
					ok := admits[sub][0] && admits[sub][1] || known && (dir && admits[sub][0] || !dir && admits[sub][1])
					c.Ob(sub+"/"+where+"/kind", "the client is only invoked for the kinds of node subscribed to", ok, c.locate(e), "directory=%v known=%v %s", dir, known, path(s))
				}
			case "onDescend":
				s.Mon["descended"] = "yes"
				for _, a := range e.Args {
					if n := c.NodeOf(s, a); n != nil {
						s.Vals["node"] = n
					}
				}
			case "visit":
				if !dirsOnly {
					break
				}
				for _, a := range e.Args {
					if n := c.NodeOf(s, a); n != nil {
						dir, known := c.IsDir(m, s, n)
						c.Ob(sub+"/"+where+"/children", "only the children that are directories are visited", known && dir, c.locate(e), "directory=%v known=%v %s", dir, known, path(s))
					}
				}
			}
		})
		t := c.NewTravel(sub, m, st, c.Plain(sub, st))
		judge := func(o engine.Outcome, before func(p *engine.Ptr) engine.Val) {
			s := o.State
			if s.Mon["descended"] != "yes" {
				return
			}
			n := s.Vals["node"]
			if n == nil {
				c.Ob(sub+"/"+where+"/node", "the node visited is known", false, "-", "%s", path(s))
				return
			}
			dir, known := c.IsDir(m, s, n)
			called := s.Mon["n"] == "1"
			if !(where == "tree" && dirsOnly && !(known && dir)) && !o.Panicked && s.Mon["hookpanic"] == "" {
				want := admits[sub][0] && admits[sub][1]
				if known {
					want = dir && admits[sub][0] || !dir && admits[sub][1]
				}
				c.Ob(sub+"/"+where+"/invoked", "the client is invoked for every node visited that is of a kind subscribed to", called == want, "-", "invoked=%v directory=%v known=%v %s", called, dir, known, path(s))
			}
			for _, mt := range []string{"MetricNoFilesInvoked", "MetricNoDirectoriesInvoked"} {
				p := c.metricObj(s, mt)
				if p == nil {
					c.Ob(sub+"/"+where+"/"+mt, "the metric exists", false, "-", "no counter for %s", mt)
					continue
				}
				b := before(p)
				now := s.Load(p, uintT)
				want := b
				if called && known && dir == (mt == "MetricNoDirectoriesInvoked") {
					want = engine.Add(b, engine.IntT(1, uintT), uintT)
				}
				if called && !known {
					continue
				}
				c.Ob(sub+"/"+where+"/"+mt, "the metric counts the invocations for its kind of node: one more when the client was invoked for such a node, the same otherwise", now.Key() == want.Key(), "-", "from %s to %s, invoked=%v directory=%v %s", key(b), key(now), called, dir, path(s))
			}
		}
		onPanic := m.On
		m.On = func(s *engine.State, e *engine.Event) {
			if e.Kind == "panic" && What(e) != "client" && What(e) != "visit" {
				s.Mon["hookpanic"] = "yes"
			}
			onPanic(s, e)
		}
		for _, o := range t.Run(nil) {
			judge(o, func(*engine.Ptr) engine.Val { return engine.IntT(0, uintT) })
		}
		where = "node"
		t.markMetrics(c)
		outs := t.Visit(func(s *engine.State) {
			if dirsOnly {
				s.Assume(s.Load(&engine.Ptr{Obj: "*" + t.Node().Key(), Path: c.dirField()}, types.Typ[types.Bool]), true)
			}
		})
		c.Ob(sub+"/visits", "visits of child nodes are analysed", len(outs) > 0, "-", "no visit")
		for _, o := range outs {
			judge(o, func(p *engine.Ptr) engine.Val { return t.anyField(p) })
		}
		c.Done(m, sub)
	}
}

// markMetrics makes every metric arbitrary at the start of a visit.
func (t *Travel) markMetrics(c *C) {
	mt := c.W.Named("core", "NavigationMetric")
	for _, v := range t.Visits() {
		for _, id := range v.st.HeapIDs() {
			if tt := v.st.TypeOf(id); tt != nil && types.Identical(tt, mt) {
				v.st.Field(id, ".Counter", engine.NewTok("any "+id[len("⟨"):len(id)-len("⟩")]+".Counter", types.Typ[types.Uint]))
			}
		}
	}
}
