package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P30", Min: 120,
		Rule: "typestate of the worker pool and its input channel over every abstract path of a concurrent navigation; accounting of the jobs that are submitted and executed; value flow of node, handler and result through the job",
		Run:  runP30})
}

// tally reads and writes a number that is kept with a path.
func tally(s *engine.State, k string) int {
	n, _ := strconv.Atoi(s.Mon[k])
	return n
}

// callName is the name of the function called, whichever way it is called.
func callName(e *engine.Event) string {
	if e.Method != nil {
		return e.Method.Name()
	}
	n := What(e)
	if i := strings.IndexByte(n, '['); i > 0 && !strings.HasPrefix(n, "(") {
		n = n[:i]
	}
	return n[strings.LastIndexByte(n, '.')+1:]
}

// poolModel states what is relied on about the worker pool and the context.
func poolModel(s *engine.State, e *engine.Event, failure, cancelled engine.Val) ([]engine.Alt, bool) {
	one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
	n := callName(e)
	switch {
	case e.Method != nil && e.Recv != nil && bareKey(e.Recv) == "⟨ctx⟩":
		switch n {
		case "Done":
			return one(engine.NewNonNil("cancellation", e.Sig.Results().At(0).Type()))
		case "Err":
			return one(cancelled)
		}
	case n == "NewManifoldFuncPool":
		r := e.Sig.Results()
		return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("pool", r.At(0).Type()), engine.Nil}},
			{Results: []engine.Val{engine.NewNonNil("failed pool", r.At(0).Type()), failure}}}, true
	case n == "Source":
		return one(engine.NewNonNil("input channel", e.Sig.Results().At(0).Type()))
	case n == "Observe":
		return one(engine.NewNonNil("output channel", e.Sig.Results().At(0).Type()))
	case n == "WithSize", n == "WithInput", n == "WithOutput":
		return one(engine.NewNonNil(n, e.Sig.Results().At(0).Type()))
	case n == "IfOptionF":
		if v, ok := s.Decide(e.Args[0]); ok && v {
			s.Vals["conditional"] = e.Args[1]
			return one(engine.NewNonNil(n, e.Sig.Results().At(0).Type()))
		}
		return one(engine.Nil)
	case n == "Wrap", n == "Wrapf", n == "Errorf":
		return one(engine.NewNonNil("error that wraps "+bareKey(e.Args[0]), errT))
	}
	return nil, false
}

// counting says by how much a call changes which counter.
func counting(e *engine.Event) (counter string, by int, set bool) {
	var args []engine.Val
	switch {
	case e.Fn != nil && e.Fn.Pkg != nil && (e.Fn.Pkg.Pkg.Path() == "sync/atomic" || e.Fn.Pkg.Pkg.Path() == "sync") && e.Fn.Signature.Recv() != nil && len(e.Args) > 0:
		counter, args = e.Args[0].Key(), e.Args[1:]
	case e.Method != nil && e.Recv != nil && bareKey(e.Recv) == "⟨wg⟩":
		counter, args = "⟨wg⟩", e.Args
	default:
		return "", 0, false
	}
	switch n := callName(e); n {
	case "Add", "Store":
		if len(args) == 1 {
			if k, ok := engine.IntOf(args[0]); ok {
				return counter, int(k), n == "Store"
			}
		}
	case "Done":
		return counter, -1, false
	}
	return "", 0, false
}

func runP30(c *C) {
	w := c.W
	g := grove{"": {"f1", "d1"}, "d1": {"f2"}}
	og := g.ordered(false)
	type mode struct {
		sub          string
		output, fail bool
	}
	var modes []mode
	for _, sub := range Subscriptions {
		modes = append(modes, mode{sub: sub})
	}
	modes = append(modes, mode{sub: "SubscribeUniversal", output: true}, mode{sub: "SubscribeUniversal", fail: true}, mode{sub: "SubscribeFiles", output: true, fail: true})
	failure := engine.NewNonNil("error", errT)
	cancelled := engine.NewNonNil("ctx error", errT)
	for _, md := range modes {
		name := fmt.Sprintf("%s/output=%v/failures=%v", md.sub, md.output, md.fail)
		m := c.Machine()
		m.Recur = 4
		m.Unroll = 16
		now := engine.NewNonNil("number of workers", types.Typ[types.Uint])
		inputSize := engine.NewNonNil("input size", types.Typ[types.Uint])
		outT := w.Named("pref", "OutputOptions")
		want := map[string]string{}
		list := c.Listing(c.calmly)
		m.MayPanic = func(s *engine.State, e *engine.Event) bool {
			w := What(e)
			return md.fail && (w == "sort" || w == "queryStatus") || w == "handler"
		}
		m.Model = g.paths(true, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
			switch What(e) {
			case "readDirectory":
				id, _ := g.at(e.Args[len(e.Args)-1].Key())
				alts := []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil}}}
				if md.fail {
					alts = append(alts, engine.Alt{Results: []engine.Val{engine.Nil, failure}})
				}
				return alts, true
			case "queryStatus":
				return one(engine.NewNonNil("info", e.Sig.Results().At(0).Type()), engine.Nil)
			case "skip.Ask":
				if md.fail {
					return one(c.W.Const("enums", "SkipNoneTraversal"), e.Args[len(e.Args)-1])
				}
			case "handler":
				return one(engine.NewTok("error of the handler", errT))
			case "input option":
				o := e.Args[0].(*engine.Ptr)
				s.StoreTo(&engine.Ptr{Obj: o.Obj, Path: o.Path + ".Concurrency.Input.Size"}, inputSize, types.Typ[types.Uint])
				return one(engine.Nil)
			}
			if alts, ok := poolModel(s, e, failure, cancelled); ok {
				return alts, ok
			}
			if ct, _, _ := counting(e); ct != "" && ct != "⟨wg⟩" && e.Sig.Results().Len() == 1 {
				return one(engine.NewTok(fmt.Sprintf("count %d %s", tally(s, "counts"), ct), e.Sig.Results().At(0).Type()))
			}
			return list(s, e)
		})
		// what both the navigator and the workers do to the counters
		count := func(s *engine.State, kind, where string, e *engine.Event) {
			switch kind {
			case "call":
				if ct, by, set := counting(e); ct != "" {
					if set {
						s.Mon["net "+ct] = strconv.Itoa(by)
					} else {
						s.Mon["net "+ct] = strconv.Itoa(tally(s, "net "+ct) + by)
					}
					s.Mon["counts"] = strconv.Itoa(tally(s, "counts") + 1)
				}
			case "ret":
				if ct, by, _ := counting(e); ct != "" && ct != "⟨wg⟩" && by < 0 && len(e.Results) == 1 {
					s.Vals["count"] = e.Results[0]
				}
			case "close":
				if e.Args[0].Key() == "⟨input channel⟩" {
					return
				}
				if n := s.Vals["count"]; n != nil {
					c.Ob(name+"/"+where+"/drained", "that all jobs have been executed is announced only when none are left", none(s, n), c.locate(e), "%s", path(s))
					s.Mon["announced"] = "yes"
				}
			}
		}
		announced := func(s *engine.State, where string) {
			if n := s.Vals["count"]; n != nil && none(s, n) {
				c.Ob(name+"/"+where+"/announced", "it is announced that all jobs have been executed", s.Mon["announced"] == "yes", "-", "%s", path(s))
			}
		}
		// the counters that the navigator uses for the jobs
		counters := func(s *engine.State) []string {
			var out []string
			for k := range s.Mon {
				if strings.HasPrefix(k, "net ") && k != "net ⟨wg⟩" {
					out = append(out, strings.TrimPrefix(k, "net "))
				}
			}
			return out
		}
		type goes struct {
			s    *engine.State
			f    engine.Val
			args []engine.Val
		}
		at := func(s *engine.State, f engine.Val, args ...engine.Val) goes {
			keep := map[string]engine.Val{"fn": f}
			for i, a := range args {
				keep[fmt.Sprintf("arg %d", i)] = a
			}
			d := s.Detach(keep)
			g := goes{d, d.Vals["fn"], nil}
			for i := range args {
				g.args = append(g.args, d.Vals[fmt.Sprintf("arg %d", i)])
			}
			return g
		}
		// where a job is sent while all that is counted can have been executed
		loose, held, tells := map[string]string{}, 0, false
		var routines []goes
		var pools []goes
		var conds []goes
		phase := "navigator"
		// what is accessed once jobs can be executed, and what of it by workers
		accesses, workers := map[string][]access{}, map[string]bool{}
		noted := map[string]bool{}
		note := func(s *engine.State, e *engine.Event, shared func(obj string) bool) {
			a, ok := c.accessed(s, e, shared)
			if !ok || phase == "navigator" && tally(s, "sends") == 0 {
				return
			}
			if phase == "worker" {
				workers[a.loc] = true
			}
			if k := fmt.Sprint(a, phase); !noted[k] {
				noted[k] = true
				a.how += " by the " + phase
				accesses[a.loc] = append(accesses[a.loc], a)
			}
		}
		any := func(string) bool { return true }
		releases := func(s *engine.State, e *engine.Event) {
			waited := s.Mon["waited"] == "yes" || s.Mon["cancelled"] == "yes" || tally(s, "sends") == 0
			c.Ob(name+"/released", "the pool is not released before the jobs have been executed, unless the context is cancelled", waited, c.locate(e), "%s", path(s))
			c.Ob(name+"/released-pool", "it is the session's pool that is released", len(e.Args) > 0 && (e.Recv != nil && bareKey(e.Recv) == "⟨pool⟩" || strings.Contains(e.Args[0].Key(), "⟨pool⟩")), c.locate(e), "%s", e.Args[0].Key())
			s.Mon["released"] = strconv.Itoa(tally(s, "released") + 1)
			s.Note("Release")
		}
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			if phase == "set up" {
				return
			}
			count(s, kind, phase, e)
			note(s, e, any)
			n := ""
			if kind == "call" || kind == "ret" {
				n = callName(e)
			}
			loc := c.locate(e)
			switch kind {
			case "recv":
				if e.Args[0].Key() == "⟨cancellation⟩" {
					s.Mon["cancelled"] = "yes"
				} else {
					s.Mon["waited"] = "yes"
				}
				s.Note("receive from %s", e.Args[0].Key())
				return
			case "go":
				s.Note("go")
				s.Mon["routines"] = strconv.Itoa(tally(s, "routines") + 1)
				routines = append(routines, at(s, e.FnVal, e.Args...))
				return
			case "close":
				if e.Args[0].Key() != "⟨input channel⟩" {
					return
				}
				c.Ob(name+"/closed-once", "the input channel is closed once", s.Mon["closed"] == "" && s.Mon["open"] == "yes", loc, "%s", path(s))
				s.Mon["closed"] = "yes"
				s.Note("close")
				return
			case "send":
				if e.Args[0].Key() != "⟨input channel⟩" {
					c.Ob(name+"/channel", "jobs are sent to the input channel", false, loc, "sent to %s", e.Args[0].Key())
					return
				}
				c.Ob(name+"/patient", "a job that can't be sent doesn't block a navigation that is cancelled", sendsUnless(e.Instr), loc, "the send does not wait for the context as well: %s", path(s))
				c.Ob(name+"/open", "a job is sent while the input channel is open", s.Mon["open"] == "yes" && s.Mon["closed"] == "", loc, "%s", path(s))
				c.Ob(name+"/cancelled", "no job is sent after the navigation was cancelled", s.Mon["cancelled"] == "", loc, "%s", path(s))
				s.Mon["sends"] = strconv.Itoa(tally(s, "sends") + 1)
				for _, ct := range counters(s) {
					c.Ob(name+"/counted", "a job is counted before it is sent", tally(s, "net "+ct) >= tally(s, "sends"), loc, "%d counted, %d sent: %s", tally(s, "net "+ct), tally(s, "sends"), path(s))
					if tally(s, "net "+ct) > tally(s, "sends") {
						held++
					} else {
						loose[loc] = path(s)
					}
				}
				p, ok := e.Args[1].(*engine.Ptr)
				if !ok {
					c.Ob(name+"/job", "the job is known", false, loc, "%s", e.Args[1].Key())
					return
				}
				h := s.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + ".Handler"}, w.Type("core", "Client"))
				c.Ob(name+"/handler", "the job is for the client's handler", h.Key() == "⟨client⟩", loc, "%s", h.Key())
				nd := c.NodeOf(s, s.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + ".Servant"}, w.Type("core", "Servant")))
				if nd == nil {
					c.Ob(name+"/node", "the job's node is known", false, loc, "%s", path(s))
					return
				}
				pl := s.Load(&engine.Ptr{Obj: objOf(nd), Path: ".Path"}, strT)
				id, ok := g.at(pl.Key())
				if !ok {
					id = pl.Key()
				}
				s.Note("send %q", id)
				s.Mon["seq"] += id + " "
				s.Vals[fmt.Sprintf("shared %02d", tally(s, "sends"))] = nd
				return
			case "store":
				for k, v := range s.Vals {
					if strings.HasPrefix(k, "shared ") && objOf(v) == e.Obj {
						c.Ob(name+"/isolated", "a node is not changed once a worker may be looking at it", false, loc, "%s of %s is changed: %s", e.Path, v.Key(), path(s))
					}
				}
				return
			case "call":
			default:
				return
			}
			switch {
			case n == "NewManifoldFuncPool":
				c.Ob(name+"/pool-once", "one pool is created", s.Mon["pool"] == "", loc, "%s", path(s))
				s.Mon["pool"] = "yes"
				c.Ob(name+"/pool-ctx", "the pool is given the context and the wait group of the session", e.Args[0].Key() == "⟨ctx⟩" && bareKey(e.Args[2]) == "⟨wg⟩", loc, "%s, %s", e.Args[0].Key(), e.Args[2].Key())
				s.Note("new pool")
				pools = append(pools, at(s, e.Args[1]))
				if os, ok := s.SliceElems(e.Args[3], strT); ok {
					have := map[string]bool{}
					for _, o := range os {
						have[o.Key()] = true
					}
					c.Ob(name+"/pool-size", "the pool is given its size", have["⟨WithSize⟩"] && s.Mon["WithSize"] == now.Key(), loc, "%s", s.Mon["WithSize"])
					c.Ob(name+"/pool-input", "the pool is given the size of its input channel", have["⟨WithInput⟩"] && (s.Mon["WithInput"] == inputSize.Key() || s.Mon["WithInput"] == now.Key() && knownTrue(s, engine.Eq(inputSize, engine.Int(0)))), loc, "%s", s.Mon["WithInput"])
					c.Ob(name+"/pool-output", "the pool has an output channel precisely if there is someone to consume it", (have["⟨IfOptionF⟩"] || have["⟨WithOutput⟩"]) == md.output, loc, "%v: %s", have, path(s))
				} else {
					c.Ob(name+"/pool-options", "the options of the pool are known", false, loc, "%s", e.Args[3].Key())
				}
				if f := s.Vals["conditional"]; f != nil {
					conds = append(conds, at(s, f))
				}
			case n == "WithSize" || n == "WithInput":
				s.Mon[n] = e.Args[0].Key()
			case n == "WithOutput" && e.Args != nil && what != "WithOutput":
				var ks []string
				for _, a := range e.Args {
					ks = append(ks, a.Key())
				}
				c.Ob(name+"/output-options", "the output channel has the size and the intervals asked for", strings.Join(ks, " ") == want["output"] ||
					knownTrue(s, engine.Eq(engine.NewNonNil("output Size", types.Typ[types.Uint]), engine.Int(0))) && strings.Join(ks, " ") == strings.Replace(want["output"], "⟨output Size⟩", now.Key(), 1), loc, "%s instead of %s", strings.Join(ks, " "), want["output"])
			case n == "Source":
				c.Ob(name+"/source", "the input channel is opened once, on the pool, with the context and the wait group of the session",
					s.Mon["open"] == "" && e.Args[0].Key() == "⟨pool⟩" && e.Args[1].Key() == "⟨ctx⟩" && bareKey(e.Args[2]) == "⟨wg⟩", loc, "%s", path(s))
				s.Mon["open"] = "yes"
				s.Note("open")
			case what == "output":
				c.Ob(name+"/consumer", "the consumer is given the pool's output once, before anything is visited", md.output && s.Mon["consumer"] == "" && s.Mon["open"] == "yes" && s.Mon["visiting"] == "" && e.Args[0].Key() == "⟨output channel⟩",
					loc, "%s: %s", e.Args[0].Key(), path(s))
				s.Mon["consumer"] = "yes"
				s.Note("output")
			case what == "queryStatus" || what == "readDirectory":
				s.Mon["visiting"] = "yes"
				c.Ob(name+"/ready", "the pool is ready before anything is visited", s.Mon["open"] == "yes" && (s.Mon["consumer"] == "yes") == md.output, loc, "%s", path(s))
				c.Ob(name+"/late", "nothing is visited once the input channel is closed", s.Mon["closed"] == "", loc, "%s", path(s))
			case what == "client":
				c.Ob(name+"/direct", "the client is not invoked by the navigator itself", false, loc, "%s", path(s))
			case n == "Release":
				releases(s, e)
			case n == "Wait" && e.Fn != nil:
				s.Mon["waited"] = "yes"
			}
		})
		m.WatchStores, m.WatchLoads = true, true
		st := c.Init(m, NavInit...)
		for _, x := range []string{"SkipDir", "SkipAll"} {
			for _, err := range []engine.Val{failure, cancelled, engine.NewNonNil("error that wraps "+bareKey(failure), errT)} {
				st.Assume(Is(err, c.Sentinel("io/fs", x)), false)
			}
		}
		for p, ks := range g {
			for a := range ks {
				for q := p; ; q = g.parent(q) {
					st.Assume(engine.Eq(g.place(ks[a]), g.place(q)), false)
					if q == "" {
						break
					}
				}
			}
		}
		settings := append(c.Observers(), Setting{Name: "WithNoW", Args: []engine.Val{now}})
		if md.output {
			settings = append(settings, Setting{Name: "WithOutput", Make: func(st *engine.State) []engine.Val {
				f := map[string]engine.Val{}
				u := outT.Underlying().(*types.Struct)
				var ks []string
				for i := 0; i < u.NumFields(); i++ {
					v := engine.NewNonNil("output "+u.Field(i).Name(), u.Field(i).Type())
					if u.Field(i).Name() == "On" {
						v = engine.NewNonNil("output", u.Field(i).Type())
					} else {
						ks = append(ks, v.Key())
					}
					f["."+u.Field(i).Name()] = v
				}
				want["output"] = strings.Join(ks, " ")
				return []engine.Val{c.object(st, "output options", outT, f)}
			}})
		}
		phase = "set up"
		t := c.NewTravel(name, m, st, Session{Parallel: true, Facade: map[string]engine.Val{
			"Subscription": w.Const("enums", md.sub), "Tree": c.Tree(st), "Handler": c.Client(),
		}, Settings: func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
			// the size of the input channel has no option of its own
			st, os := c.Options(settings...)(m, st)
			return st, append(os, engine.NewNonNil("input option", w.Type("pref", "Option")))
		}})
		phase = "navigator"
		all := og.preorder("", md.sub)
		n, failed, stopped := 0, 0, 0
		for _, o := range t.Run(nil) {
			s := o.State
			if o.Panicked {
				c.Ob(name+"/completes", "the navigation completes", md.fail && s.Mon["seq"] == "", "-", "it panics: %s: %s", o.PanicVal.Key(), path(s))
				c.Ob(name+"/closed", "the input channel is closed on every way out", s.Mon["closed"] == s.Mon["open"], "-", "%s", path(s))
				continue
			}
			n++
			if s.Mon["open"] == "" {
				failed++
				c.Ob(name+"/no-pool", "when the pool can't be created nothing is visited, and the reason is returned", s.Mon["visiting"] == "" && s.Mon["closed"] == "" && s.NonNilKnown(o.Results[0]) && strings.Contains(o.Results[1].Key(), "⟨error⟩"), "-", "%s: %s", o.Results[1].Key(), path(s))
				continue
			}
			c.Ob(name+"/closed", "the input channel is closed on every way out", s.Mon["closed"] == "yes", "-", "%s", path(s))
			for _, ct := range counters(s) {
				c.Ob(name+"/accounted", "the jobs that are counted in the end are those that were sent", tally(s, "net "+ct) == tally(s, "sends"), "-", "%d counted, %d sent: %s", tally(s, "net "+ct), tally(s, "sends"), path(s))
			}
			announced(s, "navigator")
			c.Ob(name+"/wait-group", "the wait group is told of each goroutine started", tally(s, "net ⟨wg⟩") == tally(s, "routines"), "-", "%d for %d: %s", tally(s, "net ⟨wg⟩"), tally(s, "routines"), path(s))
			c.Ob(name+"/release", "the pool is released", tally(s, "released") == 1 || tally(s, "routines") == 1, "-", "%s", path(s))
			switch {
			case s.Mon["cancelled"] == "yes":
				stopped++
				c.Ob(name+"/context", "a navigation that is cancelled ends with the error of its context", o.Results[1].Key() == cancelled.Key(), "-", "%s: %s", o.Results[1].Key(), path(s))
			case !md.fail:
				got := strings.TrimSpace(strings.ReplaceAll(" "+s.Mon["seq"], "  ", " . "))
				exp := strings.TrimSpace(strings.ReplaceAll(" "+strings.Join(all, " ")+" ", "  ", " . "))
				c.Ob(name+"/jobs", "there is one job for each node that is subscribed to", got == exp, "-", "[%s] instead of [%s]: %s", got, exp, path(s))
				c.Ob(name+"/error", "a navigation that nothing stops ends without an error", engine.IsNil(o.Results[1]), "-", "%s: %s", o.Results[1].Key(), path(s))
			}
		}
		c.Ob(name+"/judged", "navigations that complete, that are cancelled and that have no pool are analysed", n > failed+stopped && failed > 0 && stopped > 0, "-", "%d, %d, %d", n, failed, stopped)
		// what the workers do
		phase = "worker"
		worked := 0
		for _, p := range pools {
			s := p.s.Clone()
			inT := w.Named("core", "TraverseInput")
			in := c.object(s, "input", inT, map[string]engine.Val{".Servant": engine.NewNonNil("servant", w.Type("core", "Servant")), ".Handler": engine.NewNonNil("handler", w.Type("core", "Client"))})
			for k := range s.Mon {
				delete(s.Mon, k)
			}
			on := m.On
			known := map[string]bool{}
			for _, id := range p.s.HeapIDs() {
				known[id] = true
			}
			m.On = func(s *engine.State, e *engine.Event) {
				count(s, e.Kind, "worker", e)
				note(s, e, func(obj string) bool { return known[obj] })
				if e.Kind == "call" && What(e) == "handler" {
					s.Mon["handled"] = strconv.Itoa(tally(s, "handled") + 1)
					c.Ob(name+"/worker/servant", "the handler is given the job's node", e.Args[0].Key() == "⟨servant⟩", c.locate(e), "%s", e.Args[0].Key())
				}
				if e.Kind == "call" {
					if ct, _, _ := counting(e); ct != "" {
						c.Ob(name+"/worker/after", "a job counts as executed when its handler is done", tally(s, "handled") == 1, c.locate(e), "%s", path(s))
					}
				}
			}
			for _, o := range m.RunVal(s, p.f, in) {
				worked++
				c.Ob(name+"/worker/once", "the handler is invoked once for a job", tally(o.State, "handled") == 1, "-", "%d times: %s", tally(o.State, "handled"), path(o.State))
				for _, ct := range counters(o.State) {
					c.Ob(name+"/worker/accounted", "a job is accounted for once, whatever its handler does", tally(o.State, "net "+ct) == -1, "-", "by %d: %s", tally(o.State, "net "+ct), path(o.State))
				}
				for _, gs := range routines {
					if gs.s.Mon["closed"] == "yes" && len(counters(gs.s)) > 0 {
						c.Ob(name+"/worker/counts", "the workers account for the jobs", len(counters(o.State)) == len(counters(gs.s)), "-", "%s", path(o.State))
						break
					}
				}
				announced(o.State, "worker")
				tells = tells || o.State.Mon["announced"] == "yes"
				if o.Panicked {
					continue
				}
				res := func(f string, t types.Type) string {
					p, ok := o.Results[0].(*engine.Ptr)
					if !ok {
						return o.Results[0].Key()
					}
					return o.State.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + f}, t).Key()
				}
				c.Ob(name+"/worker/output", "the output tells the node and the error of the job", res(".Servant", w.Type("core", "Servant")) == "⟨servant⟩" && res(".Error", errT) == "⟨error of the handler⟩" || o.State.IsNilKnown(engine.NewTok("error of the handler", errT)) && res(".Error", errT) == engine.Nil.Key() && res(".Servant", w.Type("core", "Servant")) == "⟨servant⟩", "-", "%s, %s", res(".Servant", w.Type("core", "Servant")), res(".Error", errT))
				c.Ob(name+"/worker/error", "the job's result is the handler's error", o.Results[1].Key() == "⟨error of the handler⟩" || o.State.IsNilKnown(engine.NewTok("error of the handler", errT)) && engine.IsNil(o.Results[1]), "-", "%s", o.Results[1].Key())
			}
			m.On = on
		}
		if tells {
			// a worker that executes the last job counted says that there are none left
			for loc, p := range loose {
				c.Ob(name+"/premature", "the workers can't be done with all jobs while there are more to send", false, loc, "the job sent, once executed, is the last one counted: %s", p)
			}
			c.Ob(name+"/premature", "the workers can't be done with all jobs while there are more to send", held > 0, "-", "%d", held)
		}
		c.Ob(name+"/worker/judged", "the workers are analysed", worked > 0, "-", "%d", worked)
		phase = "output"
		for _, p := range conds {
			s := p.s.Clone()
			for _, o := range m.RunVal(s, p.f) {
				c.Ob(name+"/output-option", "there is an output option", !o.Panicked && o.Results[0].Key() == "⟨WithOutput⟩", "-", "%s", path(o.State))
			}
		}
		phase = "goroutine"
		for _, r := range routines {
			s := r.s.Clone()
			wg := tally(s, "net ⟨wg⟩")
			s.Mon["waited"], s.Mon["cancelled"] = "", ""
			for _, o := range m.RunVal(s, r.f, r.args...) {
				c.Ob(name+"/goroutine/done", "each goroutine tells the wait group when it ends", tally(o.State, "net ⟨wg⟩") == wg-1, "-", "by %d: %s", tally(o.State, "net ⟨wg⟩")-wg, path(o.State))
				c.Ob(name+"/goroutine/release", "the pool is released once", tally(o.State, "released") == 1, "-", "%s", path(o.State))
			}
		}
		var locs []string
		for l := range workers {
			locs = append(locs, l)
		}
		sort.Strings(locs)
		for _, l := range locs {
			as := accesses[l]
			var write *access
			for i := range as {
				if as[i].write {
					write = &as[i]
					break
				}
			}
			if write == nil {
				c.Ob(name+"/shared", "what the workers share with each other and the navigator is not changed while jobs are executed, or is guarded by one lock", true, as[0].at, "")
				continue
			}
			if a := unguarded(as); a != nil {
				c.Ob(name+"/shared", "what the workers share with each other and the navigator is not changed while jobs are executed, or is guarded by one lock", false, a.at,
					"%s is %s at %s and %s at %s, without a lock in common", shortLoc(l), write.how, write.at, a.how, a.at)
			}
		}
		if !c.Done(m, name) {
			return
		}
	}
}

// sendsUnless says whether a send is part of a select that also waits for
// something that is received, or never blocks.
func sendsUnless(in ssa.Instruction) bool {
	sel, ok := in.(*ssa.Select)
	if !ok {
		return false
	}
	if !sel.Blocking {
		return true
	}
	for _, st := range sel.States {
		if st.Dir == types.RecvOnly {
			return true
		}
	}
	return false
}

// none says whether a count, which is never negative, is known to be zero.
func none(s *engine.State, n engine.Val) bool {
	return knownTrue(s, engine.Eq(n, engine.Int(0))) || knownFalse(s, engine.Lt(engine.Int(0), n)) || knownTrue(s, engine.Lt(n, engine.Int(1)))
}
