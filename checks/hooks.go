package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P12", Min: 60,
		Rule: "typestate over every abstract path of navigations with none, one, two and three listeners: every event is told to each of its listeners, once, in the order of their registration, with the same argument, before anything else happens",
		Run:  runP12})
	register(&Check{ID: "P13", Min: 40,
		Rule: "value flow through every hook with none to three functions chained onto it, tapped or not: the default (or tapped) function runs first, each chained function is given what the one before it returned, and the last result is what the hook returns",
		Run:  runP13})
}

// runP12 decides that all listeners are told.
func runP12(c *C) {
	for _, sub := range append([]string{"SubscribeUniversal hibernating"}, Subscriptions...) {
		sub, hibernating := strings.CutSuffix(sub, " hibernating")
		events := []string{"Begin", "End", "Descend", "Ascend"}
		for n := 0; n <= 3; n++ {
			if n == 1 && !hibernating {
				continue // that is what every other rule does
			}
			m := c.Machine()
			m.MayPanic = mayPanic
			m.Model = Entries
			name := fmt.Sprintf("%s/%d listeners", sub, n)
			if hibernating {
				name = fmt.Sprintf("%s/hibernating/%d listeners", sub, n)
				events = []string{"Begin", "Wake", "Sleep"}
				m.Unroll = 16
				m.Recur = 2
				list := c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
					switch What(e) {
					case "info.IsDir":
						return []engine.Alt{{Results: []engine.Val{engine.True}}}, true
					case "queryStatus":
						return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("info", e.Sig.Results().At(0).Type()), engine.Nil}}}, true
					}
					return c.calm(s, e)
				}, "f1", "f2")
				m.MayPanic = nil
				m.Model = c.Matching(list)
			}
			c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
				if kind != "call" {
					return
				}
				ev, i := listener(what)
				if ev != "" {
					s.Note("%s", what)
				}
				// who is due, after the first listener of an event was told
				due := s.Mon["due"]
				if ev != "" || observed[what] {
					got := what
					if ev != "" && len(e.Args) > 0 {
						got += " " + e.Args[len(e.Args)-1].Key()
					}
					if due != "" {
						c.Ob(name+"/all", "an event is told to all of its listeners, in order, with the same argument",
							got == due, c.W.InstrPos(e.Instr), "%s is due but %s happens: %s", due, got, path(s))
						delete(s.Mon, "due")
					} else if ev != "" {
						c.Ob(name+"/first", "the listener registered first is told first", i == 1, c.W.InstrPos(e.Instr), "%s is told first: %s", what, path(s))
					}
				}
				if ev == "" {
					return
				}
				c.Ob(name+"/"+ev, "the listeners of "+ev+" are told", true, "-", "")
				if ev == "Wake" || ev == "Sleep" {
					k := e.Args[len(e.Args)-1].Key()
					c.Ob(name+"/"+ev+"/description", "listeners of waking and going to sleep are told the description of the filter that matched", k == "⟨description of "+ev+"⟩", c.W.InstrPos(e.Instr), "it is %s: %s", k, path(s))
				}
				if i < n {
					s.Mon["due"] = fmt.Sprintf("%s#%d %s", ev, i+1, e.Args[len(e.Args)-1].Key())
				}
			})
			st := c.Init(m, NavInit...)
			p := c.Plain(sub, st)
			keep := []Setting{}
			for _, o := range c.Observers() {
				if !strings.HasPrefix(o.Name, "WithOn") {
					keep = append(keep, o)
				}
			}
			for i := 1; i <= n; i++ {
				for _, ev := range events {
					keep = append(keep, c.Opaque("WithOn"+ev, fmt.Sprintf("%s#%d", ev, i)))
				}
			}
			if hibernating {
				for _, id := range []string{"Wake", "Sleep"} {
					keep = append(keep, Setting{Name: "WithHibernationFilter" + id, Make: func(st *engine.State) []engine.Val {
						return []engine.Val{c.filterDef(st, id, "FilterDef", "FilterTypeGlob", map[string]engine.Val{".Description": engine.NewTok("description of "+id, types.Typ[types.String])})}
					}})
				}
			}
			p.Settings = c.Options(keep...)
			t := c.NewTravel(name, m, st, p)
			runs := [][]engine.Outcome{t.Run(nil)}
			if !hibernating {
				runs = append(runs, t.Visit(nil))
			}
			for _, r := range runs {
				for _, o := range r {
					c.Ob(name+"/finished", "no listener is left out", o.State.Mon["due"] == "", "-", "%s is due: %s", o.State.Mon["due"], path(o.State))
				}
			}
			if !c.Done(m, name) {
				return
			}
			if n > 0 {
				for _, ev := range events {
					c.Ob(name+"/"+ev+" seen", "the event takes place", c.obs[name+"/"+ev] != nil, "-", "no listener of %s is ever told", ev)
				}
			}
		}
	}
}

var listened = map[string]bool{"Begin": true, "End": true, "Descend": true, "Ascend": true, "Wake": true, "Sleep": true}

func listener(what string) (string, int) {
	i := strings.IndexByte(what, '#')
	if i < 0 || !listened[what[:i]] {
		return "", 0
	}
	var n int
	if _, err := fmt.Sscanf(what[i+1:], "%d", &n); err != nil {
		return "", 0
	}
	return what[:i], n
}

// runP13 decides that hooks compose.
func runP13(c *C) {
	w := c.W
	hooksT := w.Named("tapable", "Hooks").Underlying().(*types.Struct)
	for i := 0; i < hooksT.NumFields(); i++ {
		f := hooksT.Field(i)
		for _, tapped := range []bool{false, true} {
			for n := 0; n <= 3; n++ {
				c.hook(f, tapped, n)
			}
		}
	}
}

func (c *C) hook(f *types.Var, tapped bool, n int) {
	w := c.W
	m := c.Machine()
	st := c.Init(m, "pref")
	key := fmt.Sprintf("%s/tapped=%v/%d chained", f.Name(), tapped, n)
	o := c.one(m, "DefaultOptions", m.Run(st, w.Fn("pref", "DefaultOptions")))
	st = o.State
	st.Vals["o"] = o.Results[0]
	hook := st.Load(&engine.Ptr{Obj: o.Results[0].(*engine.Ptr).Obj, Path: ".Hooks." + f.Name()}, f.Type())
	if _, ok := hook.(*engine.Iface); !ok {
		c.Ob(key+"/default", "there is a hook by default", false, w.Pos(f.Pos()), "it is %s", hook.Key())
		return
	}
	tapFn, _ := c.method(hook, "Tap")
	chainFn, _ := c.method(hook, "Chain")
	ft := tapFn.(*engine.Clos).Fn.Params[1].Type()
	ct := chainFn.(*engine.Clos).Fn.Params[1].Type()
	def := c.one(m, "Default", c.Invoke(m, st, hook, "Default"))
	core := def.Results[0]
	if tapped {
		core = engine.NewNonNil("core", ft)
		st = c.one(m, "Tap", c.Invoke(m, st, hook, "Tap", core)).State
	}
	for i := 1; i <= n; i++ {
		st = c.one(m, "Chain", c.Invoke(m, st, hook, "Chain", engine.NewNonNil(fmt.Sprintf("chained#%d", i), ct))).State
	}
	at := w.Pos(f.Pos())
	d2 := c.one(m, "Default", c.Invoke(m, st, hook, "Default"))
	c.Ob(key+"/default", "the default function of the hook stays the same", d2.Results[0].Key() == def.Results[0].Key(), at, "it becomes %s", d2.Results[0].Key())
	iv := c.one(m, "Invoke", c.Invoke(m, st, hook, "Invoke"))
	if n == 0 {
		c.Ob(key+"/itself", "without anything chained the hook is the default (or tapped) function", iv.Results[0].Key() == core.Key(), at, "it is %s", iv.Results[0].Key())
		return
	}
	sig := ft.Underlying().(*types.Signature)
	var args []engine.Val
	for i := 0; i < sig.Params().Len(); i++ {
		args = append(args, engine.NewNonNil(fmt.Sprintf("argument%d", i), sig.Params().At(i).Type()))
	}
	var results func(who string) []engine.Val
	results = func(who string) []engine.Val {
		var r []engine.Val
		for i := 0; i < sig.Results().Len(); i++ {
			r = append(r, engine.NewTok(fmt.Sprintf("result%d of %s", i, who), sig.Results().At(i).Type()))
		}
		return r
	}
	coreFn := ""
	if cl, ok := core.(*engine.Clos); ok {
		coreFn = cl.Fn.String()
	}
	// the order of events
	var order func(s *engine.State, e *engine.Event) string = func(s *engine.State, e *engine.Event) string {
		if e.Fn != nil && e.Fn.String() == coreFn {
			return "core"
		}
		wt := What(e)
		if wt == "core" || strings.HasPrefix(wt, "chained#") {
			return wt
		}
		return ""
	}
	op := m.Opaque
	m.Opaque = func(fn *ssa.Function) bool { return op(fn) || fn.String() == coreFn }
	var ptrArgs func(vs []engine.Val) string = func(vs []engine.Val) string {
		var k []string
		for _, v := range vs {
			k = append(k, v.Key())
		}
		return strings.Join(k, ", ")
	}
	m.On = func(s *engine.State, e *engine.Event) {
		who := order(s, e)
		if who == "" || e.Kind != "call" {
			return
		}
		var step int
		fmt.Sscanf(s.Mon["step"], "%d", &step)
		expect, prev := "core", "core"
		if step > 0 {
			expect = fmt.Sprintf("chained#%d", step)
		}
		if step > 1 {
			prev = fmt.Sprintf("chained#%d", step-1)
		}
		c.Ob(key+"/order", "the default (or tapped) function runs first, then what is chained, in order", who == expect, w.InstrPos(e.Instr), "%s runs when %s is due", who, expect)
		want := args
		if step > 0 {
			want = append(append([]engine.Val{}, results(prev)...), args...)
		}
		c.Ob(key+"/arguments", "each function is given what the one before it returned, and the arguments", ptrArgs(e.Args) == ptrArgs(want), w.InstrPos(e.Instr),
			"%s is given (%s) instead of (%s)", who, ptrArgs(e.Args), ptrArgs(want))
		s.Mon["step"] = fmt.Sprint(step + 1)
	}
	m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		if who := order(s, e); who != "" {
			return []engine.Alt{{Results: results(who)}}, true
		}
		return LibModel(s, e)
	}
	outs := m.RunVal(iv.State, iv.Results[0], args...)
	if !c.Done(m, key) {
		return
	}
	last := fmt.Sprintf("chained#%d", n)
	for _, r := range outs {
		if r.Panicked {
			c.Ob(key+"/returns", "invoking the hook succeeds", false, at, "it panics")
			continue
		}
		c.Ob(key+"/all", "every function chained is run", r.State.Mon["step"] == fmt.Sprint(n+1), at, "after %s steps", r.State.Mon["step"])
		c.Ob(key+"/returns", "the hook returns the result of the last function chained", ptrArgs(r.Results) == ptrArgs(results(last)), at,
			"it returns (%s)", ptrArgs(r.Results))
	}
}
