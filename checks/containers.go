package checks

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P36", Min: 150,
		Rule: "every history of operations up to a length on the positional set, the stack and the iterators: what they answer is what a sequence or set that went through the same history answers",
		Run:  runP36})
}

// instances of the generic containers, so that there is code to look at; never part of any build.
const instances = `package collections

func instanceOfSet(order []string, anchor string) *PositionalSet[string] { return NewPositionalSet(order, anchor) }
func instanceOfStack() *Stack[string] { return NewStack[string]() }
func instanceOfStackWith(with []string) *Stack[string] { return NewStackWith(with) }
func instanceOfForwardIt(e []string, zero string) Iterator[string] { return ForwardIt(e, zero) }
func instanceOfReverseIt(e []string, zero string) Iterator[string] { return ReverseIt(e, zero) }
func instanceOfForwardRunIt(e []string, zero string) RunnableIterator[string, int] { return ForwardRunIt[string, int](e, zero) }
func instanceOfReverseRunIt(e []string, zero string) RunnableIterator[string, int] { return ReverseRunIt[string, int](e, zero) }
`

func runP36(c *C) {
	before := c.W
	defer func() { c.W = before }()
	file := filepath.Join(before.Dir, "collections", "zz_instances.go")
	w, err := load(before.Dir, map[string][]byte{file: []byte(instances)}, "./collections")
	if err != nil {
		panic(Missing("instances of the containers: " + err.Error()))
	}
	c.W = w
	c.positional()
	c.stacks()
	c.iterators()
}

// do calls a method on a container and gives the state after it, and its results.
type container struct {
	c    *C
	m    *engine.Machine
	v    engine.Val // a pointer
	t    types.Type
	s    *engine.State
	hist []string
}

func (k *container) method(name string) *ssa.Function { return k.c.W.MethodOf(k.t, name) }

// call gives nil when there is no single answer, having reported so.
func (k *container) call(key, name string, args ...engine.Val) (*container, []engine.Val) {
	outs := k.m.RunVal(k.s, &engine.Clos{Fn: k.method(name)}, append([]engine.Val{k.v}, args...)...)
	if len(outs) != 1 || outs[0].Panicked {
		what := fmt.Sprintf("%d outcomes", len(outs))
		for _, o := range outs {
			if o.Panicked {
				what = "it panics: " + o.PanicVal.Key()
			}
		}
		k.c.Ob(key+"/"+name+"/answers", "every operation has an answer", false, k.c.W.Pos(k.method(name).Pos()), "%s after %s", what, strings.Join(k.hist, " "))
		return nil, nil
	}
	n := *k
	n.s = outs[0].State
	return &n, outs[0].Results
}

func (k *container) after(op string) *container {
	n := *k
	n.hist = append(append([]string(nil), k.hist...), op)
	return &n
}

// expect compares a result.
func (k *container) expect(key, name, text string, got, want engine.Val) {
	k.c.Ob(key+"/"+name, text, got != nil && got.Key() == want.Key(), k.c.W.Pos(k.method(name).Pos()), "%s gives %s instead of %s after %s", name, keyOf(got), want.Key(), strings.Join(k.hist, " "))
}

func keyOf(v engine.Val) string {
	if v == nil {
		return "nothing"
	}
	return v.Key()
}

// elements of a slice whose extent is known.
func (k *container) elements(v engine.Val) string {
	var out []string
	es, ok := k.s.SliceElems(v, types.Typ[types.String])
	if !ok {
		return "what isn't known"
	}
	for _, e := range es {
		out = append(out, keyOf(e))
	}
	return strings.Join(out, " ")
}

func (c *C) make(m *engine.Machine, st *engine.State, ctor string, args ...engine.Val) *container {
	fn := c.W.Fn("collections", ctor)
	o := c.one(m, ctor, m.Run(st, fn, args...))
	k := &container{c: c, m: m, v: o.Results[0], t: fn.Signature.Results().At(0).Type(), s: o.State}
	if i, ok := k.v.(*engine.Iface); ok {
		k.v, k.t = i.V, i.Dyn
	}
	k.s.Vals["container"] = k.v
	return k
}

func (c *C) positional() {
	const text = "a positional set holds its anchor and what was put into it and not taken out since, in the order it was made with"
	strs := types.NewSlice(types.Typ[types.String])
	for _, order := range [][]string{{"c", "a", "b"}, {"a", "z", "b", "a"}, {"b"}, {}} {
		key := fmt.Sprintf("set of %v", order)
		m := c.Machine()
		st := c.Init(m)
		var vs []engine.Val
		var seq []string
		pos := map[string]int{}
		for _, x := range order {
			vs = append(vs, engine.Str(x))
			if _, ok := pos[x]; !ok && x != "z" {
				pos[x] = len(seq)
				seq = append(seq, x)
			}
		}
		pos["z"] = len(seq)
		seq = append(seq, "z")
		universe := []string{"a", "b", "c", "z", "", "q"}
		top := c.make(m, st, "instanceOfSet", st.NewSlice("order", strs, vs...), engine.Str("z"))
		n := 0
		observe := func(k *container, has map[string]bool) *container {
			n++
			var items []string
			for _, x := range seq {
				if has[x] {
					items = append(items, x)
				}
			}
			var want []string
			for _, x := range items {
				want = append(want, engine.Str(x).Key())
			}
			for _, x := range universe {
				if _, r := k.call(key, "Contains", engine.Str(x)); r != nil {
					k.expect(key, "Contains", text, r[0], engine.Bool(has[x]))
				}
				if _, r := k.call(key, "Position", engine.Str(x)); r != nil {
					p, ok := pos[x]
					k.expect(key, "Position", "the position of an item is that in the order", r[1], engine.Bool(ok))
					if ok {
						k.expect(key, "Position", "the position of an item is that in the order", r[0], engine.Int(int64(p)))
					}
				}
			}
			if _, r := k.call(key, "Count"); r != nil {
				k.expect(key, "Count", "the count is the number of items", r[0], engine.Int(int64(len(items))))
			}
			if _, r := k.call(key, "Top"); r != nil {
				k.expect(key, "Top", "the top is the first of the items", r[0], engine.Str(items[0]))
			}
			l, r := k.call(key, "Items")
			if r != nil {
				got := l.elements(r[0])
				c.Ob(key+"/Items", text, got == strings.Join(want, " "), w(c, k, "Items"), "Items gives %s instead of %v after %s", got, items, strings.Join(k.hist, " "))
			}
			return l
		}
		var step func(k *container, has map[string]bool, depth int)
		step = func(k *container, has map[string]bool, depth int) {
			if !c.failed.IsZero() || m.Err != nil {
				return
			}
			if observe(k, has) == nil || depth == 0 {
				return
			}
			with := func(x string, on bool) map[string]bool {
				h := map[string]bool{}
				for y, b := range has {
					h[y] = b
				}
				if _, ok := pos[x]; ok && x != "z" {
					h[x] = on
				}
				return h
			}
			for _, x := range universe {
				_, valid := pos[x]
				added := valid && x != "z" && !has[x]
				l := k.after("Insert(" + x + ")")
				if l, r := l.call(key, "Insert", engine.Str(x)); l != nil {
					l.expect(key, "Insert", "inserting says whether it did", r[0], engine.Bool(added))
					step(l, with(x, true), depth-1)
				}
				l = k.after("Delete(" + x + ")")
				if l, _ := l.call(key, "Delete", engine.Str(x)); l != nil {
					step(l, with(x, false), depth-1)
				}
			}
			for _, xs := range [][]string{{"b", "a"}, {"a", "q"}, {"c", "z", "b"}, {}} {
				var vs []engine.Val
				h, all := has, true
				for _, x := range xs {
					vs = append(vs, engine.Str(x))
					_, valid := pos[x]
					all = all && valid && x != "z" && !h[x]
					was := has
					has = h
					h = with(x, true)
					has = was
				}
				l := k.after(fmt.Sprintf("All%v", xs))
				l.s = l.s.Clone()
				if l, r := l.call(key, "All", l.s.NewSlice(fmt.Sprintf("items %d %s", len(l.hist), xs), strs, vs...)); l != nil {
					l.expect(key, "All", "inserting several says whether each of them was", r[0], engine.Bool(all))
					step(l, h, depth-1)
				}
			}
			l := k.after("Items")
			if l, _ := l.call(key, "Items"); l != nil {
				step(l, has, depth-1)
			}
		}
		step(top, map[string]bool{"z": true}, 3)
		c.Count("histories", n)
		if !c.Done(m, key) {
			return
		}
	}
}

func w(c *C, k *container, name string) string { return c.W.Pos(k.method(name).Pos()) }

func (c *C) stacks() {
	const text = "a stack gives what was put onto it last, first"
	str := types.Typ[types.String]
	strs := types.NewSlice(str)
	tok := func(i int) engine.Val { return engine.NewTok(fmt.Sprintf("item %d", i), str) }
	for size := -1; size <= 3; size++ {
		key := fmt.Sprintf("stack with %d", size)
		m := c.Machine()
		st := c.Init(m)
		sentinel := c.Sentinel(c.W.pkg("collections").Pkg.Path(), "ErrStackIsEmpty")
		var content []engine.Val
		var top *container
		if size < 0 {
			key = "stack"
			top = c.make(m, st, "instanceOfStack")
		} else {
			for i := 0; i < size; i++ {
				content = append(content, tok(i))
			}
			top = c.make(m, st, "instanceOfStackWith", st.NewSlice("with", strs, content...))
		}
		n := 0
		var step func(k *container, content []engine.Val, depth int)
		step = func(k *container, content []engine.Val, depth int) {
			if !c.failed.IsZero() || m.Err != nil {
				return
			}
			n++
			last := engine.Val(engine.Str(""))
			wantErr := sentinel
			var rest []engine.Val
			if len(content) > 0 {
				last, wantErr, rest = content[len(content)-1], engine.Nil, content[:len(content)-1]
			}
			if _, r := k.call(key, "Size"); r != nil {
				k.expect(key, "Size", "the size of a stack is the number of its items", r[0], engine.Int(int64(len(content))))
			}
			if _, r := k.call(key, "IsEmpty"); r != nil {
				k.expect(key, "IsEmpty", "a stack is empty when there are no items", r[0], engine.Bool(len(content) == 0))
			}
			if _, r := k.call(key, "Current"); r != nil {
				k.expect(key, "Current", text, r[0], last)
				k.expect(key, "Current", "an empty stack says so", r[1], wantErr)
			}
			if l, r := k.call(key, "Content"); r != nil {
				var want []string
				for _, x := range content {
					want = append(want, x.Key())
				}
				got := l.elements(r[0])
				c.Ob(key+"/Content", "the content of a stack is its items, the last one last", got == strings.Join(want, " "), w(c, k, "Content"), "Content gives %s instead of %v after %s", got, want, strings.Join(k.hist, " "))
			}
			if depth == 0 {
				return
			}
			p := tok(10 + depth)
			if l, _ := k.after("Push").call(key, "Push", p); l != nil {
				step(l, append(append([]engine.Val(nil), content...), p), depth-1)
			}
			if l, r := k.after("Pop").call(key, "Pop"); l != nil {
				l.expect(key, "Pop", text, r[0], last)
				l.expect(key, "Pop", "an empty stack says so", r[1], wantErr)
				step(l, rest, depth-1)
			}
			if len(content) > 0 {
				if l, r := k.after("MustPop").call(key, "MustPop"); l != nil {
					l.expect(key, "MustPop", text, r[0], last)
					step(l, rest, depth-1)
				}
			} else {
				for _, o := range m.RunVal(k.s, &engine.Clos{Fn: k.method("MustPop")}, k.v) {
					c.Ob(key+"/MustPop/empty", "taking from an empty stack what must be there panics", o.Panicked, w(c, k, "MustPop"), "it returns %v", o.Results)
				}
			}
		}
		step(top, content, 5)
		c.Count("histories", n)
		if !c.Done(m, key) {
			return
		}
	}
}

func (c *C) iterators() {
	const text = "an iterator goes through the items once, in its direction, and ends"
	str := types.Typ[types.String]
	strs := types.NewSlice(str)
	zero := engine.NewTok("zero", str)
	for _, ctor := range []string{"ForwardIt", "ReverseIt", "ForwardRunIt", "ReverseRunIt"} {
		reverse := strings.HasPrefix(ctor, "Reverse")
		seq := func(id string, n int) []engine.Val {
			var vs []engine.Val
			for i := 0; i < n; i++ {
				vs = append(vs, engine.NewTok(fmt.Sprintf("%s %d", id, i), str))
			}
			return vs
		}
		order := func(vs []engine.Val) []engine.Val {
			if !reverse {
				return vs
			}
			var out []engine.Val
			for i := len(vs) - 1; i >= 0; i-- {
				out = append(out, vs[i])
			}
			return out
		}
		for size := 0; size <= 3; size++ {
			key := fmt.Sprintf("%s/%d", ctor, size)
			m := c.Machine()
			st := c.Init(m)
			items := seq("item", size)
			top := c.make(m, st, "instanceOf"+ctor, st.NewSlice("items", strs, items...), zero)
			n := 0
			at := func(vs []engine.Val, i int) engine.Val {
				if i < len(vs) {
					return vs[i]
				}
				return zero
			}
			// next is the index of the item that is current, -1 before the first
			var step func(k *container, vs []engine.Val, cur, depth int)
			step = func(k *container, vs []engine.Val, cur, depth int) {
				if !c.failed.IsZero() || m.Err != nil {
					return
				}
				n++
				if _, r := k.call(key, "Valid"); r != nil {
					k.expect(key, "Valid", "an iterator is valid while there is a current item", r[0], engine.Bool(cur >= 0 && cur < len(vs)))
				}
				if depth == 0 {
					return
				}
				if l, r := k.after("Start").call(key, "Start"); l != nil {
					l.expect(key, "Start", text, r[0], at(vs, 0))
					step(l, vs, 0, depth-1)
				}
				if l, r := k.after("Next").call(key, "Next"); l != nil {
					l.expect(key, "Next", text, r[0], at(vs, cur+1))
					step(l, vs, cur+1, depth-1)
				}
				for _, size := range []int{0, 2} {
					l := k.after(fmt.Sprintf("Reset(%d)", size))
					l.s = l.s.Clone()
					id := fmt.Sprintf("entry %d.%d", len(l.hist), size)
					vs := seq(id, size)
					if l, _ := l.call(key, "Reset", l.s.NewSlice(id, strs, vs...)); l != nil {
						step(l, order(vs), -1, depth-1)
					}
				}
			}
			step(top, order(items), -1, 5)
			c.Count("histories", n)
			if !c.Done(m, key) {
				return
			}
			if strings.Contains(ctor, "Run") {
				for before := 0; before <= size+1; before++ {
					c.runAll(fmt.Sprintf("%s/after %d", key, before), ctor, order(items), zero, before)
				}
			}
		}
	}
}

// runAll: each is called for the items in turn, while what while says of its result is true; wherever the iterator was before.
func (c *C) runAll(key, ctor string, items []engine.Val, zero engine.Val, before int) {
	const text = "running goes through the items in turn for as long as it is to go on"
	m := c.Machine()
	st := c.Init(m)
	given := append([]engine.Val(nil), items...)
	if strings.HasPrefix(ctor, "Reverse") {
		for i, j := 0, len(given)-1; i < j; i, j = i+1, j-1 {
			given[i], given[j] = given[j], given[i]
		}
	}
	k := c.make(m, st, "instanceOf"+ctor, st.NewSlice("items", types.NewSlice(types.Typ[types.String]), given...), zero)
	for i := 0; i < before && k != nil; i++ {
		k, _ = k.after("Next").call(key, "Next")
	}
	if k == nil {
		return
	}
	fn := k.method("RunAll")
	each := engine.NewNonNil("each", fn.Params[1].Type())
	while := engine.NewNonNil("while", fn.Params[2].Type())
	res := func(item engine.Val) engine.Val {
		return engine.NewTok("result of "+item.Key(), types.Typ[types.Int])
	}
	m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		switch What(e) {
		case "each":
			s.Mon["log"] += "each " + e.Args[0].Key() + "; "
			return []engine.Alt{{Results: []engine.Val{res(e.Args[0])}}}, true
		case "while":
			s.Mon["log"] += "while " + e.Args[0].Key() + " " + e.Args[1].Key() + "; "
			return []engine.Alt{{Results: []engine.Val{engine.True}, Label: "go on"}, {Results: []engine.Val{engine.False}, Label: "no more"}}, true
		}
		return LibModel(s, e)
	}
	m.On = func(s *engine.State, e *engine.Event) {
		if e.Kind == "ret" && What(e) == "while" {
			s.Mon["log"] += keyOf(e.Results[0]) + "; "
		}
	}
	want := map[string]bool{}
	var log string
	for _, x := range items {
		log += "each " + x.Key() + "; while " + x.Key() + " " + res(x).Key() + "; "
		want[log+engine.False.Key()+"; "] = true
		log += engine.True.Key() + "; "
	}
	want[log] = true
	seen := map[string]bool{}
	for _, o := range m.RunVal(k.s, &engine.Clos{Fn: fn}, k.v, each, while) {
		if o.Panicked {
			c.Ob(key+"/RunAll", text, false, w(c, k, "RunAll"), "it panics: %v", o.PanicVal)
			continue
		}
		l := o.State.Mon["log"]
		seen[l] = true
		c.Ob(key+"/RunAll", text, want[l], w(c, k, "RunAll"), "what happens is %s", l)
	}
	c.Ob(key+"/RunAll/outcomes", text, len(seen) == len(want), w(c, k, "RunAll"), "%d of %d courses of events", len(seen), len(want))
	c.Done(m, key+"/RunAll")
}
