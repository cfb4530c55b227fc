package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P42", Min: 40,
		Rule: "every abstract path of sorting entries with arbitrary names, through the algorithm that is used: where the session puts one entry before another, the outcomes of the comparisons made imply that its name, folded or not, is not the greater one",
		Run:  runP42})
}

// folded is a name regardless of its case.
func folded(v engine.Val) engine.Val { return engine.MkApp("folded", types.Typ[types.String], v) }

// sorting looks into sorting; names are compared, and folded, symbolically.
func (c *C) sorting(m *engine.Machine, next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) {
	inline := m.Inline
	m.Inline = func(fn *ssa.Function) bool {
		if o := fn.Origin(); o != nil {
			fn = o
		}
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Pkg != nil && fn.Name() != "init" {
			switch fn.Pkg.Pkg.Path() {
			case "sort", "slices", "cmp":
				return fn.Blocks != nil
			}
		}
		return inline(fn)
	}
	intT := types.Typ[types.Int]
	m.Model = func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
		bare := func(v engine.Val) engine.Val {
			if i, ok := v.(*engine.Iface); ok {
				return i.V
			}
			return v
		}
		switch n := fnName(e); n {
		case "strings.ToLower", "strings.ToUpper":
			return one(folded(e.Args[0]))
		case "strings.Compare", "internal/bytealg.CompareString", "bytealg.CompareString":
			a, b := e.Args[0], e.Args[1]
			lt, gt := engine.Lt(a, b), engine.Lt(b, a)
			return []engine.Alt{
				{Results: []engine.Val{engine.IntT(-1, intT)}, Assume: []engine.Cond{{V: lt, Val: true}, {V: gt, Val: false}}, Label: "less"},
				{Results: []engine.Val{engine.IntT(0, intT)}, Assume: []engine.Cond{{V: lt, Val: false}, {V: gt, Val: false}}, Label: "equal"},
				{Results: []engine.Val{engine.IntT(1, intT)}, Assume: []engine.Cond{{V: lt, Val: false}, {V: gt, Val: true}}, Label: "greater"},
			}, true
		case "math/bits.Len", "bits.Len":
			return one(engine.IntT(3, intT))
		default:
			switch {
			case strings.HasSuffix(n, "reflectlite.ValueOf"):
				if _, ok := s.SliceElems(bare(e.Args[0]), c.entryT()); ok {
					v := engine.NewTok("value of "+bare(e.Args[0]).Key(), e.Sig.Results().At(0).Type())
					s.Vals[v.Key()] = bare(e.Args[0])
					return one(v)
				}
			case strings.HasSuffix(n, "reflectlite.Value).Len"):
				v := e.Recv
				if v == nil {
					v = e.Args[0]
				}
				if r, ok := s.Vals[v.Key()]; ok {
					es, _ := s.SliceElems(r, c.entryT())
					return one(engine.IntT(int64(len(es)), intT))
				}
			case strings.HasSuffix(n, "reflectlite.Swapper"):
				if _, ok := s.SliceElems(bare(e.Args[0]), c.entryT()); ok {
					v := engine.NewNonNil("swapper of "+bare(e.Args[0]).Key(), e.Sig.Results().At(0).Type())
					s.Vals["⟨"+strings.Trim(v.Key(), "⟨⟩")+"⟩"] = bare(e.Args[0])
					return one(v)
				}
			case strings.HasPrefix(What(e), "swapper of "):
				r, ok := s.Vals["⟨"+What(e)+"⟩"].(*engine.SliceRef)
				i, iok := engine.IntOf(e.Args[0])
				j, jok := engine.IntOf(e.Args[1])
				if ok && iok && jok {
					at := func(k int64) *engine.Ptr {
						return &engine.Ptr{Obj: r.Obj, Path: fmt.Sprintf("[%d]", int64(r.Lo)+k)}
					}
					x, y := s.Load(at(i), c.entryT()), s.Load(at(j), c.entryT())
					s.StoreTo(at(i), y, c.entryT())
					s.StoreTo(at(j), x, c.entryT())
					return one()
				}
			}
		}
		return next(s, e)
	}
}

// ordered says which two of the entries, in this sequence, are not known to be in order.
func ordered(s *engine.State, ids []string, key func(engine.Val) engine.Val) string {
	le := func(a, b string) bool {
		x, y := key(EntryName(a)), key(EntryName(b))
		if v, ok := s.Known(engine.Lt(y, x)); ok && !v {
			return true
		}
		v, ok := s.Known(engine.Lt(x, y))
		return ok && v
	}
	var reach func(a, b string, seen map[string]bool) bool
	reach = func(a, b string, seen map[string]bool) bool {
		if le(a, b) {
			return true
		}
		seen[a] = true
		for _, x := range ids {
			if !seen[x] && le(a, x) && reach(x, b, seen) {
				return true
			}
		}
		return false
	}
	for i := 1; i < len(ids); i++ {
		if !reach(ids[i-1], ids[i], map[string]bool{}) {
			return ids[i-1] + " before " + ids[i]
		}
	}
	return ""
}

func runP42(c *C) {
	w := c.W
	raw := func(v engine.Val) engine.Val { return v }
	behaviour := func(fields map[string]engine.Val) Setting {
		return Setting{Name: "WithSortBehaviour", Make: func(st *engine.State) []engine.Val {
			return []engine.Val{c.object(st, "sort behaviour", w.Named("pref", "SortBehaviour"), fields)}
		}}
	}
	sensitive := behaviour(map[string]engine.Val{".IsCaseSensitive": engine.True})
	type mode struct {
		name, sub, tree string
		settings        []Setting
		key             func(engine.Val) engine.Val
		filesFirst      bool
		given           bool
		saved           map[string]engine.Val // a session that resumes with these
	}
	modes := []mode{
		{"by default", "SubscribeUniversal", "d1 f1 d2 f2 f3", nil, folded, false, false, nil},
		{"by default", "SubscribeFiles", "f1 f2 f3 f4", nil, folded, false, false, nil},
		{"by default", "SubscribeDirectories", "d1 d2 d3", nil, folded, false, false, nil},
		{"by default", "SubscribeDirectoriesWithFiles", "d1 f1 d2 f2 f3", nil, folded, false, false, nil},
		{"by default", "SubscribeFiles", "f1 d1", nil, folded, false, false, nil},
		{"sort hook", "SubscribeUniversal", "d1 f1 d2 f2 f3", []Setting{{Name: "WithHookCaseSensitiveSort"}}, raw, false, false, nil},
		{"sort hook", "SubscribeFiles", "f1 f2 f3 f4", []Setting{{Name: "WithHookCaseSensitiveSort"}}, raw, false, false, nil},
		{"behaviour", "SubscribeUniversal", "d1 f1 d2 f2 f3", []Setting{sensitive}, raw, false, false, nil},
		{"behaviour", "SubscribeDirectories", "d1 d2 d3", []Setting{sensitive}, raw, false, false, nil},
		{"behaviour, files first", "SubscribeUniversal", "d1 d2 f1 f2", []Setting{behaviour(map[string]engine.Val{".IsCaseSensitive": engine.True, ".SortFilesFirst": engine.True})}, raw, true, false, nil},
		{"files first", "SubscribeUniversal", "d1 d2 f1 f2", []Setting{behaviour(map[string]engine.Val{".SortFilesFirst": engine.True})}, folded, true, false, nil},
		{"behaviour and sort hook", "SubscribeFiles", "f1 f2 f3", []Setting{{Name: "WithHookCaseSensitiveSort"}, behaviour(nil)}, raw, false, false, nil},
		{"behaviour and a hook", "SubscribeFiles", "f1 f2 f3", []Setting{sensitive, c.Opaque("WithHookSort", "sort")}, nil, false, false, nil},
		{"a hook and behaviour", "SubscribeFiles", "f1 f2 f3", []Setting{c.Opaque("WithHookSort", "sort"), sensitive}, nil, false, false, nil},
		{"given behaviour", "SubscribeFiles", "f1 f2 f3", []Setting{sensitive}, raw, false, true, nil},
		{"given", "SubscribeFiles", "f1 f2 f3", nil, folded, false, true, nil},
		{"resumed", "SubscribeFiles", "f1 f2 f3", nil, folded, false, false, map[string]engine.Val{}},
		{"resumed with behaviour", "SubscribeFiles", "f1 f2 f3", nil, raw, false, false, map[string]engine.Val{".Behaviours.Sort.IsCaseSensitive": engine.True}},
		{"resumed with files first", "SubscribeUniversal", "d1 d2 f1 f2", nil, raw, true, false, map[string]engine.Val{".Behaviours.Sort.IsCaseSensitive": engine.True, ".Behaviours.Sort.SortFilesFirst": engine.True}},
	}
	for _, md := range modes {
		ids := strings.Fields(md.tree)
		name := fmt.Sprintf("%s/%s/%s/given=%v", md.name, md.sub, md.tree, md.given)
		m := c.Machine()
		m.Unroll, m.Recur = 16, 2
		list := c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			switch What(e) {
			case "info.IsDir":
				return []engine.Alt{{Results: []engine.Val{engine.True}}}, true
			case "queryStatus":
				return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("info", e.Sig.Results().At(0).Type()), engine.Nil}}}, true
			case "x option":
				s.Vals["options"] = e.Args[0]
				return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
			}
			return c.calm(s, e)
		}, ids...)
		if md.saved != nil {
			list = c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) { return c.calmly(s, e) }, ids...)
			active := map[string]engine.Val{
				".Tree": engine.NewTok("tree", strT), ".CurrentPath": engine.NewTok("resume point", strT), ".Subscription": w.Const("enums", md.sub),
				".IsDir": engine.NewTok("resume point is a directory", types.Typ[types.Bool]), ".Depth": engine.NewTok("depth of the resume point", types.Typ[types.Int]),
			}
			list = c.calc(c.Reading(Saved{Active: active, Options: md.saved}, list), false)
			m.AnyOrder = true
		}
		c.sorting(m, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" && e.Args[len(e.Args)-1].Key() != "⟨tree⟩" {
				return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "nothing"), engine.Nil}}}, true
			}
			return list(s, e)
		})
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			if what != "client" || kind != "call" {
				return
			}
			for _, a := range e.Args {
				if n := c.NodeOf(s, a); n != nil {
					if ch, ok := c.EntryIDs(s, s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Children"}, types.NewSlice(c.entryT()))); ok && len(ch) > 0 {
						s.Mon["children"] = strings.Join(ch, " ")
					}
					if id := entryID(s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Entry"}, c.entryT())); id != "" {
						s.Mon["seq"] = strings.TrimSpace(s.Mon["seq"] + " " + id)
					}
				}
			}
		})
		st := c.Init(m, NavInit...)
		var keep []Setting
		for _, o := range c.Observers() {
			if o.Name != "WithHookSort" {
				keep = append(keep, o)
			}
		}
		sess := c.Plain(md.sub, st)
		if md.saved != nil {
			sess = c.Resumed("ResumeStrategyFastward", st)
		}
		set := c.Options(append(keep, md.settings...)...)
		sess.Settings = func(m *engine.Machine, st *engine.State) (*engine.State, []engine.Val) {
			st, vs := set(m, st)
			return st, append(vs, engine.NewNonNil("x option", w.Type("pref", "Option")))
		}
		if md.given {
			for _, b := range c.Build(m, st.Clone(), sess) {
				if !b.Panicked && b.State.Vals["options"] != nil {
					st = b.State
				}
			}
			o := st.Vals["options"]
			c.Ob(name+"/given", "there are options to give", o != nil, "-", "none")
			if o == nil {
				continue
			}
			sess.Facade["O"] = o
			sess.Settings = nil
		}
		t := c.NewTravel(name, m, st, sess)
		n := 0
		longest := 0
		for _, o := range t.Run(nil) {
			if o.Panicked {
				c.Ob(name+"/completes", "the navigation completes", false, "-", "it panics: %s: %s", o.PanicVal.Key(), path(o.State))
				continue
			}
			n++
			seq := strings.Fields(o.State.Mon["seq"])
			longest = max(longest, len(seq))
			var want []string
			for _, id := range ids {
				switch md.sub {
				case "SubscribeFiles":
					if id[0] != 'f' {
						continue
					}
				case "SubscribeDirectories", "SubscribeDirectoriesWithFiles":
					if id[0] != 'd' {
						continue
					}
				}
				want = append(want, id)
			}
			c.Ob(name+"/all", "every entry is visited", len(seq) == len(want) || md.saved != nil, "-", "visited: %v of %v: %s", seq, want, path(o.State))
			if md.key == nil {
				c.Ob(name+"/hook", "a client's own hook decides about the order", strings.Join(seq, " ") == "f3 f2 f1", "-", "visited: %v", seq)
				continue
			}
			for _, k := range []byte{'d', 'f'} {
				bad := ordered(o.State, kindOf(seq, k), md.key)
				c.Ob(name+"/"+string(k), "the entries of a kind are visited in the order of their names", bad == "", "-", "visits %s whatever their names: %s", bad, path(o.State))
			}
			if md.sub == "SubscribeDirectoriesWithFiles" {
				ch := strings.Fields(o.State.Mon["children"])
				bad := ordered(o.State, ch, md.key)
				c.Ob(name+"/children", "the files of a directory are handed over in the order of their names", bad == "" && len(ch) == len(kindOf(ids, 'f')), "-", "%v: %s: %s", ch, bad, path(o.State))
			}
			if md.filesFirst && len(seq) > 0 {
				c.Ob(name+"/files first", "files are visited first", strings.LastIndex(o.State.Mon["seq"], "f") < strings.Index(o.State.Mon["seq"]+"d", "d"), "-", "%v", seq)
			}
		}
		c.Ob(name+"/paths", "different orders come about", n > 1 && longest > 1 || md.key == nil || len(ids) < 3, "-", "%d paths, of up to %d visits", n, longest)
		if !c.Done(m, name) {
			return
		}
	}
}
