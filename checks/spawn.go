package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P27", Min: 200,
		Rule: "every abstract path of spawn resumes over a tree with given entries, for each entry as the resume point: the sequence of nodes the client is invoked for, their depths and the tree their sub paths refer to",
		Run:  runP27})
}

// A grove is a tree of entries: each directory's contents in the order in
// which they are traversed. "" is the tree itself.
type grove map[string][]string

func (g grove) preorder(id string, sub string) []string {
	var out []string
	isDir := id == "" || id[0] == 'd'
	switch sub {
	case "SubscribeUniversal":
		out = append(out, id)
	case "SubscribeFiles":
		if !isDir {
			out = append(out, id)
		}
	default:
		if isDir {
			out = append(out, id)
		}
	}
	for _, k := range g[id] {
		out = append(out, g.preorder(k, sub)...)
	}
	return out
}

func (g grove) parent(id string) string {
	for p, ks := range g {
		for _, k := range ks {
			if k == id {
				return p
			}
		}
	}
	return ""
}

func (g grove) depth(id string) int {
	n := 0
	for ; id != ""; id = g.parent(id) {
		n++
	}
	return n
}

// ordered arranges each directory's contents as they are traversed: sorting
// arranges the highest number first.
func (g grove) ordered(filesFirst bool) grove {
	out := grove{}
	for p, ks := range g {
		l := append([]string{}, ks...)
		sort.Slice(l, func(i, j int) bool {
			if l[i][0] != l[j][0] {
				return (l[i][0] == 'f') == filesFirst
			}
			return l[i] > l[j]
		})
		out[p] = l
	}
	return out
}

var strT = types.Typ[types.String]

// place is the clean path of an entry.
func (g grove) place(id string) engine.Val {
	if id == "" {
		return engine.NewTok("clean tree", strT)
	}
	return engine.MkApp("join", strT, g.place(g.parent(id)), EntryName(id))
}

func (g grove) at(key string) (string, bool) {
	if key == "⟨tree⟩" {
		return "", true
	}
	for p, ks := range g {
		if g.place(p).Key() == key {
			return p, true
		}
		for _, k := range ks {
			if g.place(k).Key() == key {
				return k, true
			}
		}
	}
	return "", false
}

// paths models the functions that compute paths, as rewriting of the way a
// path is composed of a tree and names. Unless it is absolute, joining doesn't
// clean.
func (g grove) paths(absolute bool, next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
	var clean func(v engine.Val) engine.Val
	clean = func(v engine.Val) engine.Val {
		switch x := v.(type) {
		case *engine.Tok:
			if x.ID == "⟨tree⟩" {
				return engine.NewTok("clean tree", strT)
			}
		case *engine.App:
			switch x.Op {
			case "raw join", "join":
				return engine.MkApp("join", strT, append([]engine.Val{clean(x.Args[0])}, x.Args[1:]...)...)
			case "with separator":
				return clean(x.Args[0])
			}
		}
		return v
	}
	// split takes the last name off a path
	split := func(v engine.Val) (engine.Val, engine.Val, bool) {
		if x, ok := v.(*engine.App); ok && (x.Op == "join" || x.Op == "raw join") && len(x.Args) == 2 {
			return x.Args[0], x.Args[1], true
		}
		return nil, nil, false
	}
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		name, lib := "", false
		switch {
		case e.Method != nil && e.Recv != nil:
			name = e.Method.Name()
		case e.Fn != nil && e.Fn.Pkg != nil && (e.Fn.Pkg.Pkg.Path() == "path/filepath" || e.Fn.Pkg.Pkg.Path() == "path"):
			name, lib = e.Fn.Name(), true
		}
		if len(e.Args) == 0 {
			return next(s, e)
		}
		a := e.Args[len(e.Args)-1]
		abs := absolute || lib
		switch name {
		case "Clean":
			return one(clean(a))
		case "Join":
			vs, ok := s.SliceElems(a, strT)
			if ok && len(vs) == 2 {
				if abs {
					return one(engine.MkApp("join", strT, clean(vs[0]), vs[1]))
				}
				return one(engine.MkApp("raw join", strT, vs...))
			}
		case "Dir":
			if d, _, ok := split(a); ok {
				return one(d)
			}
		case "Base":
			if _, b, ok := split(a); ok {
				return one(b)
			}
		case "Split":
			if d, b, ok := split(a); ok {
				if abs {
					d = engine.MkApp("with separator", strT, d)
				}
				return one(d, b)
			}
		}
		return next(s, e)
	}
}

func runP27(c *C) {
	w := c.W
	num := types.Typ[types.Int]
	g := grove{"": {"f1", "d1", "f2", "d2"}, "d1": {"f3", "d3", "f4"}, "d3": {"f5", "f6"}, "d2": {"f7"}}
	type mode struct {
		sub                       string
		filesFirst, absolute, end bool
		// skips: the client may ask to skip directories
		skips bool
	}
	var modes []mode
	for _, sub := range Subscriptions {
		modes = append(modes, mode{sub: sub, absolute: true}, mode{sub: sub})
	}
	modes = append(modes, mode{sub: "SubscribeUniversal", filesFirst: true, absolute: true}, mode{sub: "SubscribeFiles", filesFirst: true, absolute: true}, mode{sub: "SubscribeUniversal", absolute: true, end: true},
		mode{sub: "SubscribeUniversal", absolute: true, skips: true}, mode{sub: "SubscribeDirectories", absolute: true, skips: true})
	for _, md := range modes {
		og := g.ordered(md.filesFirst)
		all := og.preorder("", md.sub)
		for i, point := range all {
			want := all[i:]
			name := fmt.Sprintf("%s/files first=%v/absolute=%v/ends=%v/at %s", md.sub, md.filesFirst, md.absolute, md.end, point)
			if md.skips {
				name += "/skips"
			}
			m := c.Machine()
			m.Opaque = metricsOpaque(c, m.Opaque)
			m.Unroll = 16
			m.Recur = 6
			source := g.place(point)
			if point == "" {
				source = engine.NewTok("tree", strT)
			}
			node := func(s *engine.State, n engine.Val) string {
				p := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Path"}, strT)
				id, ok := g.at(p.Key())
				if !ok {
					return p.Key()
				}
				return id
			}
			list := c.Listing(c.calmly)
			m.Model = c.Reading(Saved{Active: map[string]engine.Val{
				".Tree": engine.NewTok("tree", strT), ".CurrentPath": source, ".Subscription": w.Const("enums", md.sub),
				".IsDir": engine.Bool(point == "" || point[0] == 'd'), ".Depth": engine.Int(int64(g.depth(point))),
			}}, g.paths(md.absolute, func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
				switch What(e) {
				case "readDirectory":
					id, ok := g.at(e.Args[len(e.Args)-1].Key())
					if !ok {
						c.Ob(name+"/read", "only the directories of the tree are read, by their clean path", false, c.locate(e), "%s is read", e.Args[len(e.Args)-1].Key())
						return []engine.Alt{{Results: []engine.Val{engine.Nil, engine.NewNonNil("error of the read", errT)}}}, true
					}
					return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil}}}, true
				case "queryStatus":
					p := e.Args[len(e.Args)-1].Key()
					id, ok := g.at(p)
					c.Ob(name+"/spawned", "the nodes visited have clean paths", ok, c.locate(e), "%s", p)
					return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("status of "+id, e.Sig.Results().At(0).Type()), engine.Nil}}}, true
				case "client":
					if n := c.nodeArg(s, e); md.skips && n != nil {
						id := node(s, n)
						if id != "" && id[0] == 'd' {
							return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{c.Sentinel("io/fs", "SkipDir")}}}, true
						}
					}
					if !md.end {
						return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
					}
					return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{c.Sentinel("io/fs", "SkipAll")}}, {Results: []engine.Val{engine.NewNonNil("error of the client", errT)}}}, true
				}
				if e.Method != nil && e.Recv != nil && e.Method.Name() == "IsDir" && strings.HasPrefix(bareKey(e.Recv), "⟨status of ") {
					id := strings.TrimSuffix(strings.TrimPrefix(bareKey(e.Recv), "⟨status of "), "⟩")
					return []engine.Alt{{Results: []engine.Val{engine.Bool(id == "" || id[0] == 'd')}}}, true
				}
				return list(s, e)
			}))
			c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
				switch {
				case kind == "ret" && what == "client" && md.skips:
					if n := c.nodeArg(s, e); n != nil && !engine.IsNil(e.Results[0]) {
						s.Mon["skipped"] += node(s, n) + " "
						s.Note("skip %s", node(s, n))
					}
				case kind == "ret" && what == "client":
					if !engine.IsNil(e.Results[0]) {
						s.Mon["stopped"] = e.Results[0].Key()
					}
				case kind != "call":
				case what == "client":
					c.Ob(name+"/stopped", "nothing is visited once the traversal has ended", s.Mon["stopped"] == "", c.locate(e), "%s", path(s))
					n := c.nodeArg(s, e)
					if n == nil {
						c.Ob(name+"/node", "the node is known", false, c.locate(e), "%s", path(s))
						return
					}
					id := node(s, n)
					s.Mon["seq"] += id + " "
					if _, ok := g.at(g.place(id).Key()); !ok {
						return
					}
					d := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Depth"}, num)
					c.Ob(name+"/depth", "the depth of each node is that in the original tree", d.Key() == engine.Int(int64(g.depth(id))).Key(), c.locate(e), "%s at depth %s: %s", id, d.Key(), path(s))
				case what == "fileSubPath" || what == "directorySubPath":
					for _, a := range e.Args {
						if p, ok := a.(*engine.Ptr); ok {
							t := s.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + ".Tree"}, strT)
							c.Ob(name+"/sub-path", "sub paths refer to the original tree", t.Key() == "⟨tree⟩", c.locate(e), "%s", t.Key())
						}
					}
				}
			})
			st := c.Init(m, NavInit...)
			st.Assume(engine.Eq(engine.NewTok("tree", strT), engine.Str("")), false)
			for _, x := range []string{"SkipDir", "SkipAll"} {
				st.Assume(Is(engine.NewNonNil("error of the client", errT), c.Sentinel("io/fs", x)), false)
			}
			g.distinct(st)
			var extra []Setting
			if md.filesFirst {
				extra = append(extra, Setting{Name: "WithSortBehaviour", Make: func(st *engine.State) []engine.Val {
					return []engine.Val{c.object(st, "sort behaviour", w.Named("pref", "SortBehaviour"), map[string]engine.Val{".SortFilesFirst": engine.True})}
				}})
			}
			t := c.NewTravel(name, m, st, c.Resumed("ResumeStrategySpawn", st, extra...))
			n := 0
			for _, o := range t.Run(nil) {
				if o.Panicked {
					c.Ob(name+"/completes", "the navigation completes", false, "-", "it panics: %s: %s", o.PanicVal.Key(), path(o.State))
					continue
				}
				got := strings.TrimSpace(strings.ReplaceAll(" "+o.State.Mon["seq"], "  ", " . "))
				var due []string
				for _, id := range want {
					skipped := false
					for p := id; p != ""; {
						p = g.parent(p)
						skipped = skipped || strings.Contains(" "+o.State.Mon["skipped"], " "+p+" ")
					}
					if !skipped {
						due = append(due, id)
					}
				}
				exp := strings.TrimSpace(strings.ReplaceAll(" "+strings.Join(due, " ")+" ", "  ", " . "))
				stopped := o.State.Mon["stopped"]
				switch {
				case stopped == "":
					n++
					c.Ob(name+"/sequence", "the client is invoked for the nodes that remain, each once, in the order of traversal", got == exp, "-", "invoked for [%s] instead of [%s]: %s", got, exp, path(o.State))
					c.Ob(name+"/error", "a resume that nothing stops ends without an error", engine.IsNil(o.Results[1]), "-", "%s", o.Results[1].Key())
				case strings.Contains(stopped, "SkipAll"):
					c.Ob(name+"/skip", "skipping all that remains is not an error", engine.IsNil(o.Results[1]), "-", "%s: %s", o.Results[1].Key(), path(o.State))
				default:
					c.Ob(name+"/reported", "the client's error is returned", bareKey(o.Results[1]) == "⟨error of the client⟩", "-", "%s: %s", o.Results[1].Key(), path(o.State))
				}
			}
			c.Ob(name+"/judged", "the resume is analysed to its end", n > 0, "-", "no path reaches it")
			if !c.Done(m, name) {
				return
			}
		}
	}
}

// distinct: no two of the entries have the same path.
func (g grove) distinct(st *engine.State) {
	ids := []string{""}
	for _, ks := range g {
		ids = append(ids, ks...)
		for a := range ks {
			for b := range ks[:a] {
				st.Assume(engine.Eq(EntryName(ks[a]), EntryName(ks[b])), false)
			}
		}
	}
	sort.Strings(ids)
	for i := range ids {
		st.Assume(engine.Eq(g.place(ids[i]), engine.Str(".")), false)
		for j := range ids[:i] {
			st.Assume(engine.Eq(g.place(ids[i]), g.place(ids[j])), false)
		}
	}
}

// contents models the entries of the grove: each directory can be read, and
// the status of each is known.
func (g grove) contents(c *C, next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	list := c.Listing(next)
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		switch What(e) {
		case "readDirectory":
			id, _ := g.at(e.Args[len(e.Args)-1].Key())
			return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "contents of "+id, g[id]...), engine.Nil}}}, true
		case "queryStatus":
			id, _ := g.at(e.Args[len(e.Args)-1].Key())
			return []engine.Alt{{Results: []engine.Val{engine.NewNonNil("status of "+id, e.Sig.Results().At(0).Type()), engine.Nil}}}, true
		}
		if e.Method != nil && e.Recv != nil && e.Method.Name() == "IsDir" && strings.HasPrefix(bareKey(e.Recv), "⟨status of ") {
			id := strings.TrimSuffix(strings.TrimPrefix(bareKey(e.Recv), "⟨status of "), "⟩")
			return []engine.Alt{{Results: []engine.Val{engine.Bool(id == "" || id[0] == 'd')}}}, true
		}
		return list(s, e)
	}
}

// metricsOpaque: how often things happened isn't looked at.
func metricsOpaque(c *C, op func(*ssa.Function) bool) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		recv := fn.Signature.Recv()
		return op(fn) || recv != nil && types.Identical(recv.Type(), c.W.Named("core", "Metrics"))
	}
}
