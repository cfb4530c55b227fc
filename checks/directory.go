package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"agverif/engine"
)

// The contents of a directory, entry by entry: entries named f1, f2, ... are
// files, entries named d1, d2, ... are directories. Nothing else is known of
// them.

// entryID is the name given to an entry.
func entryID(v engine.Val) string {
	if i, ok := v.(*engine.Iface); ok {
		v = i.V
	}
	if t, ok := v.(*engine.Tok); ok && strings.HasPrefix(t.ID, "⟨entry ") {
		return strings.TrimSuffix(strings.TrimPrefix(t.ID, "⟨entry "), "⟩")
	}
	return ""
}

func (c *C) ioType(pkg, name string) types.Type {
	for _, p := range c.W.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	panic(Missing("type " + pkg + "." + name))
}

func (c *C) entryT() types.Type { return c.ioType("io/fs", "DirEntry") }

// Entry is a directory entry.
func (c *C) Entry(id string) engine.Val { return engine.NewNonNil("entry "+id, c.entryT()) }

// EntryName is the name of an entry.
func EntryName(id string) engine.Val { return engine.NewTok("name of "+id, types.Typ[types.String]) }

// EntrySlice is a slice of entries.
func (c *C) EntrySlice(s *engine.State, what string, ids ...string) engine.Val {
	var vs []engine.Val
	for _, i := range ids {
		vs = append(vs, c.Entry(i))
	}
	return s.NewSlice(what, types.NewSlice(c.entryT()), vs...)
}

// EntryIDs names the elements of a slice of entries.
func (c *C) EntryIDs(s *engine.State, v engine.Val) ([]string, bool) {
	es, ok := s.SliceElems(v, c.entryT())
	if !ok {
		return nil, false
	}
	out := []string{}
	for _, e := range es {
		id := entryID(e)
		if id == "" {
			id = e.Key()
		}
		out = append(out, id)
	}
	return out, true
}

func kindOf(ids []string, k byte) []string {
	out := []string{}
	for _, i := range ids {
		if i[0] == k {
			out = append(out, i)
		}
	}
	return out
}

// fnName is the name of the function called, without type arguments.
func fnName(e *engine.Event) string {
	n := e.Name()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	return n
}

// Listing models a directory with these entries: reading it gives them in this
// order, sorting arranges the highest number first (so that it can be told
// whether something was sorted), and nothing else is assumed.
func (c *C) Listing(next func(*engine.State, *engine.Event) ([]engine.Alt, bool), ids ...string) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
	str := types.Typ[types.String]
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		if e.Method != nil && e.Recv != nil {
			if id := entryID(e.Recv); id != "" {
				switch e.Method.Name() {
				case "IsDir":
					return one(engine.Bool(id[0] == 'd'))
				case "Name":
					return one(EntryName(id))
				case "Info":
					return one(engine.NewNonNil("info of "+id, e.Sig.Results().At(0).Type()), engine.NewTok("info error of "+id, errT))
				}
			}
		}
		switch What(e) {
		case "readDirectory":
			return one(c.EntrySlice(s, "listing", ids...), engine.Nil)
		case "sort":
			if len(e.Args) > 0 {
				es, ok := s.SliceElems(e.Args[0], c.entryT())
				if ref, isRef := e.Args[0].(*engine.SliceRef); ok && isRef {
					sort.SliceStable(es, func(i, j int) bool { return entryID(es[i]) > entryID(es[j]) })
					for i, v := range es {
						s.StoreTo(&engine.Ptr{Obj: ref.Obj, Path: fmt.Sprintf("[%d]", ref.Lo+i)}, v, c.entryT())
					}
				}
				return one()
			}
		case "fileSubPath", "directorySubPath":
			return one(engine.NewTok("sub path", str))
		}
		switch fnName(e) {
		case "github.com/snivilised/nefilim.Separate", "nefilim.Separate":
			if l, ok := c.EntryIDs(s, e.Args[0]); ok {
				return one(c.EntrySlice(s, "files "+strings.Join(l, ","), kindOf(l, 'f')...),
					c.EntrySlice(s, "directories "+strings.Join(l, ","), kindOf(l, 'd')...))
			}
		case "path/filepath.Join", "filepath.Join":
			if vs, ok := s.SliceElems(e.Args[0], str); ok {
				return one(engine.MkApp("join", str, vs...))
			}
		}
		if next != nil {
			return next(s, e)
		}
		return LibModel(s, e)
	}
}

// listings are the directories considered: how many of each kind, and how they are mixed.
var listings = []string{"", "f1", "d1", "f1 f2 f3", "d1 d2 d3", "f1 d1 f2 d2", "d1 f1 d2 f2 f3"}

func init() {
	register(&Check{ID: "P04", Min: 40,
		Rule: "every abstract path of the visit of a directory with given entries: the sequence of the children that are visited, and what each child's node is made of",
		Run:  runP04})
}

func reversed(l []string) []string {
	out := make([]string, len(l))
	for i, x := range l {
		out[len(l)-1-i] = x
	}
	return out
}

func runP04(c *C) {
	w := c.W
	str := types.Typ[types.String]
	for _, sub := range Subscriptions {
		for _, filesFirst := range []bool{false, true} {
			for _, l := range listings {
				ids := strings.Fields(l)
				if sub != "SubscribeUniversal" && len(ids) < 3 && filesFirst {
					continue
				}
				name := fmt.Sprintf("%s/files first=%v/[%s]", sub, filesFirst, l)
				m := c.Machine()
				ds, fs := reversed(kindOf(ids, 'd')), reversed(kindOf(ids, 'f'))
				want := append(append([]string{}, ds...), fs...)
				if filesFirst {
					want = append(append([]string{}, fs...), ds...)
				}
				if sub == "SubscribeDirectories" || sub == "SubscribeDirectoriesWithFiles" {
					want = ds
				}
				m.Model = c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
					switch What(e) {
					case "client":
						return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
					case "skip.Ask":
						return []engine.Alt{{Results: []engine.Val{w.Const("enums", "SkipNoneTraversal"), engine.Nil}}}, true
					case "visit":
						t, f := engine.Bool(true), engine.Bool(false)
						return []engine.Alt{{Results: []engine.Val{t, engine.Nil}}, {Results: []engine.Val{f, engine.Nil}}}, true
					}
					return LibModel(s, e)
				}, ids...)
				where := "tree"
				c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
					if kind == "ret" && what == "readDirectory" {
						s.Mon["read"] = "yes"
					}
					if kind != "call" {
						return
					}
					switch what {
					case "onDescend":
						for _, a := range e.Args {
							if n := c.NodeOf(s, a); n != nil {
								s.Vals["node"] = n
							}
						}
					case "client":
						c.Ob(name+"/"+where+"/order", "a directory is given to the client before its children are visited", s.Mon["seq"] == "", c.locate(e), "%s", path(s))
					case "visit":
						var n engine.Val
						for _, a := range e.Args {
							if x := c.NodeOf(s, a); x != nil {
								n = x
							}
						}
						if n == nil {
							c.Ob(name+"/child", "the child visited is known", false, c.locate(e), "%s", path(s))
							return
						}
						get := func(f string, t types.Type) engine.Val {
							return s.Load(&engine.Ptr{Obj: objOf(n), Path: "." + f}, t)
						}
						id := entryID(get("Entry", c.entryT()))
						s.Mon["seq"] = strings.TrimSpace(s.Mon["seq"] + " " + id)
						if id == "" {
							return
						}
						c.Ob(name+"/kind", "the child's node is a directory precisely when its entry is",
							func() bool { d, k := c.IsDir(m, s, n); return k && d == (id[0] == 'd') }(), c.locate(e), "%s", id)
						p := s.Load(&engine.Ptr{Obj: objOf(s.Vals["node"]), Path: ".Path"}, str)
						c.Ob(name+"/path", "the child's path is made of the parent's path and the entry's name",
							get("Path", str).Key() == engine.MkApp("join", str, p, EntryName(id)).Key(), c.locate(e), "it is %s", get("Path", str).Key())
						c.Ob(name+"/parent", "the child's parent is the node visited",
							bareKey(get("Parent", types.NewPointer(c.nodeT()))) == bareKey(s.Vals["node"]), c.locate(e), "it is %s", get("Parent", types.NewPointer(c.nodeT())).Key())
						c.Ob(name+"/info", "the child's info and error are those of its entry",
							bareKey(get("Info", errT)) == "⟨info of "+id+"⟩" && bareKey(get("Error", errT)) == "⟨info error of "+id+"⟩", c.locate(e), "%s %s", get("Info", errT).Key(), get("Error", errT).Key())
					}
				})
				st := c.Init(m, NavInit...)
				var extra []Setting
				if filesFirst {
					extra = append(extra, Setting{Name: "WithSortBehaviour", Make: func(st *engine.State) []engine.Val {
						return []engine.Val{c.object(st, "sort behaviour", w.Named("pref", "SortBehaviour"), map[string]engine.Val{".SortFilesFirst": engine.Bool(true)})}
					}})
				}
				t := c.NewTravel(name, m, st, c.Plain(sub, st, extra...))
				judge := func(outs []engine.Outcome) {
					n := 0
					for _, o := range outs {
						if o.Panicked {
							c.Ob(name+"/"+where+"/completes", "the visit completes", false, "-", "it panics: %s: %s", o.PanicVal.Key(), path(o.State))
							continue
						}
						if o.State.Mon["read"] != "yes" {
							continue
						}
						n++
						c.Ob(name+"/"+where+"/sequence", "each child to be visited is visited once, in order", o.State.Mon["seq"] == strings.Join(want, " "), "-",
							"visited: %s, instead of: %s", o.State.Mon["seq"], strings.Join(want, " "))
					}
					c.Ob(name+"/"+where+"/read", "the directory is read", n > 0, "-", "no path reads it")
				}
				judge(t.Run(nil))
				if len(want) > 0 {
					where = "node"
					judge(t.Visit(func(s *engine.State) {
						s.Assume(s.Load(&engine.Ptr{Obj: "*" + t.Node().Key(), Path: c.dirField()}, types.Typ[types.Bool]), true)
						s.Vals["node"] = t.Node()
					}))
				}
				if !c.Done(m, name) {
					return
				}
			}
		}
	}
}
