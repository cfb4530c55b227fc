package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P21", Min: 30,
		Rule: "every abstract path of the visit of a directory with given entries, whatever the child filter answers: the node's children when the client is invoked, and what the metrics count",
		Run:  runP21})
	register(&Check{ID: "P22", Min: 40,
		Rule: "every abstract path of the visit of a directory with given entries under sampling: the sequence of the children that are visited, for each quantity, direction and answer of the sample filter",
		Run:  runP22})
}

// Matches is the condition that a pattern matches a name.
func Matches(pattern, name engine.Val) engine.Val {
	return engine.MkApp("matches", types.Typ[types.Bool], pattern, name)
}

// Matching models the matching of names: an arbitrary relation between
// patterns and names. A pattern may not be well formed.
func (c *C) Matching(next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		re := func(p engine.Val) engine.Val {
			t := e.Sig.Results().At(0).Type()
			return engine.NewNonNil("regexp "+p.Key(), t)
		}
		pattern := func(v engine.Val) (engine.Val, bool) {
			k := v.Key()
			if strings.HasPrefix(k, "⟨regexp ") {
				return engine.NewTok(strings.TrimSuffix(strings.TrimPrefix(k, "⟨regexp ⟨"), "⟩⟩"), types.Typ[types.String]), true
			}
			return nil, false
		}
		switch fnName(e) {
		case "path/filepath.Match", "filepath.Match", "path.Match":
			return one(Matches(e.Args[0], e.Args[1]), engine.Nil)
		case "regexp.Compile":
			bad := engine.NewNonNil("malformed "+e.Args[0].Key(), errT)
			return []engine.Alt{{Results: []engine.Val{re(e.Args[0]), engine.Nil}}, {Results: []engine.Val{engine.Nil, bad}, Assume: c.fails(bad), Label: "malformed pattern"}}, true
		case "regexp.MustCompile":
			return []engine.Alt{{Results: []engine.Val{re(e.Args[0])}}, {Panics: true, Label: "malformed pattern"}}, true
		case "regexp.(*Regexp).MatchString", "(*regexp.Regexp).MatchString":
			if p, ok := pattern(e.Args[0]); ok {
				return one(Matches(p, e.Args[1]))
			}
		}
		if next != nil {
			return next(s, e)
		}
		return LibModel(s, e)
	}
}

// fails: an error that is not a request to skip.
func (c *C) fails(e engine.Val) []engine.Cond {
	return []engine.Cond{
		{V: Is(e, c.Sentinel("io/fs", "SkipDir")), Val: false},
		{V: Is(e, c.Sentinel("io/fs", "SkipAll")), Val: false},
	}
}

// calm: nothing fails and nobody asks to skip.
func (c *C) calm(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
	switch What(e) {
	case "client":
		return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
	case "skip.Ask":
		return []engine.Alt{{Results: []engine.Val{c.W.Const("enums", "SkipNoneTraversal"), engine.Nil}}}, true
	case "visit":
		return []engine.Alt{{Results: []engine.Val{engine.NewTok("progress", types.Typ[types.Bool]), engine.Nil}}}, true
	}
	return LibModel(s, e)
}

func (t *Travel) visitDirectory(start func(*engine.State)) []engine.Outcome {
	return t.Visit(func(s *engine.State) {
		s.Assume(s.Load(&engine.Ptr{Obj: "*" + t.Node().Key(), Path: t.c.dirField()}, types.Typ[types.Bool]), true)
		s.Vals["node"] = t.Node()
		if start != nil {
			start(s)
		}
	})
}

// filterDef makes a filter definition.
func (c *C) filterDef(st *engine.State, id, typeName, kind string, fields map[string]engine.Val) engine.Val {
	f := map[string]engine.Val{".Type": c.W.Const("enums", kind), ".Pattern": c.pattern(st, id)}
	for k, v := range fields {
		f[k] = v
	}
	return c.object(st, id, c.W.Named("core", typeName), f)
}

// pattern is any pattern but the empty one.
func (c *C) pattern(st *engine.State, id string) engine.Val {
	p := engine.NewTok("pattern of "+id, types.Typ[types.String])
	st.Assume(engine.Eq(p, engine.Str("")), false)
	return p
}

func runP21(c *C) {
	sub := "SubscribeDirectoriesWithFiles"
	type mode struct {
		name, kind string
		negate     bool
		custom     bool
	}
	modes := []mode{{name: "no filter"}}
	for _, k := range []string{"FilterTypeGlob", "FilterTypeRegex"} {
		for _, n := range []bool{false, true} {
			modes = append(modes, mode{k, k, n, false}, mode{k + " and node filter", k, n, true})
		}
	}
	for _, md := range modes {
		for _, l := range []string{"", "d1", "f1 d1 f2", "f1 f2 f3"} {
			ids := strings.Fields(l)
			files := sortedDown(kindOf(ids, 'f'))
			name := fmt.Sprintf("%s/negate=%v/[%s]", md.name, md.negate, l)
			m := c.Machine()
			m.Unroll = 16
			m.Model = c.Matching(c.Listing(c.calm, ids...))
			judged := 0
			where := "tree"
			pat := engine.NewTok("pattern of child filter", types.Typ[types.String])
			// the expected children, once all answers are known
			want := func(s *engine.State) ([]string, bool) {
				out := []string{}
				for _, f := range files {
					if md.kind == "" {
						out = append(out, f)
						continue
					}
					yes, known := s.Known(Matches(pat, EntryName(f)))
					if !known {
						return nil, false
					}
					if yes != md.negate {
						out = append(out, f)
					}
				}
				return out, true
			}
			c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
				if what == "filter.IsMatch" && kind == "ret" {
					s.Vals["match"] = e.Results[0]
				}
				if kind != "call" || what != "client" {
					return
				}
				s.Mon["client"] = "yes"
				n := c.NodeOf(s, e.Args[0])
				dir, known := c.IsDir(m, s, n)
				if known && !dir {
					return
				}
				ch := s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Children"}, types.NewSlice(c.entryT()))
				got, ok := c.EntryIDs(s, ch)
				w, all := want(s)
				judged++
				c.Ob(name+"/"+where+"/children", "the client is given the directory with exactly those of its files that the child filter admits, in order",
					ok && all && strings.Join(got, " ") == strings.Join(w, " "), c.locate(e), "%v %s instead of %v: %s", got, ch.Key(), w, path(s))
			})
			st := c.Init(m, NavInit...)
			fo := Setting{Name: "WithFilter", Make: func(st *engine.State) []engine.Val {
				f := map[string]engine.Val{".Child": c.filterDef(st, "child filter", "ChildFilterDef", md.kind, map[string]engine.Val{".Negate": engine.Bool(md.negate)})}
				if md.custom {
					f[".Custom"] = engine.NewNonNil("filter", c.W.Type("core", "TraverseFilter"))
				}
				return []engine.Val{c.object(st, "filter options", c.W.Named("pref", "FilterOptions"), f)}
			}}
			sess := c.Plain(sub, st)
			if md.kind != "" {
				sess = c.Plain(sub, st, fo)
			}
			t := c.NewTravel(name, m, st, sess)
			judge := func(outs []engine.Outcome, before func(*engine.Ptr) engine.Val) {
				uintT := types.Typ[types.Uint]
				for _, o := range outs {
					s := o.State
					if s.Mon["client"] != "yes" && !knownFalse2(s, s.Vals["match"]) {
						continue
					}
					n := s.Vals["node"]
					if n == nil {
						continue // the tree may be a file
					}
					if dir, known := c.IsDir(m, s, n); !known || !dir {
						continue
					}
					found, out := 0, 0
					if s.Mon["client"] == "yes" {
						w, all := want(s)
						if !all {
							continue
						}
						found, out = len(w), len(files)-len(w)
					}
					for mt, k := range map[string]int{"MetricNoChildFilesFound": found, "MetricNoChildFilesFilteredOut": out} {
						p := c.metricObj(s, mt)
						if p == nil {
							c.Ob(name+"/"+where+"/"+mt, "the metric exists", md.kind == "" && k == 0, "-", "no counter for %s", mt)
							continue
						}
						b := before(p)
						v := engine.Add(b, engine.IntT(int64(k), uintT), uintT)
						now := s.Load(p, uintT)
						c.Ob(name+"/"+where+"/"+mt, "the metric counts the files the child filter admitted or left out", now.Key() == v.Key(), "-",
							"from %s to %s instead of %s: %s", b.Key(), now.Key(), v.Key(), path(s))
					}
				}
			}
			judge(t.Run(nil), func(*engine.Ptr) engine.Val { return engine.IntT(0, types.Typ[types.Uint]) })
			if !strings.Contains(l, "d") {
				c.Ob(name+"/tree/judged", "the client is invoked for the tree", judged > 0, "-", "it is not")
				if !c.Done(m, name) {
					return
				}
				continue
			}
			where = "node"
			t.markMetrics(c)
			judged = 0
			judge(t.visitDirectory(nil), func(p *engine.Ptr) engine.Val { return t.anyField(p) })
			c.Ob(name+"/node/judged", "the client is invoked for directories", judged > 0, "-", "it is not")
			if !c.Done(m, name) {
				return
			}
		}
	}
}

func knownFalse2(s *engine.State, v engine.Val) bool { return v != nil && knownFalse(s, v) }

func sortedDown(l []string) []string {
	out := append([]string{}, l...)
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] > out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func takeN(l []string, n int, reverse bool) []string {
	if n == 0 || n >= len(l) {
		return l
	}
	if reverse {
		return l[len(l)-n:]
	}
	return l[:n]
}

func runP22(c *C) {
	w := c.W
	both := "d1 f1 d2 f2 f3 d3"
	type mode struct {
		typ, filter, scope string
		negate             bool
	}
	modes := []mode{{"SampleTypeSlice", "", "", false}, {"SampleTypeFilter", "FilterTypeGlob", "ScopeFile", true}, {"SampleTypeFilter", "FilterTypeRegex", "ScopeDirectory", true}}
	for _, f := range []string{"FilterTypeGlob", "FilterTypeRegex", "FilterTypeCustom"} {
		for _, sc := range []string{"ScopeFile", "ScopeDirectory"} {
			if f == "FilterTypeCustom" && sc == "ScopeFile" {
				continue
			}
			modes = append(modes, mode{"SampleTypeFilter", f, sc, false})
		}
	}
	quantities := [][2]int{{2, 1}, {0, 0}, {1, 0}, {0, 1}, {1, 2}, {5, 5}}
	for _, sub := range Subscriptions {
		for _, md := range modes {
			for _, q := range quantities {
				if md.scope == "ScopeFile" && q[0] == 0 || md.scope == "ScopeDirectory" && q[1] == 0 {
					continue
				}
				if md.filter != "" && (q != [2]int{2, 1} && (q != [2]int{1, 2} || md.negate) || sub == "SubscribeDirectoriesWithFiles") {
					continue
				}
				lists := []string{both}
				if md.filter == "" && (q[0]+q[1] == 3 || q[0]+q[1] == 1) {
					lists = append(lists, "", "d1 d2 d3", "f1 f2 f3")
				}
				for i := 0; i < 2*len(lists); i++ {
					ids, rev := strings.Fields(lists[i/2]), i%2 == 1
					name := fmt.Sprintf("%s/%s %s %s negate=%v/%d files, %d directories, reverse=%v", sub, md.typ, md.filter, md.scope, md.negate, q[0], q[1], rev)
					if i > 1 {
						name += "/[" + lists[i/2] + "]"
					}
					m := c.Machine()
					m.Unroll = 16
					pat := engine.NewTok("pattern of sample filter", types.Typ[types.String])
					m.Model = c.Matching(c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
						if What(e) == "sampler.Matching" {
							// a custom filter may answer anything: here the first entry is left out
							if l, ok := c.EntryIDs(s, e.Args[0]); ok && len(l) > 0 {
								return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "custom sample", l[1:]...)}}}, true
							}
							return []engine.Alt{{Results: []engine.Val{e.Args[0]}}}, true
						}
						if What(e) == "sampler.Validate" {
							return []engine.Alt{{Results: []engine.Val{engine.Nil}}}, true
						}
						return c.calm(s, e)
					}, ids...))
					want := func(s *engine.State) (string, bool) {
						kept := ids
						if md.filter == "FilterTypeCustom" {
							kept = ids[1:]
						} else if md.filter != "" {
							kept = nil
							for _, i := range ids {
								if (i[0] == 'f') != (md.scope == "ScopeFile") {
									kept = append(kept, i)
									continue
								}
								yes, known := s.Known(Matches(pat, EntryName(i)))
								if !known {
									return "", false
								}
								if yes != md.negate {
									kept = append(kept, i)
								}
							}
						}
						ds := sortedDown(takeN(kindOf(kept, 'd'), q[1], rev))
						fs := sortedDown(takeN(kindOf(kept, 'f'), q[0], rev))
						if sub == "SubscribeDirectories" || sub == "SubscribeDirectoriesWithFiles" {
							fs = nil
						}
						return strings.Join(append(append([]string{}, ds...), fs...), " "), true
					}
					c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
						if kind == "ret" && what == "readDirectory" {
							s.Mon["read"] = "yes"
						}
						if kind == "call" && what == "visit" {
							for _, a := range e.Args {
								if n := c.NodeOf(s, a); n != nil {
									id := entryID(s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Entry"}, c.entryT()))
									s.Mon["seq"] = strings.TrimSpace(s.Mon["seq"] + " " + id)
								}
							}
						}
					})
					st := c.Init(m, NavInit...)
					uintT := types.Typ[types.Uint]
					extra := []Setting{{Name: "WithSamplingOptions", Make: func(st *engine.State) []engine.Val {
						return []engine.Val{c.object(st, "sampling options", w.Named("pref", "SamplingOptions"), map[string]engine.Val{
							".Type": w.Const("enums", md.typ), ".InReverse": engine.Bool(rev),
							".NoOf.Files": engine.IntT(int64(q[0]), uintT), ".NoOf.Directories": engine.IntT(int64(q[1]), uintT)})}
					}}}
					if md.filter != "" {
						extra = append(extra, Setting{Name: "WithFilter", Make: func(st *engine.State) []engine.Val {
							def := c.filterDef(st, "sample filter", "SampleFilterDef", md.filter, map[string]engine.Val{
								".Scope": w.Const("enums", md.scope), ".Negate": engine.Bool(md.negate), ".Custom": engine.NewNonNil("sampler", w.Type("core", "SampleTraverseFilter"))})
							return []engine.Val{c.object(st, "filter options", w.Named("pref", "FilterOptions"), map[string]engine.Val{".Sample": def})}
						}})
					}
					t := c.NewTravel(name, m, st, c.Plain(sub, st, extra...))
					n := 0
					where := "tree"
					judge := func(outs []engine.Outcome) {
						for _, o := range outs {
							if o.Panicked {
								c.Ob(name+"/"+where+"/completes", "the visit completes", false, "-", "it panics: %s: %s", o.PanicVal.Key(), path(o.State))
								continue
							}
							if o.State.Mon["read"] != "yes" {
								continue
							}
							exp, ok := want(o.State)
							n++
							c.Ob(name+"/"+where+"/sample", "the children visited are the first (or last) of each kind, up to the quantity asked for, of those that the sample filter matches",
								ok && o.State.Mon["seq"] == exp, "-", "visited: %s instead of: %s (%v): %s", o.State.Mon["seq"], exp, ok, path(o.State))
						}
						c.Ob(name+"/"+where+"/judged", "directories are read", n > 0, "-", "none is")
					}
					judge(t.Run(nil))
					if sub == "SubscribeUniversal" && q[0] == 2 && i < 2 {
						where, n = "node", 0
						judge(t.visitDirectory(nil))
					}
					if !c.Done(m, name) {
						return
					}
				}
			}
		}
	}
}
