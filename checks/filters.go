package checks

import (
	"go/types"
	"sort"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P17", Min: 60,
		Rule: "every abstract path from the factories to the end of Navigate, for each kind of filter definition in each place that takes one: an invalid one is reported by Navigate with nothing started, a valid one gives a filter",
		Run:  runP17})
	register(&Check{ID: "P18", Min: 200,
		Rule: "every abstract path of the node filters that sessions hand out, for each scope of the definition and of the node: the answer is determined by applicability, pattern and negation",
		Run:  runP18})
	register(&Check{ID: "P20", Min: 20,
		Rule: "every abstract path of the poly filters that sessions hand out: the answer for a file combines those of both parts, and that for a directory is positive",
		Run:  runP20})
}

// reply makes sessions with a node filter, and calls f with each filter that the sink is given.
func (c *C) reply(name string, m *engine.Machine, def func(st *engine.State) engine.Val, f func(s *engine.State, filter engine.Val)) {
	w := c.W
	sink := engine.NewNonNil("sink", w.Type("pref", "FilteringSink"))
	m.Model = c.Matching(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		if active(e) != "" {
			return []engine.Alt{}, true
		}
		return LibModel(s, e)
	})
	given := 0
	m.On = func(s *engine.State, e *engine.Event) {
		if e.Kind == "call" && What(e) == "sink" {
			if r, ok := e.Args[0].(*engine.Struct); ok {
				for i := range r.F {
					if r.T.Field(i).Name() == "Node" {
						s.Vals["filter"] = r.F[i]
						given++
					}
				}
			}
		}
	}
	st := c.Init(m, NavInit...)
	sess := Session{
		Facade: map[string]engine.Val{
			"Subscription": w.Const("enums", "SubscribeUniversal"),
			"Tree":         c.Tree(st),
			"Handler":      c.Client(),
		},
		Settings: c.Options(c.filterSetting(map[string]engine.Val{".Node": def(st), ".Sink": sink})),
	}
	for _, b := range c.Build(m, st, sess) {
		if !b.Panicked {
			if fv := b.State.Vals["filter"]; fv != nil {
				f(b.State, fv)
			}
		}
	}
	c.Ob(name+"/given", "the sink is given the filter", given > 0, "-", "it is not")
}

// fileNode or directory node with a scope and name of its own.
func (c *C) scopeNode(s *engine.State, id string, dir bool, scope int64, parent engine.Val) *engine.Ptr {
	f := map[string]engine.Val{
		c.dirField():       engine.Bool(dir),
		".Extension.Name":  engine.NewTok("name of "+id, types.Typ[types.String]),
		".Extension.Scope": engine.IntT(scope, c.W.Type("enums", "FilterScope")),
		".Parent":          parent,
	}
	return c.object(s, id, c.W.Named("core", "Node"), f)
}

func (c *C) scope(names ...string) int64 {
	var n int64
	for _, k := range names {
		v, ok := engine.IntOf(c.W.Const("enums", k))
		if !ok {
			panic(Missing("constant " + k))
		}
		n |= v
	}
	return n
}

// answers: the outcomes of asking a filter agree with what is expected, for each truth of the conditions it depends upon.
func (c *C) answers(key, text string, outs []engine.Outcome, conds []engine.Val, want func(truth []bool) bool) {
	c.Ob(key+"/answers", "the filter answers", len(outs) > 0, "-", "it does not")
	for _, o := range outs {
		if o.Panicked {
			c.Ob(key, text, false, "-", "it panics: %s", o.PanicVal.Key())
			continue
		}
		for bits := 0; bits < 1<<len(conds); bits++ {
			t, ok := o.State.Clone(), true
			truth := make([]bool, len(conds))
			for i, v := range conds {
				truth[i] = bits>>i&1 == 1
				ok = ok && t.Assume(v, truth[i])
			}
			if !ok {
				continue
			}
			got, known := t.Known(o.Results[0])
			c.Ob(key, text, known && got == want(truth), "-", "it answers %s (%v %v) instead of %v given that %v", o.Results[0].Key(), got, known, want(truth), t.Atoms())
		}
	}
}

func runP18(c *C) {
	w := c.W
	defScopes := map[string]int64{
		"undefined": 0, "tree": c.scope("ScopeTree"), "top": c.scope("ScopeTop"), "leaf": c.scope("ScopeLeaf"),
		"intermediate": c.scope("ScopeIntermediate"), "file": c.scope("ScopeFile"), "directory": c.scope("ScopeDirectory"),
		"top directory": c.scope("ScopeTop", "ScopeDirectory"), "all": 1<<32 - 1,
	}
	nodeScopes := map[string]int64{
		"file": c.scope("ScopeFile", "ScopeLeaf"), "tree": c.scope("ScopeTree", "ScopeDirectory"), "top": c.scope("ScopeTop", "ScopeDirectory"),
		"top leaf": c.scope("ScopeTop", "ScopeLeaf", "ScopeDirectory"), "intermediate": c.scope("ScopeIntermediate", "ScopeDirectory"), "leaf": c.scope("ScopeLeaf", "ScopeDirectory"),
	}
	pat := engine.NewTok("pattern of node", types.Typ[types.String])
	for _, kind := range []string{"FilterTypeGlob", "FilterTypeRegex"} {
		for _, ds := range sortedKeys(defScopes) {
			for _, na := range []string{"TriStateBoolUndefined", "TriStateBoolTrue", "TriStateBoolFalse"} {
				name := kind + "/" + ds + "/" + na
				m := c.Machine()
				negate := engine.NewTok("negate", types.Typ[types.Bool])
				desc := engine.NewTok("description", types.Typ[types.String])
				sc := engine.IntT(defScopes[ds], w.Type("enums", "FilterScope"))
				c.reply(name, m, func(st *engine.State) engine.Val {
					return c.filterDef(st, "node", "FilterDef", kind, map[string]engine.Val{
						".Scope": sc, ".Negate": negate, ".IfNotApplicable": w.Const("enums", na), ".Description": desc,
					})
				}, func(s *engine.State, filter engine.Val) {
					m.On = nil
					eff := defScopes[ds]
					if eff == 0 {
						eff = 1<<32 - 1
					}
					for _, ns := range sortedKeys(nodeScopes) {
						for _, orphan := range []bool{false, true} {
							t := s.Clone()
							var parent engine.Val = engine.Nil
							if !orphan {
								parent = c.scopeNode(t, "parent", true, nodeScopes["tree"], engine.Nil)
							}
							n := c.scopeNode(t, "node", ns != "file", nodeScopes[ns], parent)
							match := Matches(pat, engine.NewTok("name of node", types.Typ[types.String]))
							c.answers(name+"/"+ns, "the filter answers by its pattern and negation when it applies to the node, and otherwise as defined for when it does not",
								c.Invoke(m, t, filter, "IsMatch", n), []engine.Val{match, negate}, func(b []bool) bool {
									if eff&nodeScopes[ns] == 0 {
										return na != "TriStateBoolFalse"
									}
									return b[0] != b[1]
								})
							c.answers(name+"/"+ns+"/applicable", "the filter applies to nodes with a scope in common", c.Invoke(m, t.Clone(), filter, "IsApplicable", n), nil, func([]bool) bool {
								return eff&nodeScopes[ns] != 0
							})
						}
					}
					for method, want := range map[string]engine.Val{"Description": desc, "Source": pat, "Scope": engine.IntT(eff, w.Type("enums", "FilterScope"))} {
						for _, o := range c.Invoke(m, s.Clone(), filter, method) {
							c.Ob(name+"/"+method, "the filter describes itself as it was defined", !o.Panicked && o.Results[0].Key() == want.Key(), "-", "%s is %v", method, o.Results)
						}
					}
				})
				if !c.Done(m, name) {
					return
				}
			}
		}
	}
}

func runP20(c *C) {
	w := c.W
	kinds := []string{"FilterTypeGlob", "FilterTypeRegex"}
	name := engine.NewTok("name of node", types.Typ[types.String])
	pname := engine.NewTok("name of parent", types.Typ[types.String])
	for _, fk := range kinds {
		for _, dk := range kinds {
			for _, scopes := range []string{"default", "leaf", "intermediate", "other"} {
				key := fk + "/" + dk + "/" + scopes
				m := c.Machine()
				fneg, dneg := engine.NewTok("file negate", types.Typ[types.Bool]), engine.NewTok("directory negate", types.Typ[types.Bool])
				fpat, dpat := engine.NewTok("pattern of file", types.Typ[types.String]), engine.NewTok("pattern of directory", types.Typ[types.String])
				st := map[string][2]int64{"default": {0, 0}, "leaf": {c.scope("ScopeLeaf"), c.scope("ScopeLeaf")}, "intermediate": {c.scope("ScopeIntermediate"), c.scope("ScopeIntermediate")}, "other": {c.scope("ScopeDirectory"), c.scope("ScopeFile")}}[scopes]
				scT := w.Type("enums", "FilterScope")
				na := map[string]string{"default": "TriStateBoolUndefined", "leaf": "TriStateBoolFalse", "intermediate": "TriStateBoolFalse", "other": "TriStateBoolTrue"}[scopes]
				c.reply(key, m, func(s *engine.State) engine.Val {
					poly := c.object(s, "poly", w.Named("core", "PolyFilterDef"), map[string]engine.Val{
						".File.Type": c.filterType(fk), ".File.Pattern": c.pattern(s, "file"), ".File.Negate": fneg, ".File.Scope": engine.IntT(st[0], scT), ".File.IfNotApplicable": w.Const("enums", na),
						".Directory.Type": c.filterType(dk), ".Directory.Pattern": c.pattern(s, "directory"), ".Directory.Negate": dneg, ".Directory.Scope": engine.IntT(st[1], scT), ".Directory.IfNotApplicable": w.Const("enums", na),
					})
					return c.object(s, "node", w.Named("core", "FilterDef"), map[string]engine.Val{".Type": c.filterType("FilterTypePoly"), ".Poly": poly})
				}, func(s *engine.State, filter engine.Val) {
					m.On = nil
					fscope, dscope := c.scope("ScopeFile"), c.scope("ScopeDirectory")
					eff := [2]int64{st[0]&^dscope | fscope, st[1]&^fscope | dscope}
					// the scopes of the parent: none are known of a parent that has not been visited itself
					parents := map[string]int64{"top": c.scope("ScopeTop", "ScopeDirectory"), "leaf": c.scope("ScopeLeaf", "ScopeDirectory"), "unvisited": 0, "none": -1}
					for _, pn := range sortedKeys(parents) {
						ps := parents[pn]
						t := s.Clone()
						var parent engine.Val = engine.Nil
						if ps >= 0 {
							parent = c.scopeNode(t, "parent", true, ps, engine.Nil)
						}
						n := c.scopeNode(t, "node", false, c.scope("ScopeFile", "ScopeLeaf"), parent)
						u := t.Clone()
						c.answers(key+"/file/"+pn, "a file matches if its parent matches the directory part and it matches the file part", c.Invoke(m, t, filter, "IsMatch", n),
							[]engine.Val{Matches(fpat, name), fneg, Matches(dpat, pname), dneg}, func(b []bool) bool {
								dir := b[2] != b[3]
								if ps < 0 {
									dir = true
								} else if ps&eff[1] == 0 {
									dir = na != "TriStateBoolFalse"
								}
								return dir && b[0] != b[1]
							})
						c.answers(key+"/file/"+pn+"/applicable", "the filter applies to files", c.Invoke(m, u, filter, "IsApplicable", n), nil, func([]bool) bool { return true })
					}
					t := s.Clone()
					n := c.scopeNode(t, "node", true, c.scope("ScopeDirectory", "ScopeLeaf"), engine.Nil)
					c.answers(key+"/directory", "a directory always matches", c.Invoke(m, t, filter, "IsMatch", n), nil, func([]bool) bool { return true })
					for _, o := range c.Invoke(m, s.Clone(), filter, "Scope") {
						want := engine.IntT(eff[0]|eff[1], scT)
						c.Ob(key+"/scope", "the scope of the filter is that of both parts", !o.Panicked && o.Results[0].Key() == want.Key(), "-", "it is %v, instead of %s", o.Results, want.Key())
					}
				})
				if !c.Done(m, key) {
					return
				}
			}
		}
	}
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (c *C) filterSetting(fields map[string]engine.Val) Setting {
	return Setting{Name: "WithFilter", Make: func(st *engine.State) []engine.Val {
		return []engine.Val{c.object(st, "filter options", c.W.Named("pref", "FilterOptions"), fields)}
	}}
}

func (c *C) filterType(kind string) engine.Val {
	if kind == "" {
		return engine.IntT(99, c.W.Type("enums", "FilterType"))
	}
	return c.W.Const("enums", kind)
}

func runP17(c *C) {
	w := c.W
	uintT := types.Typ[types.Uint]
	sink := engine.NewNonNil("sink", w.Type("pref", "FilteringSink"))
	custom := engine.NewNonNil("custom", w.Type("core", "TraverseFilter"))
	type cas struct {
		name, sub string
		make      func(st *engine.State) []Setting
		// the error expected: none, a sentinel of locale, "malformed" for that of the pattern, "custom" for that of the custom filter, "any" for a refusal of any kind
		err string
		// the field of the reply that a filter is expected in
		reply string
	}
	var cases []cas
	nodeDef := func(st *engine.State, id, kind string, f map[string]engine.Val) engine.Val {
		fs := map[string]engine.Val{".Type": c.filterType(kind)}
		for k, v := range f {
			fs[k] = v
		}
		fs[".Pattern"] = c.pattern(st, id)
		return c.object(st, id, w.Named("core", "FilterDef"), fs)
	}
	// the file and directory part of a poly definition
	poly := func(st *engine.State, id, file, dir string) map[string]engine.Val {
		f := map[string]engine.Val{
			".File.Type": c.filterType(file), ".File.Pattern": c.pattern(st, id+" file"),
			".Directory.Type": c.filterType(dir), ".Directory.Pattern": c.pattern(st, id+" directory"),
		}
		return map[string]engine.Val{".Poly": c.object(st, id+" poly", w.Named("core", "PolyFilterDef"), f)}
	}
	hib := func(fn string) func(engine.Val) Setting {
		return func(def engine.Val) Setting {
			return Setting{Name: fn, Args: []engine.Val{def}}
		}
	}
	type slot struct {
		name, reply string
		set         func(def engine.Val) Setting
	}
	slots := []slot{
		{"node", "Node", func(def engine.Val) Setting {
			return c.filterSetting(map[string]engine.Val{".Node": def, ".Sink": sink})
		}},
		{"wake", "", hib("WithHibernationFilterWake")},
		{"sleep", "", hib("WithHibernationFilterSleep")},
	}
	for _, s := range slots {
		s := s
		add := func(name, kind, file, dir, err string) {
			cases = append(cases, cas{s.name + "/" + name, "SubscribeUniversal", func(st *engine.State) []Setting {
				var f map[string]engine.Val
				if file != "-" {
					f = poly(st, s.name, file, dir)
				}
				return []Setting{s.set(nodeDef(st, s.name, kind, f))}
			}, err, s.reply})
		}
		add("glob", "FilterTypeGlob", "-", "", "")
		add("regex", "FilterTypeRegex", "-", "", "malformed")
		add("undefined", "FilterTypeUndefined", "-", "", "ErrFilterMissingType")
		add("out of range", "", "-", "", "ErrFilterUndefined")
		add("custom without one", "FilterTypeCustom", "-", "", "ErrMissingCustomFilterDefinition")
		add("poly without parts", "FilterTypePoly", "-", "", "ErrPolyFilterIsInvalid")
		add("poly of glob and glob", "FilterTypePoly", "FilterTypeGlob", "FilterTypeGlob", "")
		add("poly of regex and glob", "FilterTypePoly", "FilterTypeRegex", "FilterTypeGlob", "malformed")
		add("poly of glob and regex", "FilterTypePoly", "FilterTypeGlob", "FilterTypeRegex", "malformed")
		add("poly of poly and glob", "FilterTypePoly", "FilterTypePoly", "FilterTypeGlob", "ErrPolyFilterIsInvalid")
		add("poly of glob and poly", "FilterTypePoly", "FilterTypeGlob", "FilterTypePoly", "ErrPolyFilterIsInvalid")
		add("poly of custom without one and glob", "FilterTypePoly", "FilterTypeCustom", "FilterTypeGlob", "ErrMissingCustomFilterDefinition")
		add("poly of glob and custom without one", "FilterTypePoly", "FilterTypeGlob", "FilterTypeCustom", "ErrMissingCustomFilterDefinition")
		add("poly of undefined and glob", "FilterTypePoly", "FilterTypeUndefined", "FilterTypeGlob", "ErrFilterMissingType")
		add("poly of glob and out of range", "FilterTypePoly", "FilterTypeGlob", "", "ErrFilterUndefined")
	}
	cases = append(cases, cas{"custom filter", "SubscribeUniversal", func(st *engine.State) []Setting {
		return []Setting{c.filterSetting(map[string]engine.Val{".Custom": custom})}
	}, "custom", ""})
	child := func(name, kind, err string, with map[string]engine.Val) {
		cases = append(cases, cas{"child/" + name, "SubscribeDirectoriesWithFiles", func(st *engine.State) []Setting {
			f := map[string]engine.Val{".Child": c.object(st, "child", w.Named("core", "ChildFilterDef"), map[string]engine.Val{
				".Type": c.filterType(kind), ".Pattern": c.pattern(st, "child")}), ".Sink": sink}
			for k, v := range with {
				f[k] = v
			}
			if with == nil && kind == "FilterTypeGlob" && strings.Contains(name, "bad node") {
				f[".Node"] = nodeDef(st, "node", "FilterTypeUndefined", nil)
			}
			return []Setting{c.filterSetting(f)}
		}, err, "Child"})
	}
	child("glob", "FilterTypeGlob", "", nil)
	child("regex", "FilterTypeRegex", "malformed", nil)
	child("glob-ex", "FilterTypeGlobEx", "ErrFilterChildGlobExNotSupported", nil)
	child("custom", "FilterTypeCustom", "ErrFilterCustomNotSupported", nil)
	child("poly", "FilterTypePoly", "ErrPolyFilterIsInvalid", nil)
	child("undefined", "FilterTypeUndefined", "ErrFilterUndefined", nil)
	child("out of range", "", "ErrFilterUndefined", nil)
	child("glob with a bad node filter", "FilterTypeGlob", "ErrFilterMissingType", nil)
	child("out of range with a custom node filter", "", "ErrFilterUndefined", map[string]engine.Val{".Custom": custom})
	child("regex with a custom node filter", "FilterTypeRegex", "any", map[string]engine.Val{".Custom": custom})
	sample := func(name, kind, scope string, files, dirs int64, f map[string]engine.Val, err string) {
		cases = append(cases, cas{"sample/" + name, "SubscribeUniversal", func(st *engine.State) []Setting {
			fs := map[string]engine.Val{".Type": c.filterType(kind), ".Pattern": c.pattern(st, "sample"), ".Scope": c.scopes(strings.Fields(scope)...)}
			for k, v := range f {
				fs[k] = v
			}
			return []Setting{
				c.filterSetting(map[string]engine.Val{".Sample": c.object(st, "sample", w.Named("core", "SampleFilterDef"), fs)}),
				{Name: "WithSamplingOptions", Make: func(st *engine.State) []engine.Val {
					return []engine.Val{c.object(st, "sampling options", w.Named("pref", "SamplingOptions"), map[string]engine.Val{
						".Type": w.Const("enums", "SampleTypeFilter"), ".NoOf.Files": engine.IntT(files, uintT), ".NoOf.Directories": engine.IntT(dirs, uintT)})}
				}},
			}
		}, err, ""})
	}
	sampler := map[string]engine.Val{".Custom": engine.NewNonNil("custom", w.Type("core", "SampleTraverseFilter"))}
	sample("glob files", "FilterTypeGlob", "ScopeFile", 2, 0, nil, "")
	sample("glob directories", "FilterTypeGlob", "ScopeDirectory", 0, 2, nil, "")
	sample("regex files", "FilterTypeRegex", "ScopeFile", 2, 0, nil, "malformed")
	sample("custom", "FilterTypeCustom", "ScopeFile", 2, 2, sampler, "custom")
	sample("custom without one", "FilterTypeCustom", "ScopeFile", 2, 2, nil, "ErrFilterIsNil")
	sample("glob-ex", "FilterTypeGlobEx", "ScopeFile", 2, 2, nil, "ErrFilterChildGlobExNotSupported")
	sample("poly", "FilterTypePoly", "ScopeFile", 2, 2, nil, "ErrPolyFilterIsInvalid")
	sample("undefined", "FilterTypeUndefined", "ScopeFile", 2, 2, nil, "ErrFilterMissingType")
	sample("out of range", "", "ScopeFile", 2, 2, nil, "ErrFilterUndefined")
	sample("files without a quantity", "FilterTypeGlob", "ScopeFile", 0, 2, nil, "ErrInvalidFileSamplingSpecMissingFiles")
	both := "ScopeFile ScopeDirectory"
	sample("files and directories", "FilterTypeGlob", both, 2, 2, nil, "")
	sample("files and directories without a quantity of files", "FilterTypeRegex", both, 0, 2, nil, "ErrInvalidFileSamplingSpecMissingFiles")
	sample("files and directories without a quantity of directories", "FilterTypeGlob", both, 2, 0, nil, "ErrInvalidSamplingSpecMissingDirectories")
	sample("directories without a quantity", "FilterTypeGlob", "ScopeDirectory", 2, 0, nil, "ErrInvalidSamplingSpecMissingDirectories")

	for _, k := range cases {
		m := c.Machine()
		n, good := 0, 0
		m.Model = c.Matching(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if active(e) != "" {
				return []engine.Alt{}, true // what happens from here on is not the concern of this rule
			}
			if What(e) == "custom.Validate" {
				bad := engine.NewNonNil("custom refusal", errT)
				return []engine.Alt{{Results: []engine.Val{engine.Nil}}, {Results: []engine.Val{bad}, Assume: c.fails(bad), Label: "the custom filter is refused"}}, true
			}
			return LibModel(s, e)
		})
		bad := func(s *engine.State) string {
			switch k.err {
			case "malformed", "any":
				return s.Mon["bad"]
			case "custom":
				return s.Mon["refused"]
			}
			return k.err
		}
		m.On = func(s *engine.State, e *engine.Event) {
			if e.Kind == "ret" && fnName(e) == "regexp.Compile" && s.NonNilKnown(e.Results[1]) {
				s.Mon["bad"] = e.Results[1].Key()
			}
			if e.Kind == "ret" && What(e) == "custom.Validate" && s.NonNilKnown(e.Results[0]) {
				s.Mon["refused"] = e.Results[0].Key()
			}
			if e.Kind == "call" && What(e) == "sink" {
				r, _ := e.Args[0].(*engine.Struct)
				if r != nil && k.reply != "" {
					for i := range r.F {
						if r.T.Field(i).Name() == k.reply && s.NonNilKnown(r.F[i]) {
							s.Mon["filter"] = "yes"
						}
					}
				}
			}
			if a := active(e); a != "" {
				b := bad(s)
				n++
				good++
				if k.reply != "" {
					c.Ob(k.name+"/filter", "a valid definition gives a filter", s.Mon["filter"] == "yes", "-", "there is none: %s", path(s))
				}
				c.Ob(k.name+"/first", "a session with an invalid filter does nothing", b == "", w.InstrPos(e.Instr), "%s in spite of %s", a, b)
			}
		}
		st := c.Init(m, NavInit...)
		sess := Session{
			Facade: map[string]engine.Val{
				"Subscription": w.Const("enums", k.sub),
				"Tree":         c.Tree(st),
				"Handler":      c.Client(),
			},
			Settings: c.Options(k.make(st)...),
		}
		for _, b := range c.Build(m, st, sess) {
			if b.Panicked {
				c.Ob(k.name+"/built", "building the session does not panic", false, "-", "it panics: %s", b.PanicVal.Key())
				continue
			}
			for _, o := range c.Invoke(m, b.State, b.Results[0], "Navigate", engine.NewNonNil("ctx", c.ctxType())) {
				n++
				s := o.State
				if o.Panicked {
					c.Ob(k.name+"/reported", "an invalid filter is reported by Navigate", false, "-", "it panics: %s", o.PanicVal.Key())
					continue
				}
				e := o.Results[1]
				b := bad(s)
				switch {
				case k.err == "any":
					c.Ob(k.name+"/reported", "an invalid filter is reported by Navigate", s.NonNilKnown(e), "-", "it returns %s", e.Key())
				case b == "":
					c.Ob(k.name+"/accepted", "a valid filter is accepted", false, "-", "Navigate returns %s and does nothing: %s", e.Key(), path(s))
				case k.err == "malformed" || k.err == "custom":
					c.Ob(k.name+"/reported", "an invalid filter is reported by Navigate", e.Key() == b, "-", "it returns %s instead of %s", e.Key(), b)
				default:
					c.Ob(k.name+"/reported", "an invalid filter is reported by Navigate", c.isError(s, e, "locale", k.err) || s.Mon["refused"] == e.Key(), "-", "it returns %s instead of %s", e.Key(), k.err)
				}
			}
		}
		c.Done(m, k.name)
		valid := k.err == "" || k.err == "malformed" || k.err == "custom" || k.err == "any"
		c.Ob(k.name+"/outcomes", "a valid filter leads to a traversal and an invalid one to none", n > 0 && (good > 0) == valid, "-", "%d of %d outcomes have a traversal", good, n)
	}
}

// scopes combines filter scopes.
func (c *C) scopes(names ...string) engine.Val {
	var n int64
	for _, s := range names {
		k, _ := engine.IntOf(c.W.Const("enums", s))
		n |= int64(k)
	}
	return engine.IntT(n, c.W.Type("enums", "FilterScope"))
}
