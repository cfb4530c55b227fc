package checks

import (
	"fmt"
	"go/types"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P06", Min: 60,
		Rule: "every abstract path of navigations of a tree with given entries, for each combination of fastward, hibernation, a filter and sampling, whatever order maps are ranged over in: each visited node passes the features in that order",
		Run:  runP06})
}

func runP06(c *C) {
	w := c.W
	uintT := types.Typ[types.Uint]
	type mode struct {
		sub                          string
		fastward, hib, filter, child bool
		sampling                     bool
		reversed                     bool // the settings are given in reverse
	}
	var modes []mode
	for bits := 0; bits < 16; bits++ {
		md := mode{sub: "SubscribeUniversal", fastward: bits&1 != 0, hib: bits&2 != 0, filter: bits&4 != 0, sampling: bits&8 != 0}
		if n := strings.Count(fmt.Sprintf("%b", bits), "1"); n < 2 {
			continue
		}
		modes = append(modes, md)
		md.reversed = true
		modes = append(modes, md)
	}
	for bits := 1; bits < 8; bits++ {
		modes = append(modes, mode{sub: "SubscribeDirectoriesWithFiles", child: true, fastward: bits&1 != 0, hib: bits&2 != 0, sampling: bits&4 != 0})
	}
	for _, md := range modes {
		name := md.sub
		for _, f := range []struct {
			n  string
			on bool
		}{{"fastward", md.fastward}, {"hibernation", md.hib}, {"filter", md.filter}, {"child filter", md.child}, {"sampling", md.sampling}, {"reversed", md.reversed}} {
			if f.on {
				name += "/" + f.n
			}
		}
		m := c.Machine()
		m.AnyOrder = true
		m.Unroll, m.Recur = 16, 3
		top, inner := strings.Fields("f1 f2 d1 d2"), strings.Fields("f3")
		if md.child {
			top, inner = strings.Fields("d1 d2"), strings.Fields("f3 f4")
		} else if md.fastward && md.hib && md.filter && !md.sampling {
			top = strings.Fields("f1 d1")
		}
		list := c.Listing(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) { return c.calmly(s, e) }, top...)
		source := engine.NewTok("resume point", strT)
		model := c.Matching(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if What(e) == "readDirectory" {
				switch p := e.Args[len(e.Args)-1].Key(); {
				case p == "⟨tree⟩":
				case strings.Contains(p, "name of d1"):
					return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "inner", inner...), engine.Nil}}}, true
				default:
					return []engine.Alt{{Results: []engine.Val{c.EntrySlice(s, "nothing"), engine.Nil}}}, true
				}
			}
			return list(s, e)
		})
		if md.fastward {
			active := map[string]engine.Val{
				".Tree": engine.NewTok("tree", strT), ".CurrentPath": source, ".Subscription": w.Const("enums", md.sub),
				".IsDir": engine.NewTok("resume point is a directory", types.Typ[types.Bool]), ".Depth": engine.NewTok("depth of the resume point", types.Typ[types.Int]),
				".Hibernation": w.Const("enums", "HibernationPending"),
			}
			model = c.calc(c.Reading(Saved{Active: active, Options: map[string]engine.Val{".Hibernate.Behaviour.InclusiveWake": engine.True}}, model), false)
		}
		m.Model = model
		sample := func(ids []string) []string {
			if !md.sampling {
				return ids
			}
			return append(append([]string{}, takeN(kindOf(ids, 'd'), 1, false)...), takeN(kindOf(ids, 'f'), 1, false)...)
		}
		nameOf := func(s *engine.State, n engine.Val) engine.Val {
			return s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Extension.Name"}, strT)
		}
		idOf := func(s *engine.State, n engine.Val) string {
			return entryID(s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Entry"}, c.entryT()))
		}
		judged := 0
		settle := func(s *engine.State, loc string) {
			n := s.Vals["node"]
			if n == nil {
				return
			}
			dir, known := c.IsDir(m, s, n)
			if !known {
				return
			}
			delete(s.Vals, "node")
			id := idOf(s, n)
			judged++
			if id != "" {
				from := top
				if id == "f3" || id == "f4" {
					from = inner
				}
				c.Ob(name+"/sample", "a node that isn't in the sample is not visited", has(sample(from), id), loc, "%s: %s", id, path(s))
			}
			through := !md.child || dir
			step := func(yes, known bool, what string) {
				if !through {
					return
				}
				c.Ob(name+"/"+what, "the features decide in the order: resume point, hibernation, filter", known, loc, "%s was not asked about %s: %s", what, id, path(s))
				through = yes && known
			}
			if md.fastward && s.Mon["resumed"] == "" {
				yes, known := s.Known(engine.Eq(s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Path"}, strT), source))
				step(yes, known, "the resume point")
				if through {
					s.Mon["resumed"] = "yes"
				}
			}
			if md.hib && s.Mon["awake"] == "" {
				before := through
				yes, known := s.Known(Matches(engine.NewTok("pattern of wake", strT), nameOf(s, n)))
				if md.fastward && !before {
					c.Ob(name+"/hibernating", "the wake filter is only asked from the resume point on", !known, loc, "%s: %s", id, path(s))
				}
				step(yes, known, "the wake filter")
				if through {
					s.Mon["awake"] = "yes"
				}
			}
			if md.filter {
				c.Ob(name+"/filter", "the filter is asked precisely about the nodes that got past the resume point and hibernation", (s.Mon["asked"] != "") == through, loc, "%s: %q: %s", id, s.Mon["asked"], path(s))
				through = through && s.Mon["asked"] == "matched"
			}
			c.Ob(name+"/client", "the client is invoked precisely for the nodes that got past all of the features", s.Mon["called"] == map[bool]string{true: "yes"}[through], loc, "%s: %q, expected %v: %s", id, s.Mon["called"], through, path(s))
			if md.child && through {
				var exp []string
				if id == "d1" {
					for _, f := range sortedDown(sample(inner)) {
						yes, known := s.Known(Matches(engine.NewTok("pattern of child", strT), EntryName(f)))
						c.Ob(name+"/children-asked", "the child filter is asked about each file", known, loc, "%s: %s", f, path(s))
						if yes {
							exp = append(exp, f)
						}
					}
				}
				c.Ob(name+"/children", "the directory's children are the files in the sample that match the child filter", s.Mon["children"] == strings.Join(exp, " "), loc, "%s: %q not %v: %s", id, s.Mon["children"], exp, path(s))
			}
			for _, k := range []string{"called", "asked", "children"} {
				delete(s.Mon, k)
			}
		}
		c.Watch(m, func(s *engine.State, what, kind string, e *engine.Event) {
			switch {
			case what == "filter.IsMatch" && kind == "ret":
				s.Mon["asked"] = "matched"
				if e.Results[0].Key() == engine.False.Key() {
					s.Mon["asked"] = "rejected"
				}
			case kind != "call":
			case what == "visit":
				settle(s, c.locate(e))
			case what == "fileSubPath" || what == "directorySubPath":
				settle(s, c.locate(e))
				if n := c.nodeArg(s, e); n != nil {
					s.Vals["node"] = n
				}
			case what == "client":
				s.Mon["called"] = twice(s.Mon["called"])
				if n := c.nodeArg(s, e); n != nil && md.child {
					ids, _ := c.EntryIDs(s, s.Load(&engine.Ptr{Obj: objOf(n), Path: ".Children"}, types.NewSlice(c.entryT())))
					s.Mon["children"] = strings.Join(ids, " ")
				}
			case what == "onDescend":
				settle(s, c.locate(e))
			}
		})
		st := c.Init(m, NavInit...)
		st.Assume(engine.Eq(engine.NewTok("tree", strT), engine.Str("")), false)
		var extra []Setting
		if md.sampling {
			extra = append(extra, Setting{Name: "WithSamplingOptions", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.object(st, "sampling options", w.Named("pref", "SamplingOptions"), map[string]engine.Val{
					".Type": w.Const("enums", "SampleTypeSlice"), ".NoOf.Files": engine.IntT(1, uintT), ".NoOf.Directories": engine.IntT(1, uintT)})}
			}})
		}
		if md.hib {
			extra = append(extra, Setting{Name: "WithHibernationFilterWake", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.filterDef(st, "wake", "FilterDef", "FilterTypeGlob", map[string]engine.Val{".IfNotApplicable": w.Const("enums", "TriStateBoolFalse")})}
			}})
		}
		if md.filter {
			extra = append(extra, c.filterSetting(map[string]engine.Val{".Custom": engine.NewNonNil("filter", w.Type("core", "TraverseFilter"))}))
		}
		if md.child {
			extra = append(extra, Setting{Name: "WithFilter", Make: func(st *engine.State) []engine.Val {
				return []engine.Val{c.object(st, "filter options", w.Named("pref", "FilterOptions"), map[string]engine.Val{".Child": c.filterDef(st, "child", "ChildFilterDef", "FilterTypeGlob", nil)})}
			}})
		}
		if md.reversed {
			for i, j := 0, len(extra)-1; i < j; i, j = i+1, j-1 {
				extra[i], extra[j] = extra[j], extra[i]
			}
		}
		sess := c.Plain(md.sub, st, extra...)
		if md.fastward {
			sess = c.Resumed("ResumeStrategyFastward", st, extra...)
		}
		t := c.NewTravel(name, m, st, sess)
		for _, o := range t.Run(nil) {
			settle(o.State, "-")
			if o.Panicked {
				c.Ob(name+"/completes", "the navigation completes", false, "-", "it panics: %s: %s", o.PanicVal.Key(), path(o.State))
			}
		}
		c.Ob(name+"/judged", "nodes are visited", judged > 0, "-", "none is")
		if !c.Done(m, name) {
			return
		}
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
