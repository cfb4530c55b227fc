package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P35", Min: 1000,
		Rule: "every abstract path of the extended glob filters that sessions hand out, for each form of pattern: the answer is determined by the directory's glob and exclusion, the extensions included and excluded, and negation; malformed patterns are reported by Navigate",
		Run:  runP35})
}

// constant functions of the library are computed when all of their arguments are known.
func (c *C) constants(next func(*engine.State, *engine.Event) ([]engine.Alt, bool)) func(*engine.State, *engine.Event) ([]engine.Alt, bool) {
	str := func(v engine.Val) (string, bool) {
		if i, ok := v.(*engine.Iface); ok {
			v = i.V
		}
		if k, ok := v.(*engine.Const); ok && k.V != nil && k.V.Kind() == constant.String {
			return constant.StringVal(k.V), true
		}
		return "", false
	}
	sources := map[string]string{}
	slices := 0
	return func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
		one := func(vs ...engine.Val) ([]engine.Alt, bool) { return []engine.Alt{{Results: vs}}, true }
		list := func(ss []string) engine.Val {
			if ss == nil {
				return engine.Nil
			}
			slices++
			var vs []engine.Val
			for _, x := range ss {
				vs = append(vs, engine.Str(x))
			}
			return s.NewSlice(fmt.Sprintf("strings %d", slices), types.NewSlice(types.Typ[types.String]), vs...)
		}
		n := fnName(e)
		var a []string
		consts := true
		for _, v := range e.Args {
			if x, ok := str(v); ok {
				a = append(a, x)
			} else {
				a, consts = append(a, ""), false
			}
		}
		num := func(i int) int {
			if k, ok := engine.IntOf(e.Args[i]); ok {
				return int(k)
			}
			consts = false
			return 0
		}
		if strings.HasPrefix(n, "regexp.") || strings.HasPrefix(n, "(*regexp.") {
			switch n {
			case "regexp.MustCompile", "regexp.Compile":
				if !consts {
					break
				}
				re := engine.NewNonNil("expression "+a[0], e.Sig.Results().At(0).Type())
				sources[re.Key()] = a[0]
				_, err := regexp.Compile(a[0])
				switch {
				case n == "regexp.Compile" && err != nil:
					return one(engine.Nil, engine.NewNonNil("malformed "+a[0], errT))
				case n == "regexp.Compile":
					return one(re, engine.Nil)
				case err == nil:
					return one(re)
				}
				return []engine.Alt{{Panics: true, Label: "malformed expression"}}, true
			}
			recv, args := e.Recv, e.Args
			if recv == nil && len(args) > 0 {
				recv, args, a = args[0], args[1:], a[1:]
			}
			if recv == nil {
				return nil, false
			}
			src, ok := sources[recv.Key()]
			if !ok {
				return nil, false
			}
			re := regexp.MustCompile(src)
			known := true
			for i := range args {
				if _, ok := str(args[i]); !ok {
					known = false
				}
			}
			switch e.Fn.Name() {
			case "SubexpNames":
				return one(list(re.SubexpNames()))
			case "NumSubexp":
				return one(engine.Int(int64(re.NumSubexp())))
			case "SubexpIndex":
				if known {
					return one(engine.Int(int64(re.SubexpIndex(a[0]))))
				}
			case "FindStringSubmatch":
				if known {
					return one(list(re.FindStringSubmatch(a[0])))
				}
			case "MatchString":
				if known {
					return one(engine.Bool(re.MatchString(a[0])))
				}
			}
			return nil, false
		}
		switch n {
		case "path/filepath.Match", "filepath.Match", "path.Match":
			p, ok := str(e.Args[0])
			if ok {
				if _, err := filepath.Match(p, "x"); err != nil {
					return one(engine.False, engine.NewNonNil("bad pattern", errT))
				}
				switch p {
				case "":
					return one(engine.False, engine.Nil) // no node has an empty name
				case "*":
					return one(engine.True, engine.Nil)
				}
			}
			return one(Matches(e.Args[0], e.Args[1]), engine.Nil)
		case "strings.SplitN", "strings.Replace", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.ContainsRune":
			x, ok := str(e.Args[0])
			if !ok {
				break
			}
			consts = true
			switch n {
			case "strings.SplitN":
				if y, ok := str(e.Args[1]); ok {
					if k := num(2); consts {
						return one(list(strings.SplitN(x, y, k)))
					}
				}
			case "strings.IndexByte":
				if k := num(1); consts {
					return one(engine.Int(int64(strings.IndexByte(x, byte(k)))))
				}
			case "strings.LastIndexByte":
				if k := num(1); consts {
					return one(engine.Int(int64(strings.LastIndexByte(x, byte(k)))))
				}
			case "strings.IndexRune":
				if k := num(1); consts {
					return one(engine.Int(int64(strings.IndexRune(x, rune(k)))))
				}
			case "strings.ContainsRune":
				if k := num(1); consts {
					return one(engine.Bool(strings.ContainsRune(x, rune(k))))
				}
			}
		}
		if consts {
			switch n {
			case "strings.Split":
				return one(list(strings.Split(a[0], a[1])))
			case "strings.Fields":
				return one(list(strings.Fields(a[0])))
			case "strings.Cut":
				x, y, ok := strings.Cut(a[0], a[1])
				return one(engine.Str(x), engine.Str(y), engine.Bool(ok))
			case "strings.CutPrefix":
				x, ok := strings.CutPrefix(a[0], a[1])
				return one(engine.Str(x), engine.Bool(ok))
			case "strings.CutSuffix":
				x, ok := strings.CutSuffix(a[0], a[1])
				return one(engine.Str(x), engine.Bool(ok))
			case "strings.ContainsAny":
				return one(engine.Bool(strings.ContainsAny(a[0], a[1])))
			case "strings.IndexAny":
				return one(engine.Int(int64(strings.IndexAny(a[0], a[1]))))
			case "strings.Count":
				return one(engine.Int(int64(strings.Count(a[0], a[1]))))
			case "strings.ToUpper":
				return one(engine.Str(strings.ToUpper(a[0])))
			case "strings.Trim":
				return one(engine.Str(strings.Trim(a[0], a[1])))
			case "strings.TrimLeft":
				return one(engine.Str(strings.TrimLeft(a[0], a[1])))
			case "strings.ReplaceAll":
				return one(engine.Str(strings.ReplaceAll(a[0], a[1], a[2])))
			case "strings.EqualFold":
				return one(engine.Bool(strings.EqualFold(a[0], a[1])))
			case "path/filepath.Ext", "path.Ext":
				return one(engine.Str(filepath.Ext(a[0])))
			}
		}
		if next != nil {
			return next(s, e)
		}
		return LibModel(s, e)
	}
}

// extended is what an extended glob means.
type extended struct {
	dir, skip        string
	include, exclude []string
}

// meaning of an extended glob, as its documentation has it; false for those that have none.
func meaning(pattern string) (*extended, bool) {
	dir, subs, ok := strings.Cut(strings.ToLower(pattern), "|")
	if !ok {
		return nil, false
	}
	x := &extended{}
	x.dir, x.skip, _ = strings.Cut(dir, "/")
	for _, p := range strings.Split(subs, ",") {
		if p == "" || p == "!" {
			continue
		}
		p = strings.TrimSpace(p)
		base, ext := "", p
		if i := strings.LastIndex(p, "."); i >= 0 {
			base, ext = p[:i], p[i+1:]
		}
		if base == "" {
			base = "*"
		}
		not := strings.HasPrefix(ext, "!")
		ext = strings.TrimPrefix(ext, "!")
		if ext == "" {
			return nil, false
		}
		if not {
			x.exclude = append(x.exclude, base+"."+ext)
		} else {
			x.include = append(x.include, base+"."+ext)
		}
	}
	return x, true
}

func runP35(c *C) {
	w := c.W
	var patterns []string
	// each form of the directory's part with some of the extensions, and each form of the extensions with some of the directories
	for _, d := range []string{"*", "", "a*", "A*b", "cover.*", "*/x*", "d*/X", "c*/", "/e"} {
		for _, s := range []string{"*.jpg", "", "*.!flac"} {
			patterns = append(patterns, d+"|"+s)
		}
	}
	for _, s := range []string{
		".jpg", "jpg", "JPG", "*.JPG", "Front*.Jpg", "f*.jpg", "d*l.a.jpg", "cover.jpg", "Cover.a.JPG, f?.[a-c]*", "*.*", ".*", "*.jpg,*.flac", "*.jpg, *.flac", " .jpg ,flac,c*.txt", ".jpg,jpeg",
		"*.jpg,", ",*.jpg", "!,*.jpg", "*.!flac,*.!jpg", "*.!flac,*.!jpg,t*.!TXT", ".!flac", "!flac", "*.!FLAC", "a*.!flac", "*.jpg,*.!flac", "*.!flac,*.jpg", "a*.jpg,.!flac,*.!txt,b.txt",
	} {
		patterns = append(patterns, "*|"+s, "D*/e*|"+s)
	}
	malformed := []string{"flac", "*.flac", "*|a.", "*|.", "*|*.jpg,a."}
	sort.Strings(patterns)

	name := engine.NewTok("name of node", types.Typ[types.String])
	lower := engine.MkApp("strings.ToLower", types.Typ[types.String], name)
	plower := engine.MkApp("strings.ToLower", types.Typ[types.String], engine.NewTok("name of parent", types.Typ[types.String]))
	scT := w.Type("enums", "FilterScope")
	sink := engine.NewNonNil("sink", w.Type("pref", "FilteringSink"))
	judged := 0
	run := func(pattern string, sc int64, na string) bool {
		key := fmt.Sprintf("%q/%d/%s", pattern, sc, na)
		x, wellFormed := meaning(pattern)
		m := c.Machine()
		negate := engine.NewTok("negate", types.Typ[types.Bool])
		m.Model = c.constants(func(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
			if active(e) != "" {
				return []engine.Alt{}, true
			}
			return LibModel(s, e)
		})
		given := 0
		m.On = func(s *engine.State, e *engine.Event) {
			if e.Kind == "call" && What(e) == "sink" {
				if r, ok := e.Args[0].(*engine.Struct); ok {
					for i := range r.F {
						if r.T.Field(i).Name() == "Node" {
							s.Vals["filter"] = r.F[i]
							given++
						}
					}
				}
			}
		}
		st := c.Init(m, NavInit...)
		def := c.object(st, "node", w.Named("core", "FilterDef"), map[string]engine.Val{
			".Type": c.filterType("FilterTypeGlobEx"), ".Pattern": engine.Str(pattern), ".Negate": negate,
			".Scope": engine.IntT(sc, scT), ".IfNotApplicable": w.Const("enums", na),
		})
		outs := c.Build(m, st, Session{
			Facade: map[string]engine.Val{
				"Subscription": w.Const("enums", "SubscribeUniversal"),
				"Tree":         c.Tree(st),
				"Handler":      c.Client(),
			},
			Settings: c.Options(c.filterSetting(map[string]engine.Val{".Node": def, ".Sink": sink})),
		})
		if !wellFormed {
			reported := 0
			for _, b := range outs {
				c.Ob(key+"/calm", "a malformed pattern does not panic", !b.Panicked, "-", "it panics: %v", b.PanicVal)
				if b.Panicked {
					continue
				}
				for _, o := range c.Invoke(m, b.State, b.Results[0], "Navigate", engine.NewNonNil("ctx", c.ctxType())) {
					ok := !o.Panicked && o.State.NonNilKnown(o.Results[1])
					if ok {
						reported++
					}
					c.Ob(key+"/reported", "a malformed pattern is reported by Navigate", ok, "-", "it is not")
				}
			}
			c.Ob(key+"/refused", "a malformed pattern is refused", reported > 0 && given == 0, "-", "%d reports, %d filters given", reported, given)
			return c.Done(m, key)
		}
		asked := 0
		for _, b := range outs {
			if b.Panicked {
				c.Ob(key+"/calm", "a pattern does not panic", false, "-", "it panics: %v", b.PanicVal)
				continue
			}
			s, filter := b.State, b.State.Vals["filter"]
			if filter == nil {
				continue
			}
			asked++
			for _, shape := range []string{"file", "orphan", "directory"} {
				t := s.Clone()
				var parent engine.Val = engine.Nil
				if shape != "orphan" {
					parent = c.scopeNode(t, "parent", true, c.scope("ScopeTree", "ScopeDirectory"), engine.Nil)
				}
				scope := c.scope("ScopeFile", "ScopeLeaf")
				if shape == "directory" {
					scope = c.scope("ScopeLeaf", "ScopeDirectory")
				}
				n := c.scopeNode(t, "node", shape == "directory", scope, parent)
				// the conditions that the answer depends upon
				var conds []engine.Val
				index := map[string]int{}
				cond := func(p string, v engine.Val) func([]bool) bool {
					switch p {
					case "":
						return func([]bool) bool { return false }
					case "*":
						return func([]bool) bool { return true }
					}
					k := p + " " + v.Key()
					if _, ok := index[k]; !ok {
						index[k] = len(conds)
						conds = append(conds, Matches(engine.Str(p), v))
					}
					i := index[k]
					return func(b []bool) bool { return b[i] }
				}
				dir, skip := cond(x.dir, plower), cond(x.skip, plower)
				var inc, exc []func([]bool) bool
				for _, p := range x.include {
					inc = append(inc, cond(p, lower))
				}
				for _, p := range x.exclude {
					exc = append(exc, cond(p, lower))
				}
				some := func(fs []func([]bool) bool, b []bool) bool {
					for _, f := range fs {
						if f(b) {
							return true
						}
					}
					return false
				}
				applies := func(b []bool) bool {
					return shape == "orphan" || shape == "file" && dir(b) && !skip(b)
				}
				k := len(conds)
				conds = append(conds, negate)
				matched := c.Invoke(m, t.Clone(), filter, "IsMatch", n)
				c.decided(key+"/"+shape, "a file matches by the extensions included and excluded, when its directory is one that the filter is for", matched, conds, func(b []bool) (bool, bool) {
					judged++
					if !applies(b) {
						return na != "TriStateBoolFalse", true
					}
					in, out := some(inc, b), some(exc, b)
					if len(inc) > 0 && len(exc) > 0 && in == out {
						return false, false // the documentation does not say
					}
					return (!out && (in || len(exc) > 0)) != b[k], true
				})
				c.decided(key+"/"+shape+"/applicable", "the filter applies to the files of the directories it is for", c.Invoke(m, t, filter, "IsApplicable", n), conds[:k], func(b []bool) (bool, bool) {
					return applies(b), true
				})
			}
			for method, want := range map[string]engine.Val{"Source": engine.Str(pattern), "Scope": engine.IntT(c.scope("ScopeFile"), scT)} {
				for _, o := range c.Invoke(m, s.Clone(), filter, method) {
					c.Ob(key+"/"+method, "the filter describes itself as it was defined", !o.Panicked && o.Results[0].Key() == want.Key(), "-", "%s is %v", method, o.Results)
				}
			}
		}
		c.Ob(key+"/given", "a well formed pattern gives a filter", asked > 0, "-", "it does not")
		return c.Done(m, key)
	}
	for _, p := range patterns {
		if !run(p, 0, "TriStateBoolFalse") {
			return
		}
	}
	for _, p := range malformed {
		if !run(p, 0, "TriStateBoolUndefined") {
			return
		}
	}
	for _, sc := range []int64{0, c.scope("ScopeFile"), c.scope("ScopeLeaf"), 1<<32 - 1} {
		for _, na := range []string{"TriStateBoolUndefined", "TriStateBoolTrue", "TriStateBoolFalse"} {
			if !run("a*/b|*.jpg", sc, na) {
				return
			}
		}
	}
	c.Count("truth_assignments", judged)
}

// decided is answers with the freedom not to judge some of the assignments.
func (c *C) decided(key, text string, outs []engine.Outcome, conds []engine.Val, want func(truth []bool) (bool, bool)) {
	c.Ob(key+"/answers", "the filter answers", len(outs) > 0, "-", "it does not")
	for _, o := range outs {
		if o.Panicked {
			c.Ob(key, text, false, "-", "it panics: %s", o.PanicVal.Key())
			continue
		}
		for bits := 0; bits < 1<<len(conds); bits++ {
			t, ok := o.State.Clone(), true
			truth := make([]bool, len(conds))
			for i, v := range conds {
				truth[i] = bits>>i&1 == 1
				ok = ok && t.Assume(v, truth[i])
			}
			if !ok {
				continue
			}
			w, judge := want(truth)
			if !judge {
				continue
			}
			got, known := t.Known(o.Results[0])
			c.Ob(key, text, known && got == w, "-", "it answers %s (%v %v) instead of %v given that %v", o.Results[0].Key(), got, known, w, t.Atoms())
		}
	}
}
