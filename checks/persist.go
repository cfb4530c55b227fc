package checks

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"agverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "P24", Min: 150,
		Rule: "value flow of every setting and of every field of the active state from the objects that are saved, through what is encoded, to the objects that are loaded; type rule: whatever is encoded is decoded again from the same key",
		Run:  runP24})
	register(&Check{ID: "P25", Min: 40,
		Rule: "decision table of the comparison over every path, for every setting and every combination of missing definitions; effects of saving and loading when a step fails",
		Run:  runP25})
}

// fill gives every field of a new object a value of its own; definitions that
// are referred to are made, depending on the shape, and the values are
// recorded by path.
func (c *C) fill(st *engine.State, id, tag string, t types.Type, shape string, out map[string]engine.Val) *engine.Ptr {
	p := st.New(id, t)
	st.Vals["made "+id] = p
	lv := map[string]types.Type{}
	leaves(t, "", lv)
	c.fillAt(st, p, id, tag, lv, shape, "", out)
	return p
}

func (c *C) fillAt(st *engine.State, p *engine.Ptr, id, tag string, lv map[string]types.Type, shape, prefix string, out map[string]engine.Val) {
	var ps []string
	for q := range lv {
		ps = append(ps, q)
	}
	sort.Strings(ps)
	for _, q := range ps {
		t := lv[q]
		full := prefix + q
		var v engine.Val
		if d := definition(t); d != nil {
			sub := shape
			if strings.HasSuffix(q, ".Poly") {
				sub = map[string]string{"poly": "plain", "nested poly": "poly"}[shape]
			}
			if sub == "none" || sub == "" {
				v = engine.Nil
			} else {
				v = c.fillAt2(st, id+full, tag, d, sub, full, out)
			}
		} else if types.IsInterface(t) {
			v = engine.NewNonNil(tag+full, t)
		} else {
			v = engine.NewTok(tag+full, t)
		}
		out[full] = v
		st.StoreTo(&engine.Ptr{Obj: p.Obj, Path: q}, v, t)
	}
}

func (c *C) fillAt2(st *engine.State, id, tag string, d types.Type, shape, prefix string, out map[string]engine.Val) *engine.Ptr {
	p := st.New(id, d)
	st.Vals["made "+id] = p
	lv := map[string]types.Type{}
	leaves(d, "", lv)
	c.fillAt(st, p, id, tag, lv, shape, prefix, out)
	return p
}

// definition: a pointer to a filter definition
func definition(t types.Type) types.Type {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || !strings.HasSuffix(n.Obj().Name(), "Def") {
		return nil
	}
	return n
}

// shaken reads the fields of an object (and of the definitions it refers to) by path.
func (c *C) read(st *engine.State, p *engine.Ptr, t types.Type, prefix string, out map[string]engine.Val) {
	lv := map[string]types.Type{}
	leaves(t, "", lv)
	for q, ft := range lv {
		v := st.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + q}, ft)
		out[prefix+q] = v
		if d := definition(ft); d != nil {
			if x, ok := v.(*engine.Ptr); ok && strings.Count(prefix+q, ".Poly") < 3 {
				c.read(st, x, d, prefix+q, out)
			}
		}
	}
}

// data: values that can be written to a file
func data(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Pointer:
		return definition(t) != nil
	case *types.Map:
		return data(u.Key())
	}
	return false
}

var shapes = []string{"none", "plain", "poly", "nested poly"}

// jsonPkg is the model of encoding/json: what is encoded and what it is decoded into
type jsonPkg struct {
	c        *C
	encoded  map[string]types.Type
	onEncode func(s *engine.State, v *engine.Ptr, t types.Type)
	decode   func(s *engine.State, into *engine.Ptr, t types.Type)
	fail     bool // also the outcomes in which it fails
}

func (j *jsonPkg) model(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
	if e.Fn == nil || e.Fn.Pkg == nil || e.Fn.Pkg.Pkg.Path() != "encoding/json" {
		return LibModel(s, e)
	}
	target := func(v engine.Val) (*engine.Ptr, types.Type) {
		if i, ok := v.(*engine.Iface); ok {
			if p, ok := i.V.(*engine.Ptr); ok {
				if pt, ok := i.Dyn.Underlying().(*types.Pointer); ok {
					return p, pt.Elem()
				}
			}
		}
		panic("encoding/json is given " + v.Key())
	}
	var alts []engine.Alt
	switch e.Fn.Name() {
	case "Marshal", "MarshalIndent":
		p, t := target(e.Args[0])
		if s.Vals["encoded"] == nil {
			s.Vals["encoded"] = p
			if j.onEncode != nil {
				j.onEncode(s, p, t)
			}
		}
		j.encoded["written"] = t
		alts = append(alts, engine.Alt{Results: []engine.Val{engine.NewNonNil("encoded text", e.Sig.Results().At(0).Type()), engine.Nil}})
		if j.fail {
			alts = append(alts, engine.Alt{Results: []engine.Val{engine.NewTok("nothing", e.Sig.Results().At(0).Type()), engine.NewNonNil("encode error", errT)}})
		}
		return alts, true
	case "Unmarshal":
		p, t := target(e.Args[1])
		j.encoded["read"] = t
		if j.decode != nil {
			j.decode(s, p, t)
		}
		alts = append(alts, engine.Alt{Results: []engine.Val{engine.Nil}})
		if j.fail {
			alts = append(alts, engine.Alt{Results: []engine.Val{engine.NewNonNil("decode error", errT)}})
		}
		return alts, true
	}
	panic("encoding/json." + e.Fn.Name() + " is not modelled")
}

// jsonKey is the key under which a field is encoded.
func jsonKey(u *types.Struct, i int) (string, string) {
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	name, opts, _ := strings.Cut(tag, ",")
	if name == "" {
		name = u.Field(i).Name()
	}
	return name, opts
}

// encodable: everything that is encoded is decoded again.
func (c *C) encodable(key string, t types.Type, seen map[types.Type]bool, at string) {
	if seen[t] {
		return
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		at = c.W.Pos(n.Obj().Pos())
		ms := types.NewMethodSet(types.NewPointer(n))
		has := func(name string) bool {
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == name {
					return true
				}
			}
			return false
		}
		for _, k := range []string{"JSON", "Text"} {
			c.Ob(key+"/own-encoding", "a type that encodes itself also decodes itself", has("Marshal"+k) == has("Unmarshal"+k), at, "%s encodes itself as %s but doesn't decode itself, or the reverse", n.Obj().Name(), k)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		keys := map[string]string{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c.Ob(key+"."+f.Name()+"/exported", "the field is exported, so that it is encoded", f.Exported(), at, "%s is not exported", f.Name())
			k, opts := jsonKey(u, i)
			lower := strings.ToLower(k)
			c.Ob(key+"."+f.Name()+"/key", "no two fields have the same key (keys are matched without regard to case)", keys[lower] == "", at, "%s has the key %q of %s", f.Name(), k, keys[lower])
			keys[lower] = f.Name()
			c.Ob(key+"."+f.Name()+"/not-left-out", "the field is not left out", k != "-" || opts != "", at, "the key of %s is -", f.Name())
			c.encodable(key+"."+f.Name(), f.Type(), seen, at)
		}
	case *types.Pointer:
		c.encodable(key, u.Elem(), seen, at)
	case *types.Slice:
		c.encodable(key, u.Elem(), seen, at)
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		c.Ob(key+"/map", "the keys of the map can be encoded", ok && b.Info()&(types.IsInteger|types.IsString) != 0, at, "keys of type %s", u.Key())
		c.encodable(key, u.Elem(), seen, at)
	case *types.Interface, *types.Signature, *types.Chan:
		c.Ob(key+"/data", "what is encoded is plain data", false, at, "%s can't be decoded", t)
	}
}

// settings that are not part of what is saved
var unsaved = []string{".Concurrency.Input", ".Concurrency.Output", ".Monitor"}

func (c *C) request(st *engine.State, typeName string, fields map[string]engine.Val) engine.Val {
	return c.object(st, typeName, c.W.Named("internal/persist", typeName), fields)
}

func runP24(c *C) {
	w := c.W
	optT, actT := w.Named("pref", "Options"), w.Named("core", "ActiveState")
	str := types.Typ[types.String]
	for _, shape := range shapes {
		m := c.Machine()
		j := &jsonPkg{c: c, encoded: map[string]types.Type{}}
		m.Model = j.model
		m.Recur = 6
		st := c.Init(m, "enums", "core", "pref", "internal/persist")
		opts, act := map[string]engine.Val{}, map[string]engine.Val{}
		o := c.fill(st, "options", "option", optT, shape, opts)
		a := c.fill(st, "active", "active", actT, shape, act)
		saveFn, loadFn := w.Fn("internal/persist", "Marshal"), w.Fn("internal/persist", "Unmarshal")
		fsT := func(fn *ssa.Function, typ, field string) types.Type {
			u := w.Named("internal/persist", typ).Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == field {
					return u.Field(i).Type()
				}
			}
			panic(Missing(typ + "." + field))
		}
		req := c.request(st, "MarshalRequest", map[string]engine.Val{
			".Active": a, ".O": o, ".Path": engine.NewTok("path", str),
			".Perm": engine.NewTok("permissions", fsT(saveFn, "MarshalRequest", "Perm")),
			".FS":   engine.NewNonNil("resume fs", fsT(saveFn, "MarshalRequest", "FS"))})
		written := 0
		m.On = func(s *engine.State, e *engine.Event) {
			if e.Kind == "call" && strings.HasSuffix(What(e), ".WriteFile") {
				written++
				got := ""
				for _, x := range e.Args {
					got += x.Key() + " "
				}
				c.Ob(shape+"/written", "what is encoded is written to the path asked for, with the permissions asked for", got == "⟨path⟩ ⟨encoded text⟩ ⟨permissions⟩ ", w.InstrPos(e.Instr), "WriteFile(%s)", got)
			}
		}
		loads := 0
		for _, out := range m.Run(st, saveFn, req) {
			if out.Panicked {
				c.Ob(shape+"/saves", "the state can be saved", false, w.Pos(saveFn.Pos()), "it panics: %s", out.PanicVal.Key())
				continue
			}
			enc, _ := out.State.Vals["encoded"].(*engine.Ptr)
			s := out.State
			if enc == nil {
				c.Ob(shape+"/encoded", "the state is encoded", false, w.Pos(saveFn.Pos()), "it is not: %s", path(s))
				continue
			}
			if err := errResult(out.Results); s.NonNilKnown(err) && !strings.Contains(err.Key(), "WriteFile") {
				c.Ob(shape+"/saves", "the state can be saved whatever the options are", false, w.Pos(saveFn.Pos()), "error %s: %v", err.Key(), s.Atoms())
				continue
			}
			j.decode = func(s *engine.State, into *engine.Ptr, t types.Type) {
				src, dst := j.encoded["written"], t
				su, du := src.Underlying().(*types.Struct), dst.Underlying().(*types.Struct)
				for i := 0; i < du.NumFields(); i++ {
					dk, _ := jsonKey(du, i)
					for n := 0; n < su.NumFields(); n++ {
						if sk, _ := jsonKey(su, n); strings.EqualFold(sk, dk) && types.Identical(su.Field(n).Type(), du.Field(i).Type()) {
							v := s.Load(&engine.Ptr{Obj: enc.Obj, Path: enc.Path + "." + su.Field(n).Name()}, su.Field(n).Type())
							s.StoreTo(&engine.Ptr{Obj: into.Obj, Path: into.Path + "." + du.Field(i).Name()}, v, du.Field(i).Type())
						}
					}
				}
			}
			restore := c.object(s, "RestoreState", w.Named("internal/enclave", "RestoreState"), map[string]engine.Val{
				".Path": engine.NewTok("path", str), ".FS": engine.NewNonNil("resume fs", fsT(loadFn, "MarshalRequest", "FS"))})
			rq := c.request(s, "UnmarshalRequest", map[string]engine.Val{".Restore": restore})
			for _, l := range m.Run(s, loadFn, rq, engine.Nil) {
				if l.Panicked {
					c.Ob(shape+"/loads", "what was saved can be loaded", false, w.Pos(loadFn.Pos()), "it panics: %s", l.PanicVal.Key())
					continue
				}
				ls := l.State
				if err := errResult(l.Results); !engine.IsNil(err) && !ls.IsNilKnown(err) {
					c.Ob(shape+"/loads", "what was saved can be loaded", strings.Contains(err.Key(), "ReadFile"), w.Pos(loadFn.Pos()), "error %s: %v", err.Key(), ls.Atoms())
					continue
				}
				loads++
				res, _ := l.Results[0].(*engine.Ptr)
				if res == nil {
					c.Ob(shape+"/loads", "loading gives the options and the active state", false, w.Pos(loadFn.Pos()), "it gives %s", l.Results[0].Key())
					continue
				}
				c.same(shape+"/options", ls, res, ".O", optT, opts, func(p string, t types.Type) bool {
					for _, u := range unsaved {
						if under(p, u) {
							return false
						}
					}
					return data(t)
				}, w.Pos(loadFn.Pos()))
				c.same(shape+"/active", ls, res, ".Active", actT, act, func(p string, t types.Type) bool { return true }, w.Pos(loadFn.Pos()))
			}
		}
		if !c.Done(m, shape) {
			return
		}
		c.Ob(shape+"/round-trip", "what is saved is written once and can be loaded", written > 0 && loads > 0, "-", "%d writes, %d loads", written, loads)
		if shape == shapes[0] {
			for _, k := range []string{"written", "read"} {
				if t := j.encoded[k]; t != nil {
					c.encodable(k, t, map[types.Type]bool{}, "-")
				}
			}
		}
	}
}

// same compares an object that was loaded with the one that was saved.
func (c *C) same(key string, s *engine.State, res *engine.Ptr, field string, t types.Type, want map[string]engine.Val, saved func(string, types.Type) bool, at string) {
	v := s.Load(&engine.Ptr{Obj: res.Obj, Path: res.Path + field}, types.NewPointer(t))
	p, ok := v.(*engine.Ptr)
	if !ok {
		c.Ob(key+"/loaded", "it is loaded", false, at, "it is %s", v.Key())
		return
	}
	got := map[string]engine.Val{}
	c.read(s, p, t, "", got)
	ts := map[string]types.Type{}
	c.typesOf(t, "", ts)
	for q, x := range want {
		ft := ts[q]
		if ft == nil || !saved(q, ft) {
			continue
		}
		g := got[q]
		switch {
		case g == nil:
			c.Ob(key+q, "the setting is as it was when it was saved", false, at, "it is gone instead of %s", x.Key())
		case definition(ft) != nil:
			c.Ob(key+q, "the definition is there precisely if it was when it was saved", engine.IsNil(g) == engine.IsNil(x), at, "it is %s instead of %s", g.Key(), x.Key())
		default:
			c.Ob(key+q, "the setting is as it was when it was saved", g.Key() == x.Key(), at, "it is %s instead of %s", g.Key(), x.Key())
		}
	}
}

// typesOf lists the types of the fields of a struct and of the definitions it refers to.
func (c *C) typesOf(t types.Type, prefix string, out map[string]types.Type) {
	lv := map[string]types.Type{}
	leaves(t, "", lv)
	for q, ft := range lv {
		out[prefix+q] = ft
		if d := definition(ft); d != nil && strings.Count(prefix+q, ".Poly") < 3 {
			c.typesOf(d, prefix+q, out)
		}
	}
}

// saving runs Marshal for options of a shape and gives the request's options
// and the outcomes in which something was encoded.
func (c *C) saving(m *engine.Machine, j *jsonPkg, shape string, opts map[string]engine.Val) []engine.Outcome {
	w := c.W
	fn := w.Fn("internal/persist", "Marshal")
	st := c.Init(m, "enums", "core", "pref", "internal/persist")
	o := c.fill(st, "options", "option", w.Named("pref", "Options"), shape, opts)
	a := c.fill(st, "active", "active", w.Named("core", "ActiveState"), shape, map[string]engine.Val{})
	req := c.request(st, "MarshalRequest", map[string]engine.Val{
		".Active": a, ".O": o, ".Path": engine.NewTok("path", types.Typ[types.String]),
		".FS": engine.NewNonNil("resume fs", c.ioType("io/fs", "FS"))})
	return m.Run(st, fn, req)
}

// comparing recognises the functions that compare options with what is saved of them.
func (c *C) comparing(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != Mod+"/internal/persist" || fn.Signature.Results().Len() != 1 || fn.Signature.Results().At(0).Type() != errT {
		return false
	}
	o, j := false, false
	note := func(t types.Type) {
		s := types.TypeString(t, nil)
		o = o || strings.HasSuffix(s, "/pref.Options") || strings.HasSuffix(s, "persist.Comparison")
		j = j || strings.HasSuffix(s, "/json.Options") || strings.HasSuffix(s, "persist.Comparison")
	}
	for _, p := range fn.Params {
		note(p.Type())
	}
	return o && j
}

func runP25(c *C) {
	w := c.W
	cmpT := w.Named("internal/persist", "Comparison")
	jsonT := w.Named("internal/opts/json", "Options")
	optT := w.Named("pref", "Options")
	equals := w.MethodOf(types.NewPointer(cmpT), "Equals")
	at := w.Pos(equals.Pos())
	for _, shape := range shapes {
		// where each setting is saved
		m := c.Machine()
		m.Recur = 6
		j := &jsonPkg{c: c, encoded: map[string]types.Type{}}
		m.Model = j.model
		opts := map[string]engine.Val{}
		outs := c.saving(m, j, shape, opts)
		if !c.Done(m, shape) {
			return
		}
		var st *engine.State
		var jo, po *engine.Ptr
		for _, o := range outs {
			p, _ := o.State.Vals["encoded"].(*engine.Ptr)
			if o.Panicked || p == nil {
				continue
			}
			v := o.State.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + ".JO"}, types.NewPointer(jsonT))
			if x, ok := v.(*engine.Ptr); ok {
				st, jo, po = o.State, x, o.State.Vals["made options"].(*engine.Ptr)
			}
		}
		if st == nil {
			c.Ob(shape+"/saved", "the options are saved", false, at, "they are not")
			continue
		}
		compare := func(st *engine.State) ([]engine.Outcome, bool) {
			cmp := c.object(st, "comparison", cmpT, map[string]engine.Val{".JO": jo, ".O": po})
			m := c.Machine()
			m.Recur = 6
			return m.Run(st, equals, cmp), c.Done(m, shape)
		}
		fields := map[string]engine.Val{}
		c.read(st, jo, jsonT, "", fields)
		ts := map[string]types.Type{}
		c.typesOf(jsonT, "", ts)
		var qs []string
		for q := range fields {
			qs = append(qs, q)
		}
		sort.Strings(qs)
		// every setting has a value of its own on both sides
		apart := st.Clone()
		pairs := map[string]engine.Val{}
		var places func(s *engine.State, p *engine.Ptr, t types.Type, prefix string)
		places = func(s *engine.State, p *engine.Ptr, t types.Type, prefix string) {
			lv := map[string]types.Type{}
			leaves(t, "", lv)
			for q, ft := range lv {
				v := s.Load(&engine.Ptr{Obj: p.Obj, Path: p.Path + q}, ft)
				if d := definition(ft); d != nil {
					if x, ok := v.(*engine.Ptr); ok {
						places(s, x, d, prefix+q)
					}
					continue
				}
				n := engine.NewTok("saved"+prefix+q, ft)
				pairs[prefix+q] = engine.Eq(v, n)
				s.StoreTo(&engine.Ptr{Obj: p.Obj, Path: p.Path + q}, n, ft)
			}
		}
		places(apart, jo, jsonT, "")
		outs, ok := compare(apart)
		if !ok {
			return
		}
		equal, unequal := 0, 0
		for _, o := range outs {
			if o.Panicked {
				c.Ob(shape+"/compares", "any two can be compared", false, at, "it panics: %s", o.PanicVal.Key())
				continue
			}
			s := o.State
			if err := o.Results[0]; engine.IsNil(err) || s.IsNilKnown(err) {
				equal++
				for q, p := range pairs {
					c.Ob(shape+"/detects"+q, "options that differ in the setting are not equal", knownTrue(s, p), at, "they are, though %s may differ: %v", q, s.Atoms())
				}
			} else {
				unequal++
				differs := false
				for _, p := range pairs {
					differs = differs || knownFalse(s, p)
				}
				c.Ob(shape+"/differs", "options that don't differ are equal", differs && s.NonNilKnown(err), at, "they are not: %s: %v", err.Key(), s.Atoms())
			}
		}
		c.Ob(shape+"/outcomes", "options may be equal, or not", equal > 0 && unequal > 0, at, "%d outcomes with, %d without an error", unequal, equal)
		// a definition that only one side has
		for _, q := range qs {
			d := definition(ts[q])
			if d == nil {
				continue
			}
			holder, name := jo, q
			if i := strings.LastIndex(q, ".Poly"); i > 0 {
				holder = nil
				if p, ok := fields[q[:i]].(*engine.Ptr); ok {
					holder, name = p, q[i:]
				} else if k := strings.LastIndex(q[:i], ".Poly"); k > 0 {
					if p, ok := fields[q[:k+5]].(*engine.Ptr); ok {
						holder, name = p, q[k+5:]
					}
				}
			}
			if holder == nil {
				continue
			}
			s := st.Clone()
			if _, there := fields[q].(*engine.Ptr); there {
				s.StoreTo(&engine.Ptr{Obj: holder.Obj, Path: holder.Path + name}, engine.Nil, ts[q])
			} else {
				x := c.fillAt2(s, "another"+q, "another", d, "plain", q, map[string]engine.Val{})
				s.StoreTo(&engine.Ptr{Obj: holder.Obj, Path: holder.Path + name}, x, ts[q])
			}
			outs, ok := compare(s)
			if !ok {
				return
			}
			for _, o := range outs {
				c.Ob(shape+"/one-sided"+q, "a definition that only one of them has makes them differ", !o.Panicked && o.State.NonNilKnown(o.Results[0]), at, "they are equal")
			}
		}
	}
	for _, nils := range []string{".JO", ".O"} {
		m := c.Machine()
		st := m.NewState()
		f := map[string]engine.Val{".JO": st.New("saved options", jsonT), ".O": st.New("options", optT)}
		f[nils] = engine.Nil
		for _, o := range m.Run(st, equals, c.object(st, "comparison", cmpT, f)) {
			c.Ob("missing"+nils, "options that are missing are not equal to any", !o.Panicked && o.State.NonNilKnown(o.Results[0]), at, "they are equal, or it panics")
		}
		if !c.Done(m, "missing"+nils) {
			return
		}
	}
	// what fails is reported, and nothing is written that was not compared successfully
	for _, shape := range shapes {
		m := c.Machine()
		k := "save/" + shape
		m.Recur = 6
		m.Opaque = c.comparing
		j := &jsonPkg{c: c, encoded: map[string]types.Type{}, fail: true}
		m.Model = j.model
		m.On = func(s *engine.State, e *engine.Event) {
			wt := What(e)
			switch {
			case e.Kind == "ret" && e.Fn != nil && c.comparing(e.Fn):
				s.Vals["compared"] = e.Results[0]
			case e.Kind == "call" && strings.HasSuffix(wt, ".WriteFile"):
				v := s.Vals["compared"]
				c.Ob(k+"/compared", "nothing is written unless what is saved was found equal to the options", v != nil && s.IsNilKnown(v), w.InstrPos(e.Instr), "compared: %s", key(v))
				s.Mon["written"] = "yes"
			case e.Kind == "ret" && strings.HasSuffix(wt, ".WriteFile"):
				s.Vals["write error"] = e.Results[0]
			case e.Kind == "ret" && strings.HasPrefix(wt, "json.Marshal"):
				s.Vals["encode error"] = e.Results[1]
			}
		}
		opts := map[string]engine.Val{}
		fn := w.Fn("internal/persist", "Marshal")
		at = w.Pos(fn.Pos())
		for _, o := range c.saving(m, j, shape, opts) {
			s := o.State
			if o.Panicked {
				c.Ob(k+"/completes", "saving doesn't panic", false, at, "%s", o.PanicVal.Key())
				continue
			}
			res := errResult(o.Results)
			for _, of := range []string{"encode error", "compared", "write error"} {
				if v := s.Vals[of]; v != nil && !s.IsNilKnown(v) {
					c.Ob(k+"/reports "+of, "what fails while saving is reported", res.Key() == v.Key() || s.NonNilKnown(v) && s.NonNilKnown(res), at, "%s is returned instead of %s", key(res), v.Key())
				}
			}
			if s.IsNilKnown(res) {
				c.Ob(k+"/written", "what is saved successfully was written", s.Mon["written"] == "yes", at, "it was not: %v", s.Atoms())
			}
		}
		if !c.Done(m, k) {
			return
		}
	}
}
