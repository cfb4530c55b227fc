package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P34", Min: 300,
		Rule: "every error constructor, sentinel, predicate and message: which predicates accept which errors, which errors are taken for one another, and what of an error its text says",
		Run:  runP34})
}

// failure is an error that the library makes.
type failure struct {
	name, pkg string
	v         engine.Val
	st        *engine.State
	params    []*engine.Tok
	at        string
}

// message is the text that a type supplies.
type message struct {
	id, text string
	fields   []string
}

type failures struct {
	c     *C
	m     *engine.Machine
	msgs  map[string]message
	inner map[string][]engine.Val
	fill  func(t types.Type, field string, v engine.Val)
}

// categories: the predicates that accept what wraps the error they're about.
var categories = map[string][]string{
	"IsCoreResumeFsMismatchError": {"NewResumeFsMismatchError", "NewTraverseFsMismatchError", "ErrCoreResumeFsMismatch"},
	"IsCorePanicOccurredError":    {"NewTraversalSavedError", "NewTraversalNotSavedError", "ErrCorePanicOccurred"},
}

var placeholder = regexp.MustCompile(`\{\{[^}]*\}\}`)
var fieldRef = regexp.MustCompile(`^\{\{-?\s*\.(\w+)\s*-?\}\}$`)

func runP34(c *C) {
	w := c.W
	errT := types.Universe.Lookup("error").Type()
	errI := errT.Underlying().(*types.Interface)
	m := c.Machine()
	x := &failures{c: c, m: m, msgs: map[string]message{}, inner: map[string][]engine.Val{}}

	// what there is
	var preds, news []*ssa.Function
	var sentinels []*ssa.Global
	var texts []*types.Named
	var rels []string
	for rel, p := range w.SSA {
		if Product(p.Pkg.Path()) {
			rels = append(rels, rel)
		}
	}
	sort.Strings(rels)
	var withErrors []string
	for _, rel := range rels {
		sc := w.SSA[rel].Pkg.Scope()
		n := len(preds) + len(news) + len(sentinels)
		for _, name := range sc.Names() {
			switch o := sc.Lookup(name).(type) {
			case *types.Func:
				fn := w.SSA[rel].Func(name)
				sig := o.Type().(*types.Signature)
				if !o.Exported() || fn == nil || sig.TypeParams().Len() > 0 || !strings.HasSuffix(name, "Error") || sig.Results().Len() != 1 {
					continue
				}
				rt := sig.Results().At(0).Type()
				switch {
				case strings.HasPrefix(name, "Is") && sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), errT) && types.Identical(rt, types.Typ[types.Bool]):
					preds = append(preds, fn)
				case strings.HasPrefix(name, "New") && types.Implements(rt, errI):
					news = append(news, fn)
				}
			case *types.Var:
				if g := w.SSA[rel].Var(name); g != nil && o.Exported() && strings.HasPrefix(name, "Err") && types.Implements(o.Type(), errI) {
					sentinels = append(sentinels, g)
				}
			case *types.TypeName:
				t, ok := o.Type().(*types.Named)
				if !ok || o.IsAlias() || t.TypeParams().Len() > 0 {
					continue
				}
				if f := lookMethod(t, "Message"); f != nil {
					r := f.Type().(*types.Signature).Results()
					if r.Len() == 1 && strings.HasSuffix(r.At(0).Type().String(), "/i18n.Message") {
						texts = append(texts, t)
					}
				}
			}
		}
		if len(preds)+len(news)+len(sentinels) > n {
			withErrors = append(withErrors, rel)
		}
	}
	st := c.Init(m, withErrors...)
	for id := range engine.Sentinels {
		st.StoreTo(&engine.Ptr{Obj: id}, &engine.Tok{ID: id, T: errT, NonNil: true}, errT)
	}
	m.Model = x.model
	if !x.messages(st, texts) {
		return
	}

	// the errors
	var all []failure
	for _, g := range sentinels {
		t := g.Type().(*types.Pointer).Elem()
		v := st.Load(&engine.Ptr{Obj: "g:" + g.String()}, t)
		if !types.IsInterface(t) {
			v = &engine.Iface{Dyn: t, V: v}
		}
		all = append(all, failure{name: g.Name(), pkg: g.Pkg.Pkg.Path(), v: v, st: st, at: w.Pos(g.Pos())})
	}
	plain := all
	for _, f := range plain {
		x.unwrap(st, f.v)
	}
	for _, fn := range news {
		f := failure{name: fn.Name(), pkg: fn.Pkg.Pkg.Path(), at: w.Pos(fn.Pos())}
		var args []engine.Val
		for _, p := range fn.Params {
			k := engine.NewNonNil(fmt.Sprintf("%s of %s", p.Name(), fn.Name()), p.Type())
			f.params = append(f.params, k)
			args = append(args, k)
		}
		x.fill = func(t types.Type, field string, v engine.Val) {}
		outs := m.RunVal(st, &engine.Clos{Fn: fn}, args...)
		one := len(outs) == 1 && !outs[0].Panicked && engine.NonNilVal(outs[0].Results[0])
		c.Ob(f.name+"/made", "a constructor makes an error", one, f.at, "%d outcomes", len(outs))
		if !one {
			continue
		}
		f.st, f.v = outs[0].State, outs[0].Results[0]
		f.st.Vals["error"] = f.v
		x.unwrap(f.st, f.v)
		all = append(all, f)
		x.text(f.st, f)
	}

	// no error is taken for another
	for _, a := range plain {
		for _, b := range plain {
			if a.name == b.name {
				continue
			}
			is, ok := x.is(st, a.v, b.v, 0)
			c.Ob(a.name+"/"+b.name, "no error is taken for another", ok && !is, a.at, "%s is taken for %s (%v)", a.name, b.name, ok)
		}
	}
	said := map[string]string{}
	for _, a := range plain {
		t := x.said(a.v)
		if t == "" {
			continue
		}
		c.Ob(a.name+"/text", "no two errors say the same", said[t] == "" || said[t] == a.name, a.at, "%s says %q as well", said[t], t)
		said[t] = a.name
	}

	// predicates
	ask := func(st *engine.State, p *ssa.Function, v engine.Val) (bool, string) {
		outs := m.RunVal(st, &engine.Clos{Fn: p}, v)
		var ans []string
		for _, o := range outs {
			switch {
			case o.Panicked:
				return false, "it panics"
			case o.Results[0] == engine.True || o.Results[0].Key() == engine.True.Key():
				ans = append(ans, "true")
			case o.Results[0].Key() == engine.False.Key():
				ans = append(ans, "false")
			default:
				return false, "not known: " + o.Results[0].Key()
			}
		}
		for _, a := range ans {
			if a != ans[0] {
				return false, "not known: both"
			}
		}
		if len(ans) == 0 {
			return false, fmt.Sprintf("no answer: %v", m.Err)
		}
		return ans[0] == "true", ""
	}
	bare := func(n string) string {
		n = strings.TrimSuffix(n, "Error")
		for _, p := range []string{"Is", "New", "Err", "Core", "New"} {
			n = strings.TrimPrefix(n, p)
		}
		return n
	}
	for _, p := range preds {
		name, pkg, at := p.Name(), p.Pkg.Pkg.Path(), w.Pos(p.Pos())
		benign := name == "IsBenignError"
		yes, why := ask(st, p, engine.Nil)
		c.Ob(name+"/nil", "no error is no failure", why == "" && yes == benign, at, "%s(nil) is %v %s", name, yes, why)
		for _, f := range all {
			if f.pkg != pkg && bare(f.name) == bare(name) {
				continue // the same name, declared elsewhere
			}
			want := bare(f.name) == bare(name)
			for _, n := range categories[name] {
				want = want || n == f.name
			}
			yes, why := ask(f.st, p, f.v)
			c.Ob(name+"/"+f.name, "a predicate accepts the errors it is named after, and no others", why == "" && yes == want, at, "%s of what is %s: %v %s", name, f.name, yes, why)
			wrapped := &engine.App{Op: "fmt.Errorf", T: errT, Args: []engine.Val{engine.Str("context: %w"), &engine.App{Op: "list", Args: []engine.Val{f.v}}}}
			yes, why = ask(f.st, p, wrapped)
			c.Ob(name+"/"+f.name+"/wrapped", "a predicate isn't misled by context added to an error", why == "" && yes == want, at, "%s of what wraps %s: %v %s", name, f.name, yes, why)
		}
		if benign {
			for _, n := range []string{"g:io/fs.SkipDir", "g:io/fs.SkipAll"} {
				v := &engine.Tok{ID: n, T: errT, NonNil: true}
				yes, why := ask(st, p, v)
				c.Ob(name+"/"+n, "a request to skip is benign", why == "" && yes, at, "%s: %v %s", n, yes, why)
			}
			other := &engine.Tok{ID: "⟨any other⟩", T: errT, NonNil: true}
			yes, why := ask(st, p, other)
			c.Ob(name+"/other", "any other error isn't benign", why == "" && !yes, at, "%v %s", yes, why)
		}
	}
	c.Done(m, "errors")
}

func lookMethod(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == name {
			return f
		}
	}
	return nil
}

// messages judges the texts by themselves.
func (x *failures) messages(st *engine.State, ts []*types.Named) bool {
	c, w := x.c, x.c.W
	ids := map[string]string{}
	for _, t := range ts {
		name, at := t.Obj().Name(), w.Pos(t.Obj().Pos())
		recv := engine.Val(x.m.Param(name, t))
		if _, ptr := lookMethod(t, "Message").Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
			recv = engine.NewNonNil(name, types.NewPointer(t))
		}
		outs := x.m.RunVal(st, &engine.Clos{Fn: w.MethodOf(recvType(recv, t), "Message")}, recv)
		var msg message
		ok := len(outs) == 1 && !outs[0].Panicked
		if ok {
			p, isPtr := outs[0].Results[0].(*engine.Ptr)
			ok = isPtr
			if ok {
				f := outs[0].State.ObjFields(p.Obj)
				msg.id, msg.text = strOf(f[p.Path+".ID"]), strOf(f[p.Path+".Other"])
				if one := strOf(f[p.Path+".One"]); one != "" {
					msg.text += " " + one
				}
			}
		}
		c.Ob(name+"/message", "a message has an identity and a text", ok && msg.id != "" && msg.text != "", at, "%d outcomes, %q: %q", len(outs), msg.id, msg.text)
		if !ok {
			continue
		}
		c.Ob(name+"/id", "no two messages have the same identity", ids[msg.id] == "" || msg.id == "", at, "%q is that of %s, too", msg.id, ids[msg.id])
		ids[msg.id] = name
		fields := map[string]bool{}
		if u, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < u.NumFields(); i++ {
				if f := u.Field(i); f.Exported() && !f.Embedded() {
					fields[f.Name()] = false
				}
			}
		}
		for _, p := range placeholder.FindAllString(msg.text, -1) {
			r := fieldRef.FindStringSubmatch(p)
			known := false
			if r != nil {
				_, known = fields[r[1]]
				fields[r[1]] = true
				msg.fields = append(msg.fields, r[1])
			}
			c.Ob(name+"/"+p, "what a text refers to is there", known, at, "%s in %q", p, msg.text)
		}
		for _, f := range sorted(fields) {
			c.Ob(name+"/said/"+f, "what a message is given is said", fields[f], at, "%q doesn't say %s", msg.text, f)
		}
		x.msgs[t.String()] = msg
	}
	return true
}

func recvType(v engine.Val, t types.Type) types.Type {
	if k, ok := v.(*engine.Tok); ok && k.T != nil {
		if _, ptr := k.T.(*types.Pointer); ptr {
			return k.T
		}
	}
	return t
}

func sorted(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func strOf(v engine.Val) string {
	if k, ok := v.(*engine.Const); ok && k.V != nil && k.V.Kind() == constant.String {
		return constant.StringVal(k.V)
	}
	return ""
}

// said is the text of an error that has nothing but a message.
func (x *failures) said(v engine.Val) string {
	i, ok := v.(*engine.Iface)
	if !ok {
		return ""
	}
	s, ok := i.V.(*engine.Struct)
	if !ok {
		return ""
	}
	var d func(v engine.Val) string
	d = func(v engine.Val) string {
		switch y := v.(type) {
		case *engine.Iface:
			return x.msgs[y.Dyn.String()].text
		case *engine.Struct:
			for _, f := range y.F {
				if t := d(f); t != "" {
					return t
				}
			}
		}
		return ""
	}
	return d(s)
}

// text judges what an error says when it is asked.
func (x *failures) text(st *engine.State, f failure) {
	c := x.c
	x.fill = func(t types.Type, field string, v engine.Val) {
		k, zero := v.(*engine.Const)
		zero = zero && (k.V == nil || k.V.Kind() == constant.String && constant.StringVal(k.V) == "")
		c.Ob(f.name+"/filled/"+field, "what a text refers to is supplied", !zero, f.at, "%s of %s is empty", field, t)
	}
	var says []string
	switch e := f.v.(type) {
	case *engine.Iface:
		for _, o := range x.m.RunVal(st, &engine.Clos{Fn: c.W.MethodOf(e.Dyn, "Error")}, e.V) {
			if o.Panicked {
				says = append(says, "")
				c.Ob(f.name+"/says", "an error can be asked what it is", false, f.at, "it panics: %s", o.PanicVal.Key())
				continue
			}
			says = append(says, o.Results[0].Key())
		}
	default:
		says = append(says, f.v.Key())
	}
	for _, p := range f.params {
		for _, s := range says {
			c.Ob(f.name+"/"+p.ID, "an error says what it was made from", strings.Contains(s, p.ID), f.at, "%s isn't part of %.200s", p.ID, s)
		}
	}
}

// model supplies what the libraries do with errors.
func (x *failures) model(s *engine.State, e *engine.Event) ([]engine.Alt, bool) {
	switch n := e.Name(); {
	case n == "errors.Is" || n == "github.com/pkg/errors.Is":
		is, ok := x.is(s, e.Args[0], e.Args[1], 0)
		if !ok {
			return nil, false
		}
		return []engine.Alt{{Results: []engine.Val{engine.Bool(is)}}}, true
	case n == "errors.As" || n == "github.com/pkg/errors.As":
		if i, ok := e.Args[1].(*engine.Iface); ok {
			if pt, ok := i.Dyn.(*types.Pointer); ok {
				if p, ok := i.V.(*engine.Ptr); ok {
					v, known := x.as(s, e.Args[0], pt.Elem(), 0)
					if !known {
						return nil, false
					}
					if v != nil {
						s.StoreTo(p, v, pt.Elem())
					}
					return []engine.Alt{{Results: []engine.Val{engine.Bool(v != nil)}}}, true
				}
			}
		}
	case strings.HasSuffix(n, "li18ngo.Text") || strings.HasSuffix(n, "translate.Text"):
		i, ok := e.Args[0].(*engine.Iface)
		if !ok {
			break
		}
		msg, ok := x.msgs[i.Dyn.String()]
		if !ok {
			break
		}
		a := &engine.App{Op: "text", T: types.Typ[types.String], Args: []engine.Val{engine.Str(msg.id)}}
		u := i.Dyn.Underlying().(*types.Struct)
		d, ok := i.V.(*engine.Struct)
		if !ok {
			break
		}
		for _, f := range msg.fields {
			for k := 0; k < u.NumFields(); k++ {
				if u.Field(k).Name() == f {
					x.fill(i.Dyn, f, d.F[k])
					a.Args = append(a.Args, d.F[k])
				}
			}
		}
		return []engine.Alt{{Results: []engine.Val{a}}}, true
	}
	return LibModel(s, e)
}

// causes are what an error wraps.
func (x *failures) causes(e engine.Val) ([]engine.Val, bool) {
	switch v := e.(type) {
	case *engine.Const, *engine.Tok:
		return nil, true
	case *engine.App:
		switch v.Op {
		case "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			return nil, true
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
			return v.Args[:1], true
		case "fmt.Errorf":
			f := strOf(v.Args[0])
			var args, out []engine.Val
			for _, a := range v.Args[1:] {
				if l, ok := a.(*engine.App); ok && l.Op == "list" {
					args = append(args, l.Args...)
				} else {
					args = append(args, a)
				}
			}
			n := 0
			for _, d := range regexp.MustCompile(`%[-+# 0-9.]*.`).FindAllString(f, -1) {
				if strings.HasSuffix(d, "%") {
					continue
				}
				if strings.HasSuffix(d, "*") || strings.HasSuffix(d, "[") || n >= len(args) {
					return nil, false
				}
				if strings.HasSuffix(d, "w") {
					out = append(out, args[n])
				}
				n++
			}
			return out, f != ""
		case "errors.Join":
			return v.Args, true
		}
		return nil, false
	case *engine.Iface:
		f := lookMethod(deref(v.Dyn), "Unwrap")
		if f == nil {
			return nil, true
		}
		cs, ok := x.inner[v.Key()]
		return cs, ok
	}
	return nil, false
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// unwrap finds out what an error's Unwrap method, if it has one, yields.
func (x *failures) unwrap(s *engine.State, e engine.Val) {
	if v, ok := e.(*engine.Iface); ok && lookMethod(deref(v.Dyn), "Unwrap") != nil {
		outs := x.m.RunVal(s, &engine.Clos{Fn: x.c.W.MethodOf(v.Dyn, "Unwrap")}, v.V)
		if len(outs) == 1 && !outs[0].Panicked {
			x.inner[v.Key()] = outs[0].Results[:1]
		}
	}
	cs, _ := x.causes(e)
	for _, k := range cs {
		x.unwrap(s, k)
	}
}

// is says whether an error, or one that it wraps, is another.
func (x *failures) is(s *engine.State, e, target engine.Val, depth int) (bool, bool) {
	if depth > 8 {
		return false, false
	}
	if engine.IsNil(e) || engine.IsNil(target) {
		return engine.IsNil(e) && engine.IsNil(target), true
	}
	if i, ok := e.(*engine.Iface); ok && lookMethod(deref(i.Dyn), "Is") != nil {
		return false, false
	}
	if e.Key() == target.Key() {
		return true, true
	}
	cs, known := x.causes(e)
	for _, k := range cs {
		is, ok := x.is(s, k, target, depth+1)
		if is && ok {
			return true, true
		}
		known = known && ok
	}
	return false, known
}

// as finds the error of a type, among those that an error wraps.
func (x *failures) as(s *engine.State, e engine.Val, t types.Type, depth int) (engine.Val, bool) {
	if depth > 8 {
		return nil, false
	}
	if i, ok := e.(*engine.Iface); ok {
		if types.Identical(i.Dyn, t) {
			return i.V, true
		}
		if it, ok := t.Underlying().(*types.Interface); ok && types.Implements(i.Dyn, it) {
			return i, true
		}
	}
	cs, known := x.causes(e)
	for _, k := range cs {
		v, ok := x.as(s, k, t, depth+1)
		if v != nil && ok {
			return v, true
		}
		known = known && ok
	}
	return nil, known
}
