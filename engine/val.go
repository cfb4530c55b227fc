// Package engine is an interprocedural, flow-, context- and path-partitioned
// dataflow analysis over go/ssa.
//
// Abstract values are value numbers: constants, opaque tokens (named by the
// program point or access path that produces them), pure applications over
// those, addresses of abstract objects, closures. Branches whose condition is
// not decided by the value numbers partition the analysis by the truth value
// of that condition (trace partitioning on a finite set of atoms); there is no
// solver. Loops converge by staling the value numbers made in an earlier
// iteration and by widening counters. In-module calls are inlined
// (context sensitive), everything else is an opaque event.
package engine

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value; equal keys mean equal values.
type Val interface{ Key() string }

type Const struct {
	V   constant.Value // nil is the nil value
	T   types.Type
	key string
}

type Tok struct {
	ID     string
	T      types.Type
	NonNil bool
}

type App struct {
	Op   string
	Args []Val
	T    types.Type
	key  string
}

type Ptr struct {
	Obj  string
	Path string
	key  string
}

type SliceRef struct {
	Obj string
	Lo  int
	N   int
	key string
}

type MapRef struct{ Obj string }

type Clos struct {
	Fn   *ssa.Function
	Free []Val
	key  string
}

type Iface struct {
	Dyn types.Type
	V   Val
	key string
}

type Struct struct {
	T   *types.Struct
	F   []Val
	key string
}

type Tuple struct{ V []Val }

func (c *Const) Key() string {
	if c.V == nil {
		return "nil"
	}
	if c.key == "" {
		c.key = c.V.ExactString()
	}
	return c.key
}
func (t *Tok) Key() string { return t.ID }
func (a *App) Key() string {
	if a.key == "" {
		p := make([]string, len(a.Args))
		for i, x := range a.Args {
			p[i] = x.Key()
		}
		a.key = a.Op + "(" + strings.Join(p, ",") + ")"
	}
	return a.key
}
func (p *Ptr) Key() string {
	if p.key == "" {
		p.key = "&" + p.Obj + p.Path
	}
	return p.key
}
func (s *SliceRef) Key() string {
	if s.key == "" {
		s.key = fmt.Sprintf("slice:%s[%d+%d]", s.Obj, s.Lo, s.N)
	}
	return s.key
}
func (m *MapRef) Key() string { return "map:" + m.Obj }

func keys(vs []Val, sep string) string {
	p := make([]string, len(vs))
	for i, x := range vs {
		p[i] = x.Key()
	}
	return strings.Join(p, sep)
}

func (c *Clos) Key() string {
	if c.key == "" {
		c.key = "func:" + c.Fn.String()
		if len(c.Free) > 0 {
			c.key += "{" + keys(c.Free, ",") + "}"
		}
	}
	return c.key
}
func (i *Iface) Key() string {
	if i.key == "" {
		i.key = "iface:" + types.TypeString(i.Dyn, nil) + ":" + i.V.Key()
	}
	return i.key
}
func (s *Struct) Key() string {
	if s.key == "" {
		s.key = "struct{" + keys(s.F, ";") + "}"
	}
	return s.key
}
func (t *Tuple) Key() string {
	p := make([]string, len(t.V))
	for i, x := range t.V {
		p[i] = x.Key()
	}
	return "(" + strings.Join(p, ",") + ")"
}

var (
	Nil   = &Const{}
	True  = &Const{V: constant.MakeBool(true), T: types.Typ[types.Bool]}
	False = &Const{V: constant.MakeBool(false), T: types.Typ[types.Bool]}
)

func Bool(b bool) Val {
	if b {
		return True
	}
	return False
}

func Int(n int64) *Const { return &Const{V: constant.MakeInt64(n), T: types.Typ[types.Int]} }
func IntT(n int64, t types.Type) *Const {
	return &Const{V: constant.MakeInt64(n), T: t}
}
func Str(s string) *Const { return &Const{V: constant.MakeString(s), T: types.Typ[types.String]} }

func NewTok(id string, t types.Type) *Tok    { return &Tok{ID: "⟨" + id + "⟩", T: t} }
func NewNonNil(id string, t types.Type) *Tok { return &Tok{ID: "⟨" + id + "⟩", T: t, NonNil: true} }

func IsNil(v Val) bool {
	switch x := v.(type) {
	case *Const:
		return x.V == nil
	}
	return false
}

func isConst(v Val) (*Const, bool) {
	c, ok := v.(*Const)
	return c, ok
}

func intConst(v Val) (int64, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int {
		return constant.Int64Val(c.V)
	}
	return 0, false
}

// IntOf exposes the integer constant behind v.
func IntOf(v Val) (int64, bool) { return intConst(v) }

func boolConst(v Val) (bool, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}

// BoolOf exposes the boolean constant behind v.
func BoolOf(v Val) (bool, bool) { return boolConst(v) }

func mk(op string, t types.Type, args ...Val) *App { return &App{Op: op, Args: args, T: t} }

// MkApp builds an application value.
func MkApp(op string, t types.Type, args ...Val) Val { return mk(op, t, args...) }

func Not(v Val) Val {
	if b, ok := boolConst(v); ok {
		return Bool(!b)
	}
	if a, ok := v.(*App); ok && a.Op == "not" {
		return a.Args[0]
	}
	return mk("not", types.Typ[types.Bool], v)
}

var nonNilOps = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "list": true,
	"github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true,
}

// wrapOps add to an error, and yield nil for nil.
var wrapOps = map[string]bool{
	"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true, "github.com/pkg/errors.WithMessage": true,
	"github.com/pkg/errors.WithMessagef": true, "github.com/pkg/errors.WithStack": true,
}

// Sentinels are the package level variables that hold an error of their own,
// made by errors.New, for ever.
var Sentinels = map[string]bool{}

// plainError: an error value that wraps nothing and is equal only to itself.
func plainError(v Val) bool {
	switch x := v.(type) {
	case *Tok:
		return Sentinels[x.ID]
	case *App:
		return x.Op == "errors.New" || x.Op == "github.com/pkg/errors.New"
	}
	return false
}

func typeOf(v Val) types.Type {
	switch x := v.(type) {
	case *Const:
		return x.T
	case *Tok:
		return x.T
	case *App:
		return x.T
	}
	return nil
}

// isUnsigned: it is never negative.
func isUnsigned(v Val) bool {
	if a, ok := v.(*App); ok {
		switch a.Op {
		case "len", "cap":
			return true
		case "sum", "mulc":
			// lengths added up
			for _, x := range a.Args {
				if n, ok := intConst(x); ok && n >= 0 {
					continue
				}
				if l, ok := x.(*App); !ok || l.Op != "len" && l.Op != "cap" && (l.Op != "mulc" || !isUnsigned(l)) {
					return unsignedType(v)
				}
			}
			return true
		}
	}
	return unsignedType(v)
}

func unsignedType(v Val) bool {
	t := typeOf(v)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// NonNilVal: is v certainly not nil.
func NonNilVal(v Val) bool {
	switch x := v.(type) {
	case *Const:
		return x.V != nil
	case *Tok:
		return x.NonNil
	case *App:
		if wrapOps[x.Op] {
			return NonNilVal(x.Args[0])
		}
		return nonNilOps[x.Op]
	case *Ptr, *SliceRef, *MapRef, *Clos, *Iface, *Struct:
		return true
	}
	return false
}

// ---- linear normal form for integers -------------------------------------

type lin struct {
	terms map[string]int64
	vals  map[string]Val
	k     int64
}

func toLin(v Val) lin {
	l := lin{terms: map[string]int64{}, vals: map[string]Val{}}
	addLin(&l, v, 1)
	return l
}

func addLin(l *lin, v Val, c int64) {
	if n, ok := intConst(v); ok {
		l.k += c * n
		return
	}
	if a, ok := v.(*App); ok {
		switch a.Op {
		case "sum":
			for _, x := range a.Args {
				addLin(l, x, c)
			}
			return
		case "mulc":
			if n, ok := intConst(a.Args[0]); ok {
				addLin(l, a.Args[1], c*n)
				return
			}
		}
	}
	k := v.Key()
	l.terms[k] += c
	l.vals[k] = v
	if l.terms[k] == 0 {
		delete(l.terms, k)
		delete(l.vals, k)
	}
}

func (l lin) val(t types.Type) Val {
	keys := make([]string, 0, len(l.terms))
	for k := range l.terms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var args []Val
	for _, k := range keys {
		if l.terms[k] == 1 {
			args = append(args, l.vals[k])
		} else {
			args = append(args, mk("mulc", t, IntT(l.terms[k], t), l.vals[k]))
		}
	}
	if len(args) == 0 {
		return IntT(l.k, t)
	}
	if l.k != 0 {
		args = append(args, IntT(l.k, t))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("sum", t, args...)
}

// Add returns a+b in normal form.
func Add(a, b Val, t types.Type) Val {
	l := toLin(a)
	addLin(&l, b, 1)
	return l.val(t)
}

// Sub returns a-b in normal form.
func Sub(a, b Val, t types.Type) Val {
	l := toLin(a)
	addLin(&l, b, -1)
	return l.val(t)
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// Eq builds the canonical equality atom.
func Eq(a, b Val) Val {
	if i, ok := a.(*Iface); ok {
		if _, isI := b.(*Iface); !isI && !IsNil(b) && typeOf(b) != nil && !types.IsInterface(typeOf(b)) {
			a = i.V
		}
	}
	if a.Key() == b.Key() {
		return True
	}
	ca, aok := isConst(a)
	cb, bok := isConst(b)
	if aok && bok {
		if ca.V == nil || cb.V == nil {
			return Bool(ca.V == nil && cb.V == nil)
		}
		return Bool(constant.Compare(ca.V, tokEQL, cb.V))
	}
	if IsNil(a) && NonNilVal(b) || IsNil(b) && NonNilVal(a) {
		return False
	}
	if IsNil(b) {
		if w, ok := a.(*App); ok && wrapOps[w.Op] {
			return Eq(w.Args[0], b)
		}
	}
	if IsNil(a) && !bok {
		return Eq(b, a)
	}
	if plainError(a) && plainError(b) {
		return False
	}
	if _, ok := b.(*Iface); ok && plainError(a) {
		return False
	}
	if _, ok := a.(*Iface); ok && plainError(b) {
		return False
	}
	switch x := a.(type) {
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			// distinct fresh objects
			if strings.HasPrefix(x.Obj, "⟨new") && strings.HasPrefix(y.Obj, "⟨new") {
				return False
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if !types.Identical(x.Dyn, y.Dyn) {
				return False
			}
			return Eq(x.V, y.V)
		}
	}
	// booleans
	if v, ok := boolConst(b); ok {
		if v {
			return a
		}
		return Not(a)
	}
	if v, ok := boolConst(a); ok {
		if v {
			return b
		}
		return Not(b)
	}
	// integers: move constants to the right
	if n, ok := intConst(b); ok {
		l := toLin(a)
		if l.k != 0 {
			n -= l.k
			l.k = 0
			return Eq(l.val(typeOf(a)), IntT(n, typeOf(b)))
		}
	} else if _, ok := intConst(a); ok {
		return Eq(b, a)
	} else if isIntType(typeOf(a)) && isIntType(typeOf(b)) {
		l := toLin(a)
		addLin(&l, b, -1)
		if len(l.terms) == 0 {
			return Bool(l.k == 0)
		}
	}
	if bok {
		return mk("eq", types.Typ[types.Bool], a, b)
	}
	if aok || a.Key() > b.Key() {
		a, b = b, a
	}
	return mk("eq", types.Typ[types.Bool], a, b)
}

// Lt builds the canonical a<b atom.
func Lt(a, b Val) Val {
	if a.Key() == b.Key() {
		return False
	}
	ca, aok := isConst(a)
	cb, bok := isConst(b)
	if aok && bok && ca.V != nil && cb.V != nil {
		return Bool(constant.Compare(ca.V, tokLSS, cb.V))
	}
	if isIntType(typeOf(a)) && isIntType(typeOf(b)) || aok || bok {
		if n, ok := intConst(b); ok {
			l := toLin(a)
			n -= l.k
			l.k = 0
			x := l.val(typeOf(a))
			if isUnsigned(x) {
				if n <= 0 {
					return False
				}
				if n == 1 {
					return Eq(x, IntT(0, typeOf(a)))
				}
			}
			return mk("lt", types.Typ[types.Bool], x, IntT(n, typeOf(a)))
		}
		if n, ok := intConst(a); ok {
			// n < b  <=> not (b < n+1)
			return Not(Lt(b, IntT(n+1, typeOf(a))))
		}
		if isIntType(typeOf(a)) && isIntType(typeOf(b)) {
			d := toLin(a)
			addLin(&d, b, -1)
			if len(d.terms) == 0 {
				return Bool(d.k < 0)
			}
			if len(d.terms) == 1 && !unsignedType(a) && !unsignedType(b) {
				for k, n := range d.terms {
					switch n {
					case 1:
						return Lt(d.vals[k], IntT(-d.k, typeOf(a)))
					case -1:
						return Lt(IntT(d.k, typeOf(a)), d.vals[k])
					}
				}
			}
			// constants to the right
			la, lb := toLin(a), toLin(b)
			k := lb.k - la.k
			la.k, lb.k = 0, k
			a, b = la.val(typeOf(a)), lb.val(typeOf(b))
		}
	}
	return mk("lt", types.Typ[types.Bool], a, b)
}

// rename token names inside a value
func renameVal(v Val, from, to string) Val {
	if !strings.Contains(v.Key(), from) {
		return v
	}
	r := func(s string) string { return strings.ReplaceAll(s, from, to) }
	switch x := v.(type) {
	case *Tok:
		return &Tok{ID: r(x.ID), T: x.T, NonNil: x.NonNil}
	case *App:
		args := make([]Val, len(x.Args))
		for i, a := range x.Args {
			args[i] = renameVal(a, from, to)
		}
		return &App{Op: r(x.Op), Args: args, T: x.T}
	case *Ptr:
		return &Ptr{Obj: r(x.Obj), Path: r(x.Path)}
	case *SliceRef:
		return &SliceRef{Obj: r(x.Obj), Lo: x.Lo, N: x.N}
	case *MapRef:
		return &MapRef{Obj: r(x.Obj)}
	case *Clos:
		fr := make([]Val, len(x.Free))
		for i, a := range x.Free {
			fr[i] = renameVal(a, from, to)
		}
		return &Clos{Fn: x.Fn, Free: fr}
	case *Iface:
		return &Iface{Dyn: x.Dyn, V: renameVal(x.V, from, to)}
	case *Struct:
		f := make([]Val, len(x.F))
		for i, a := range x.F {
			f[i] = renameVal(a, from, to)
		}
		return &Struct{T: x.T, F: f}
	case *Tuple:
		f := make([]Val, len(x.V))
		for i, a := range x.V {
			f[i] = renameVal(a, from, to)
		}
		return &Tuple{V: f}
	}
	return v
}

func depthOf(v Val) int {
	a, ok := v.(*App)
	if !ok {
		return 0
	}
	m := 0
	for _, x := range a.Args {
		if d := depthOf(x); d > m {
			m = d
		}
	}
	return m + 1
}
