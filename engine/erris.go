package engine

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// errIs decides errors.Is(e, target) for a target that is equal only to
// itself, by looking through the wrappers: 1 yes, 0 no, -1 not known.
func (m *Machine) errIs(s *State, e, target Val, depth int) int {
	if depth > 8 || !plainError(target) {
		return -1
	}
	if IsNil(e) || s.IsNilKnown(e) {
		return 0
	}
	if e.Key() == target.Key() {
		return 1
	}
	if plainError(e) {
		return 0
	}
	var dyn types.Type
	val := e
	switch x := e.(type) {
	case *Iface:
		dyn, val = x.Dyn, x.V
	case *Tok:
		if x.T != nil && !types.IsInterface(x.T) {
			dyn = x.T
		}
	case *App:
		switch x.Op {
		case "fmt.Errorf":
			return m.errorfIs(s, x, target, depth)
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage",
			"github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack":
			return m.errIs(s, x.Args[0], target, depth+1)
		}
	}
	if dyn == nil {
		if b, ok := s.Decide(mk("errors.Is", types.Typ[types.Bool], e, target)); ok {
			if b {
				return 1
			}
			return 0
		}
		return -1
	}
	if look(dyn, "Is") != nil {
		return -1
	}
	un := look(dyn, "Unwrap")
	if un == nil {
		return 0
	}
	fn := m.Prog.FuncValue(un)
	if fn == nil || len(fn.Blocks) == 0 {
		return -1
	}
	path, ft, ok := returnedField(fn, 0)
	if !ok {
		return -1
	}
	switch x := val.(type) {
	case *Ptr:
		return m.errIs(s, s.Load(&Ptr{Obj: x.Obj, Path: x.Path + path}, ft), target, depth+1)
	case *Struct:
		st := x
		var v Val = st
		for _, f := range splitPath(path) {
			cur, ok := v.(*Struct)
			if !ok {
				return -1
			}
			v = nil
			for i := 0; i < cur.T.NumFields(); i++ {
				if cur.T.Field(i).Name() == f {
					v = cur.F[i]
				}
			}
			if v == nil {
				return -1
			}
		}
		return m.errIs(s, v, target, depth+1)
	case *Tok:
		if _, isPtr := dyn.Underlying().(*types.Pointer); isPtr {
			return m.errIs(s, s.Load(&Ptr{Obj: "*" + x.ID, Path: path}, ft), target, depth+1)
		}
	}
	return -1
}

func splitPath(p string) []string {
	var out []string
	cur := ""
	for i := 0; i < len(p); i++ {
		if p[i] == '.' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
			continue
		}
		cur += string(p[i])
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func look(t types.Type, name string) *types.Func {
	var pkg *types.Package
	b := t
	if p, ok := t.(*types.Pointer); ok {
		b = p.Elem()
	}
	if n, ok := types.Unalias(b).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	o, _, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	f, _ := o.(*types.Func)
	return f
}

// returnedField: the function returns a field of its receiver (or nil), itself
// or by way of what it calls.
func returnedField(fn *ssa.Function, depth int) (string, types.Type, bool) {
	if depth > 4 || len(fn.Params) == 0 {
		return "", nil, false
	}
	var walk func(v ssa.Value) (string, bool)
	walk = func(v ssa.Value) (string, bool) {
		switch x := v.(type) {
		case *ssa.Parameter:
			return "", x == fn.Params[0]
		case *ssa.Alloc:
			return "", true
		case *ssa.UnOp:
			return walk(x.X)
		case *ssa.FieldAddr:
			p, ok := walk(x.X)
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return p + "." + st.Field(x.Field).Name(), ok
		case *ssa.Field:
			p, ok := walk(x.X)
			st := x.X.Type().Underlying().(*types.Struct)
			return p + "." + st.Field(x.Field).Name(), ok
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || len(f.Blocks) == 0 || len(x.Call.Args) != 1 {
				return "", false
			}
			p, ok := walk(x.Call.Args[0])
			q, _, is := returnedField(f, depth+1)
			return p + q, ok && is
		}
		return "", false
	}
	path, t, found := "", types.Type(nil), false
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(r.Results) != 1 {
			return "", nil, false
		}
		if k, ok := r.Results[0].(*ssa.Const); ok && k.IsNil() {
			continue
		}
		p, ok := walk(r.Results[0])
		if !ok || p == "" || found && p != path {
			return "", nil, false
		}
		path, t, found = p, r.Results[0].Type(), true
	}
	return path, t, found
}

func (m *Machine) errorfIs(s *State, x *App, target Val, depth int) int {
	f, ok := x.Args[0].(*Const)
	if !ok || f.V == nil || f.V.Kind() != constant.String {
		return -1
	}
	format := constant.StringVal(f.V)
	var args []Val
	for _, a := range x.Args[1:] {
		if l, ok := a.(*App); ok && l.Op == "list" {
			args = append(args, l.Args...)
		} else {
			args = append(args, a)
		}
	}
	n, res := 0, 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == ' ' || format[i] >= '0' && format[i] <= '9' || format[i] == '.') {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == '*' || format[i] == '[' {
			return -1
		}
		if format[i] == 'w' {
			if n >= len(args) {
				return -1
			}
			switch m.errIs(s, args[n], target, depth+1) {
			case 1:
				return 1
			case -1:
				res = -1
			}
		}
		n++
	}
	return res
}
