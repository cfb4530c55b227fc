package checks

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P39", Min: 60,
		Rule: "the name that String gives each declared value of an enumeration, and values around them: there is one, it is that of no other value, and no value makes it panic",
		Run:  runP39})
}

func runP39(c *C) {
	w := c.W
	sc := w.pkg("enums").Pkg.Scope()
	stated := stated(w)
	for _, tn := range sc.Names() {
		o, ok := sc.Lookup(tn).(*types.TypeName)
		if !ok || !o.Exported() || o.IsAlias() {
			continue
		}
		t, ok := o.Type().(*types.Named)
		if !ok {
			continue
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		var str engine.Val
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if f := ms.At(i).Obj(); f.Name() == "String" {
				str = &engine.Clos{Fn: w.MethodOf(t, "String")}
			}
		}
		consts := w.EnumConsts("enums", tn)
		if str == nil || len(consts) == 0 {
			continue
		}
		m := c.Machine()
		st := c.Init(m, "enums")
		at := w.Pos(o.Pos())
		nameOf := func(v constant.Value) (string, string) {
			var names []string
			for _, o := range m.RunVal(st, str, &engine.Const{V: v, T: t}) {
				if o.Panicked {
					return "", "it panics: " + o.PanicVal.Key()
				}
				k, ok := o.Results[0].(*engine.Const)
				if !ok {
					names = append(names, o.Results[0].Key())
					continue
				}
				names = append(names, constant.StringVal(k.V))
			}
			if len(names) != 1 {
				return "", fmt.Sprintf("it has %d names: %v", len(names), names)
			}
			return names[0], ""
		}
		declared := map[string]bool{}
		byName := map[string]*types.Const{}
		for _, k := range consts {
			v := constant.ToInt(k.Val())
			declared[v.ExactString()] = true
			n, why := nameOf(v)
			c.Ob(tn+"/"+k.Name()+"/named", "a declared value has one name", why == "" && n != "" && !strings.HasPrefix(n, tn+"("), w.Pos(k.Pos()), "%s: %q %s", k.Name(), n, why)
			if s := stated[k.Pos()]; s != "" {
				c.Ob(tn+"/"+k.Name()+"/stated", "a value's name is the one that its declaration states", n == s, w.Pos(k.Pos()), "%q instead of %q", n, s)
			}
			p := byName[n]
			alone := p == nil || constant.Compare(p.Val(), token.EQL, k.Val())
			c.Ob(tn+"/"+k.Name()+"/own", "no two values have the same name", alone, w.Pos(k.Pos()), "another is %q, too", n)
			byName[n] = k
		}
		// values that aren't declared
		var around []constant.Value
		for v := range declared {
			k := constant.MakeFromLiteral(strings.TrimPrefix(v, "-"), token.INT, 0)
			if strings.HasPrefix(v, "-") {
				k = constant.UnaryOp(token.SUB, k, 0)
			}
			for _, d := range []int64{-1, 1} {
				around = append(around, constant.BinaryOp(k, token.ADD, constant.MakeInt64(d)))
			}
		}
		around = append(around, constant.MakeInt64(0), constant.MakeInt64(1<<31-1))
		sort.Slice(around, func(i, j int) bool { return around[i].ExactString() < around[j].ExactString() })
		for _, v := range around {
			if declared[v.ExactString()] || (b.Info()&types.IsUnsigned != 0 && constant.Sign(v) < 0) || constant.BitLen(v) > int(8*types.SizesFor("gc", "amd64").Sizeof(b))-1 {
				continue
			}
			declared[v.ExactString()] = true
			n, why := nameOf(v)
			same := byName[n]
			c.Ob(tn+"/others", "a value that isn't declared is not taken for one that is, nor does it panic", same == nil && !strings.HasPrefix(why, "it panics"), at, "%s(%s) is %q %s", tn, v, n, why)
		}
		if !c.Done(m, tn) {
			return
		}
	}
}

// stated collects the one word names that the declarations of constants
// state beside them.
func stated(w *World) map[token.Pos]string {
	names := map[token.Pos]string{}
	for _, f := range w.ByRel["enums"].Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST {
				continue
			}
			for _, s := range g.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Names) != 1 || v.Comment == nil {
					continue
				}
				if t := strings.TrimSpace(v.Comment.Text()); t != "" && !strings.ContainsAny(t, " \t\n") {
					names[v.Names[0].Pos()] = t
				}
			}
		}
	}
	return names
}
