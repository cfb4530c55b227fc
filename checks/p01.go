package checks

import (
	"strings"

	"agverif/engine"
)

func init() {
	register(&Check{ID: "P01", Min: 20,
		Rule: "typestate over every abstract path of a navigation: descend opens and ascend closes the visit of a node, whatever the client, the hooks and the visits of children do (including panics), and the depth counter is restored",
		Run:  runP01})
}

// locate finds the place of an event.
func (c *C) locate(e *engine.Event) string {
	if e == nil || e.Instr == nil {
		return "-"
	}
	return c.W.InstrPos(e.Instr)
}

func runP01(c *C) {
	for _, sub := range Subscriptions {
		m := c.Machine()
		m.MayPanic = anyPanic
		st := c.Init(m, NavInit...)
		var where string
		node := func(s *engine.State, e *engine.Event) engine.Val {
			for _, a := range e.Args {
				if n := c.NodeOf(s, a); n != nil {
					return n
				}
			}
			return nil
		}
		c.Watch(m, func(s *engine.State, w, kind string, e *engine.Event) {
			if kind == "panic" && w == "onDescend" {
				// the visit did not begin
				s.Mon["br"] = "failed"
			}
			if kind != "call" {
				return
			}
			k := sub + "/" + where + "/"
			switch w {
			case "onDescend":
				c.Ob(k+"descend-first", "a node is descended into once, before anything else happens to it", s.Mon["br"] == "", c.locate(e), "%s", path(s))
				s.Mon["br"] = "open"
				if n := node(s, e); n != nil {
					s.Vals["descended"] = n
				}
			case "onAscend":
				c.Ob(k+"ascend-once", "a node is ascended from once, after it has been descended into", s.Mon["br"] == "open" || s.Mon["br"] == "failed", c.locate(e), "%s", path(s))
				s.Mon["br"] = "closed"
				n := node(s, e)
				c.Ob(k+"same-node", "the node ascended from is the node descended into", n != nil && s.Vals["descended"] != nil && n.Key() == s.Vals["descended"].Key(), c.locate(e), "%s", path(s))
			case "client", "readDirectory", "skip.Ask", "visit":
				c.Ob(k+w+"-within", w+" happens between descend and ascend", s.Mon["br"] == "open", c.locate(e), "%s", path(s))
				if w == "client" {
					n := node(s, e)
					c.Ob(k+"client-node", "the client is given the node descended into", n != nil && s.Vals["descended"] != nil && n.Key() == s.Vals["descended"].Key(), c.locate(e), "%s", path(s))
				}
			}
		})
		t := c.NewTravel(sub, m, st, c.Plain(sub, st))
		where = "tree"
		outs := t.Run(nil)
		c.Count("outcomes", len(outs))
		for _, o := range outs {
			c.Ob(sub+"/tree/closed", "every visit that began has ended when the navigation ends", o.State.Mon["br"] != "open", "-", "panicked=%v %s", o.Panicked, path(o.State))
		}
		where = "node"
		depths := t.depthFields()
		c.Ob(sub+"/depth-counter", "the navigation keeps a depth counter", len(depths) > 0, "-", "no counter differs between the tree and its children")
		outs = t.Visit(nil)
		c.Count("outcomes", len(outs))
		c.Ob(sub+"/visits", "visits of child nodes are analysed", len(outs) > 0, "-", "no visit")
		for _, o := range outs {
			c.Ob(sub+"/node/closed", "every visit that began has ended when it is left, by whatever way", o.State.Mon["br"] != "open", "-", "panicked=%v %s", o.Panicked, path(o.State))
			for _, d := range depths {
				v := o.State.ObjFields(d.Obj)[d.Path]
				c.Ob(sub+"/node/depth-restored", "the depth is restored when a visit is left, by whatever way", v != nil && v.Key() == t.anyField(d).Key(), "-", "depth is %v, panicked=%v, %s", key(v), o.Panicked, path(o.State))
			}
		}
		c.Done(m, sub)
	}
}

func key(v engine.Val) string {
	if v == nil {
		return "(nothing)"
	}
	return v.Key()
}

// depthFields are the varying locations that are not metrics.
func (t *Travel) depthFields() []*engine.Ptr {
	t.Visits()
	var out []*engine.Ptr
	for id, ps := range t.Varying {
		for _, v := range t.Visits() {
			if tt := v.st.TypeOf(id); tt != nil && !strings.HasSuffix(tt.String(), ".NavigationMetric") {
				for _, p := range ps {
					out = append(out, &engine.Ptr{Obj: id, Path: p})
				}
				break
			}
		}
	}
	return out
}

// anyField is the arbitrary value of a varying location.
func (t *Travel) anyField(p *engine.Ptr) engine.Val {
	for _, v := range t.Visits() {
		if x := v.st.ObjFields(p.Obj)[p.Path]; x != nil {
			return x
		}
	}
	return nil
}
