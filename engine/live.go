package engine

import "golang.org/x/tools/go/ssa"

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

// liveness: values live at a block's first non-phi instruction.
func (m *Machine) liveness(fn *ssa.Function) *liveness {
	if l, ok := m.live[fn]; ok {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		out[b] = map[ssa.Value]bool{}
	}
	blocks := append([]*ssa.BasicBlock(nil), fn.Blocks...)
	for changed := true; changed; {
		changed = false
		for i := len(blocks) - 1; i >= 0; i-- {
			b := blocks[i]
			o := out[b]
			for _, sc := range b.Succs {
				for v := range l.in[sc] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == sc {
						continue
					}
					if !o[v] {
						o[v] = true
						changed = true
					}
				}
				idx := -1
				for k, p := range sc.Preds {
					if p == b {
						idx = k
					}
				}
				for _, in := range sc.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					e := p.Edges[idx]
					if !o[e] {
						o[e] = true
						changed = true
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range o {
				cur[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if p, ok := in.(*ssa.Phi); ok {
					_ = p
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			if fn.Recover != nil && b != fn.Recover {
				for v := range l.in[fn.Recover] {
					cur[v] = true
				}
			}
			if len(cur) != len(l.in[b]) {
				l.in[b] = cur
				changed = true
			}
		}
	}
	m.live[fn] = l
	return l
}

// headers: loop header -> sources of its back edges.
func (m *Machine) headers(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if h, ok := m.hdrs[fn]; ok {
		return h
	}
	h := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, sc := range b.Succs {
			if sc.Dominates(b) {
				if h[sc] == nil {
					h[sc] = map[*ssa.BasicBlock]bool{}
				}
				h[sc][b] = true
			}
		}
	}
	m.hdrs[fn] = h
	return h
}

// inLoop: b belongs to the natural loop of header h.
func (m *Machine) inLoop(fn *ssa.Function, h, b *ssa.BasicBlock) bool {
	if b == h {
		return true
	}
	if !h.Dominates(b) {
		return false
	}
	// b reaches a back edge source without leaving through h
	seen := map[*ssa.BasicBlock]bool{h: true}
	work := []*ssa.BasicBlock{}
	for s := range m.headers(fn)[h] {
		if !seen[s] {
			seen[s] = true
			work = append(work, s)
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		for _, p := range x.Preds {
			if !seen[p] {
				seen[p] = true
				work = append(work, p)
			}
		}
	}
	return false
}
