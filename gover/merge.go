package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// State merging (flag merge): paths that reach the same point are joined into one state whose
// values are conditional on the branch taken.  The selector is the branch condition when the two
// paths split on it, and a fresh boolean otherwise, so that no behaviour is lost.

func (x *Exec) merging() bool { return x.curSpec != nil && x.curSpec.Flags["merge"] }

func commonPC(a, b *pcNode) *pcNode {
	d := func(n *pcNode) int {
		if n == nil {
			return 0
		}
		return n.n
	}
	for d(a) > d(b) {
		a = a.prev
	}
	for d(b) > d(a) {
		b = b.prev
	}
	for a != b {
		a, b = a.prev, b.prev
	}
	return a
}

func pcSince(n, base *pcNode) []*Term {
	var r []*Term
	for ; n != base; n = n.prev {
		r = append(r, n.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func mergeTerm(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.sort.k != nil {
		chain := map[*Term]int{}
		n := 0
		for t := a; ; t = t.args[0] {
			chain[t] = n
			n++
			if t.op != "store" {
				break
			}
		}
		base := b
		for base.op == "store" {
			if _, ok := chain[base]; ok {
				break
			}
			base = base.args[0]
		}
		if _, ok := chain[base]; ok {
			var idx []*Term
			seen := map[*Term]bool{}
			add := func(t *Term) {
				var is []*Term
				for ; t != base; t = t.args[0] {
					is = append(is, t.args[1])
				}
				for i := len(is) - 1; i >= 0; i-- {
					if !seen[is[i]] {
						seen[is[i]] = true
						idx = append(idx, is[i])
					}
				}
			}
			add(a)
			add(b)
			r := base
			for _, i := range idx {
				r = Store(r, i, mergeTerm(c, Select(a, i), Select(b, i)))
			}
			return r
		}
	}
	return Ite(c, a, b)
}

func mergeVal(c *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch u := a.(type) {
	case *Term:
		v, ok := b.(*Term)
		if !ok || u.sort != v.sort {
			return nil, false
		}
		return mergeTerm(c, u, v), true
	case *StructV:
		v, ok := b.(*StructV)
		if !ok || len(u.f) != len(v.f) {
			return nil, false
		}
		r := &StructV{}
		for i := range u.f {
			w, ok := mergeVal(c, u.f[i], v.f[i])
			if !ok {
				return nil, false
			}
			r.f = append(r.f, w)
		}
		return r, true
	case TupleV:
		v, ok := b.(TupleV)
		if !ok || len(u) != len(v) {
			return nil, false
		}
		var r TupleV
		for i := range u {
			w, ok := mergeVal(c, u[i], v[i])
			if !ok {
				return nil, false
			}
			r = append(r, w)
		}
		return r, true
	case *SliceV:
		v, ok := b.(*SliceV)
		if !ok || !types.Identical(u.elem, v.elem) {
			return nil, false
		}
		return &SliceV{Ite(c, u.arr, v.arr), Ite(c, u.off, v.off), Ite(c, u.len, v.len), Ite(c, u.cap, v.cap), u.elem}, true
	}
	return nil, false
}

func sameGh(a, b map[string]Val) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameVal(v, w) {
			return false
		}
	}
	return true
}

// mergeStates joins b into a; nil when their shapes differ
func mergeStates(a, b *State) (*State, *Term) {
	if !sameGh(a.gh, b.gh) || a.dead || b.dead {
		return nil, nil
	}
	base := commonPC(a.pc, b.pc)
	ra, rb := pcSince(a.pc, base), pcSince(b.pc, base)
	var c *Term
	if len(ra) > 0 && len(rb) > 0 && Not(ra[0]) == rb[0] {
		c = ra[0]
	} else if len(ra) == 0 && len(rb) == 0 {
		return nil, nil
	} else {
		c = Fresh("sel", SBool)
	}
	n := a.clone()
	n.pc = base
	for k := range b.heap {
		if _, ok := a.heap[k]; !ok {
			n.heap[k] = a.h(k, b.heap[k].sort)
		}
	}
	for k, ta := range n.heap {
		n.heap[k] = mergeTerm(c, ta, b.h(k, ta.sort))
	}
	for k, va := range a.cells {
		vb, ok := b.cells[k]
		if !ok {
			continue
		}
		v, ok := mergeVal(c, va, vb)
		if !ok {
			return nil, nil
		}
		n.cells[k] = v
	}
	for k, vb := range b.cells {
		if _, ok := a.cells[k]; !ok {
			n.cells[k] = vb
		}
	}
	for _, t := range ra {
		n.assume(Implies(c, t))
	}
	for _, t := range rb {
		n.assume(Implies(Not(c), t))
	}
	if a.next != b.next {
		n.next = Fresh("next", SInt)
		lo, _ := interval(Sub(a.next, b.next), 0)
		if lo != nil && lo.Sign() >= 0 {
			n.next = a.next
		} else if _, hi := interval(Sub(a.next, b.next), 0); hi != nil && hi.Sign() <= 0 {
			n.next = b.next
		} else {
			n.assume(Le(a.next, n.next))
			n.assume(Le(b.next, n.next))
		}
	}
	return n, c
}

type mitem struct {
	st   *State
	vals []Val
}

// mergeItems repeatedly joins neighbours that split last
func mergeItems(xs []mitem) []mitem {
	bad := map[[2]*State]bool{}
	for len(xs) > 1 {
		best, bn := -1, -1
		for i := 0; i+1 < len(xs); i++ {
			if bad[[2]*State{xs[i].st, xs[i+1].st}] {
				continue
			}
			b := commonPC(xs[i].st.pc, xs[i+1].st.pc)
			n := 0
			if b != nil {
				n = b.n
			}
			if n > bn {
				best, bn = i, n
			}
		}
		if best < 0 {
			return xs
		}
		a, b := xs[best], xs[best+1]
		var vs []Val
		n, c := mergeStates(a.st, b.st)
		ok := n != nil && len(a.vals) == len(b.vals)
		for i := 0; ok && i < len(a.vals); i++ {
			var v Val
			if v, ok = mergeVal(c, a.vals[i], b.vals[i]); ok {
				vs = append(vs, v)
			}
		}
		if !ok {
			bad[[2]*State{a.st, b.st}] = true
			continue
		}
		xs = append(xs[:best], append([]mitem{{n, vs}}, xs[best+2:]...)...)
	}
	return xs
}

// mergeRets joins the returns of a dynamically dispatched call
func mergeRets(outs []Outcome) []Outcome {
	var xs []mitem
	var rest []Outcome
	for _, o := range outs {
		if o.kind == "ret" || o.kind == "next" {
			xs = append(xs, mitem{o.st, o.vals})
		} else {
			rest = append(rest, o)
		}
	}
	if len(xs) < 2 {
		return outs
	}
	kind := ""
	for _, o := range outs {
		if o.kind == "ret" || o.kind == "next" {
			if kind != "" && kind != o.kind || o.fr != nil && o.kind == "next" {
				return outs
			}
			kind = o.kind
		}
	}
	var res []Outcome
	for _, m := range mergeItems(xs) {
		res = append(res, Outcome{kind: kind, st: m.st, vals: m.vals})
	}
	return append(res, rest...)
}

// joinOf: the block where the two arms of a branch meet again: every path from either arm passes
// through it unless it returns, panics, leaves the loop or goes round it
func (x *Exec) joinOf(p *Path, b *ssa.BasicBlock, lc *loopRun) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	term := func(s *ssa.BasicBlock) bool {
		for l := lc; l != nil; l = l.parent {
			if s == l.header || l.limited && !l.body[s] {
				return true
			}
		}
		return s == b
	}
	reach := func(from, without *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		r := map[*ssa.BasicBlock]bool{}
		var walk func(s *ssa.BasicBlock)
		walk = func(s *ssa.BasicBlock) {
			if r[s] || s == without || term(s) {
				return
			}
			r[s] = true
			for _, t := range s.Succs {
				walk(t)
			}
		}
		walk(from)
		return r
	}
	r0, r1 := reach(b.Succs[0], nil), reach(b.Succs[1], nil)
	var best *ssa.BasicBlock
	for j := range r0 {
		if !r1[j] || p.fr.loops.headers[j] != nil {
			continue
		}
		// every common block must lie behind j
		ok := true
		a0, a1 := reach(b.Succs[0], j), reach(b.Succs[1], j)
		for s := range a0 {
			if a1[s] && r0[s] && r1[s] && s != j {
				ok = false
			}
		}
		if ok && (best == nil || j.Index < best.Index) {
			best = j
		}
	}
	if best == nil {
		return nil, nil
	}
	reg := reach(b.Succs[0], best)
	for s := range reach(b.Succs[1], best) {
		reg[s] = true
	}
	// nothing behind the join may be reached around it
	after := reach(best, nil)
	for s := range reg {
		if after[s] {
			return nil, nil
		}
	}
	return best, reg
}

// mergeIf runs both arms up to their join and continues with the joined states
func (x *Exec) mergeIf(p *Path, b *ssa.BasicBlock, c *Term, lc *loopRun) ([]Outcome, bool) {
	j, reg := x.joinOf(p, b, lc)
	if j == nil {
		return nil, false
	}
	rl := &loopRun{body: reg, limited: true, parent: lc}
	q := p.clone()
	nd := len(p.fr.defers)
	p.st.assume(c)
	q.st.assume(Not(c))
	var outs []Outcome
	base := p.fr.clone()
	for i, r := range []*Path{p, q} {
		if r.st.dead {
			continue
		}
		if b.Succs[i] == j {
			outs = append(outs, Outcome{kind: "exit", st: r.st, fr: r.fr, prev: b, blk: j})
			continue
		}
		outs = append(outs, x.runFrom(r, b.Succs[i], 0, b, rl)...)
	}
	var phis []*ssa.Phi
	for _, ins := range j.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	var xs []mitem
	var res []Outcome
	var frs []*Frame
	for _, o := range outs {
		if o.kind != "exit" || o.blk != j {
			res = append(res, o)
			continue
		}
		r := &Path{o.st, o.fr}
		x.doPhis(r, j, o.prev)
		var vs []Val
		for _, ph := range phis {
			vs = append(vs, r.fr.env[ph])
		}
		if len(o.fr.defers) != nd {
			// a deferred call registered on one arm only: keep the path apart
			res = append(res, x.runFrom(r, j, -2, nil, lc)...)
			continue
		}
		xs = append(xs, mitem{o.st, vs})
		frs = append(frs, o.fr)
	}
	if len(xs) == 1 {
		return append(res, x.runFrom(&Path{xs[0].st, frs[0]}, j, -2, nil, lc)...), true
	}
	for _, m := range mergeItems(xs) {
		fr := base.clone()
		for i, ph := range phis {
			fr.env[ph] = m.vals[i]
		}
		res = append(res, x.runFrom(&Path{m.st, fr}, j, -2, nil, lc)...)
	}
	return res, true
}
