package main

import (
	"fmt"
	"os"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	l := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := l.headers[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				l.headers[h] = body
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if body[n] {
					continue
				}
				body[n] = true
				stack = append(stack, n.Preds...)
			}
		}
	}
	loopCache[fn] = l
	return l
}

func (x *Exec) tryUnroll(p *Path, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, prev *ssa.BasicBlock, lc *loopRun) (outs []Outcome, ok bool) {
	if len(h.Instrs) == 0 {
		return nil, false
	}
	if _, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If); !isIf {
		return nil, false
	}
	for _, ins := range h.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			it, ok := p.fr.env[nx.Iter].(*IterV)
			if !ok || it.isst {
				return nil, false
			}
			if c := x.mapCard(p.st, it.mt, it.m); !c.isInt() {
				return nil, false
			}
		}
	}
	q := p.clone()
	nobs, d, dry, quiet := len(x.obs), x.depth, x.dry, x.quiet
	lr := &loopRun{header: h, body: body, unroll: true, parent: lc, fresh: true}
	defer func() {
		if r := recover(); r != nil {
			if a, is := r.(abortUnroll); is && a.l == lr {
				x.obs = x.obs[:nobs]
				x.depth, x.dry, x.quiet = d, dry, quiet
				outs, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return x.runFrom(q, h, 0, prev, lr), true
}

// ---------------------------------------------------------------- modification sets

type modset struct {
	locs  map[string]map[*Term]bool
	whole map[string]bool
	fresh map[string]bool
	cells map[int]bool
	phis  map[*ssa.Phi]bool
	gh    map[string]bool
	next  bool
	n     int
}

func newModset() *modset {
	return &modset{locs: map[string]map[*Term]bool{}, whole: map[string]bool{}, fresh: map[string]bool{}, cells: map[int]bool{}, phis: map[*ssa.Phi]bool{}, gh: map[string]bool{}}
}

// invariantTerm: t mentions no symbol created after the marker
func invariantTerm(t *Term, marker int) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == "sym" && t.id > marker && !strings.HasPrefix(t.name, "H0$") && !strings.HasPrefix(t.name, "fn$") {
			return false
		}
		for _, a := range t.args {
			if !w(a) {
				return false
			}
		}
		return true
	}
	return w(t)
}

// writesBetween walks from t back to base collecting written indices; ok=false if base not reached.
func writesBetween(t, base *Term, refs map[*Term]bool) bool {
	for t != base {
		switch t.op {
		case "store":
			refs[t.args[1]] = true
			t = t.args[0]
		case "ite":
			return writesBetween(t.args[1], base, refs) && writesBetween(t.args[2], base, refs)
		default:
			return false
		}
		// a store to a location the head already overwrote replaces that store
		if t != base {
			extra := map[*Term]bool{}
			for b := base; b.op == "store"; {
				extra[b.args[1]] = true
				b = b.args[0]
				if b == t {
					for r := range extra {
						if !refs[r] {
							return false
						}
					}
					return true
				}
			}
		}
	}
	return true
}

func (x *Exec) diff(ms *modset, head, back *Path, phis []*ssa.Phi, phiBack []Val, marker int, entryNext *Term) bool {
	ch := false
	for k, t := range back.st.heap {
		base, ok := head.st.heap[k]
		if !ok {
			base = Sym("H0$"+k, t.sort)
		}
		if t == base || ms.whole[k] {
			continue
		}
		refs := map[*Term]bool{}
		okc := writesBetween(t, base, refs)
		if !okc {
			// look through frontier splits
			refs = map[*Term]bool{}
			u := t
			for u != base && u.op == "hsplit" || u.op == "store" {
				if u == base {
					break
				}
				if u.op == "store" {
					refs[u.args[1]] = true
				} else {
					if lo, _ := interval(Sub(u.args[2], entryNext), 0); lo == nil || lo.Sign() < 0 {
						break
					}
					if !ms.fresh[k] {
						ms.fresh[k] = true
						ch = true
					}
				}
				u = u.args[0]
			}
			okc = u == base
		}
		if !okc {
			ms.whole[k] = true
			if debugLoop {
				fmt.Println("WHOLE", k, t, base)
			}
			ch = true
			continue
		}
		for r := range refs {
			if invariantTerm(r, marker) {
				if ms.locs[k] == nil {
					ms.locs[k] = map[*Term]bool{}
				}
				if !ms.locs[k][r] {
					ms.locs[k][r] = true
					if debugLoop {
						fmt.Println("LOC", k, r)
					}
					ch = true
				}
				continue
			}
			if lo, _ := interval(Sub(r, entryNext), 0); lo != nil && lo.Sign() >= 0 {
				if !ms.fresh[k] {
					ms.fresh[k] = true
					ch = true
				}
				continue
			}
			ms.whole[k] = true
			if debugLoop {
				fmt.Println("WHOLE2", k, r)
			}
			ch = true
		}
	}
	for id, v := range head.st.cells {
		if ms.cells[id] {
			continue
		}
		w, ok := back.st.cells[id]
		if !ok || !sameVal(v, w) {
			ms.cells[id] = true
			ch = true
		}
	}
	for i, ph := range phis {
		if ms.phis[ph] {
			continue
		}
		if !sameVal(head.fr.env[ph], phiBack[i]) {
			ms.phis[ph] = true
			ch = true
		}
	}
	for k, v := range back.st.gh {
		if strings.HasPrefix(k, "own:") {
			continue // the head keeps what was known before the loop
		}
		if i := strings.IndexByte(k, ':'); i > 0 && (k[:i] == "shared" || k[:i] == "cr" || k[:i] == "cw") && head.st.gh[k] == nil {
			if id, err := strconv.Atoi(k[i+1:]); err == nil {
				if _, was := head.st.cells[id]; !was {
					continue // a variable that belongs to one iteration
				}
			}
		}
		if lv, is := v.(LockS); is {
			hl, _ := head.st.gh[k].(LockS)
			if lv.mode != hl.mode && strings.HasPrefix(k, "lock:") {
				unsup("a lock is held across loop iterations in %s", head.fr.fn)
			}
		}
		if lv, is := v.(LockS); is && lv.mode == 0 && head.st.gh[k] == nil && x.curSpec != nil && (x.curSpec.Flags["writeonce"] || x.curSpec.Flags["looplocks"]) {
			continue // taken and released within an iteration; sections are not counted here
		}
		if ms.gh[k] {
			continue
		}
		if debugLoop && !sameVal(head.st.gh[k], v) {
			fmt.Println("GH", k, head.st.gh[k], v)
		}
		if hv, ok := head.st.gh[k]; !ok || !sameVal(hv, v) {
			ms.gh[k] = true
			ch = true
		}
	}
	for k := range head.st.gh {
		if _, ok := back.st.gh[k]; !ok && !ms.gh[k] {
			if debugLoop {
				fmt.Println("GHLOST", k)
			}
			ms.gh[k] = true
			ch = true
		}
	}
	if back.st.next != head.st.next && !ms.next {
		ms.next = true
		ch = true
	}
	return ch
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch u := a.(type) {
	case *IterState:
		v, ok := b.(*IterState)
		return ok && *u == *v
	case *SliceV:
		v, ok := b.(*SliceV)
		return ok && u.arr == v.arr && u.off == v.off && u.len == v.len && u.cap == v.cap
	case *StructV:
		v, ok := b.(*StructV)
		if !ok || len(u.f) != len(v.f) {
			return false
		}
		for i := range u.f {
			if !sameVal(u.f[i], v.f[i]) {
				return false
			}
		}
		return true
	case *PtrV:
		v, ok := b.(*PtrV)
		return ok && u.ident() == v.ident()
	case *FuncV:
		v, ok := b.(*FuncV)
		return ok && u.fn == v.fn && u.term() == v.term()
	case LockS:
		v, ok := b.(LockS)
		return ok && u == v
	}
	return false
}

// ---------------------------------------------------------------- loop head

type loopVar struct {
	name string
	t    types.Type
	get  func(p *Path, phiVals map[*ssa.Phi]Val) Val
}

type loopCtx struct {
	h      *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	phis   []*ssa.Phi
	entry  *Path
	entryV map[*ssa.Phi]Val
	iter   *IterV
	marker int
	next0  *Term
}

func (x *Exec) mkHead(lx *loopCtx, ms *modset) *Path {
	q := lx.entry.clone()
	st := q.st
	if ms.next {
		st.next = Add(st.next, freshDelta())
	}
	var keys []string
	for k := range ms.whole {
		keys = append(keys, k)
	}
	for k := range ms.fresh {
		if !ms.whole[k] {
			keys = append(keys, k)
		}
	}
	for k := range ms.locs {
		if !ms.whole[k] && !ms.fresh[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		s := heapSorts[k]
		if s == nil {
			panic("no sort of heap " + k)
		}
		old := st.h(k, s)
		if ms.whole[k] {
			st.seth(k, Fresh("loop$"+k, s))
			continue
		}
		var refs []*Term
		for r := range ms.locs[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			f := Fresh("loop$"+k, s.v)
			copyRange(Select(old, r), f)
			if b, ok := refBound[Select(old, r)]; ok {
				_ = b
				refBound[f] = st.next
				st.assume(Lt(f, st.next))
				addFact(f, rawLe0(f))
			}
			old = Store(old, r, f)
		}
		if ms.fresh[k] {
			old = HSplit(old, Fresh("loopf$"+k, s), lx.next0)
		}
		st.seth(k, old)
	}
	var cells []int
	for id := range ms.cells {
		cells = append(cells, id)
	}
	sort.Ints(cells)
	for _, id := range cells {
		switch v := st.cells[id].(type) {
		case *IterState:
			n := &IterState{visited: Fresh("visited", v.visited.sort), count: Fresh("nvisited", SInt), dom0: v.dom0}
			setRange(n.count, new(big.Int), big.NewInt(1<<48))
			k := BoundVar("k", v.visited.sort.k)
			st.assume(Forall([]*Term{k}, Implies(mk("select", SBool, "", nil, n.visited, k), Select(v.dom0, k))))
			st.assume(Implies(Eq(n.count, I(0)), Forall([]*Term{k}, Not(mk("select", SBool, "", nil, n.visited, k)))))
			if lx.iter != nil && lx.iter.id == id {
				st.assume(Le(n.count, Ite(Eq(lx.iter.m, I(0)), I(0), x.mapCard(st, lx.iter.mt, lx.iter.m))))
			}
			st.cells[id] = n
		default:
			t, ok := cellTyp[id]
			if !ok {
				unsup("havoc of an untyped cell")
			}
			st.cells[id] = freshVal("cell", t, st)
		}
	}
	for _, ph := range lx.phis {
		if ms.phis[ph] {
			hint := ph.Comment
			if hint == "" {
				hint = "phi"
			}
			q.fr.env[ph] = freshVal(hint, ph.Type(), st)
		} else {
			q.fr.env[ph] = lx.entryV[ph]
		}
	}
	for _, k := range sortedKeys(ms.gh) {
		switch v := st.gh[k].(type) {
		case *Term:
			f := Fresh("gh$"+k, v.sort)
			st.gh[k] = f
		case LockS:
			// lock state must be loop invariant; epochs may advance
			st.gh[k] = LockS{v.mode, -1}
		case string:
			x.loopSections(st, k, ms)
		case bool:
			st.gh[k] = true
		case int:
			if !strings.HasPrefix(k, "cr:") && !strings.HasPrefix(k, "cw:") {
				unsup("ghost state %s changes in a loop", k)
			}
			st.gh[k] = Fresh("gh$"+k, SBool)
		case nil:
			if strings.HasPrefix(k, "pw:") || strings.HasPrefix(k, "shared:") || k == "unreleased" || k == "late" || k == "loose" || k == "done" {
				st.gh[k] = true
				continue
			}
			if strings.HasPrefix(k, "cr:") || strings.HasPrefix(k, "cw:") {
				st.gh[k] = Fresh("gh$"+k, SBool)
				continue
			}
			if strings.HasPrefix(k, "lock:") {
				continue
			}
			if strings.HasPrefix(k, "ep:") || strings.HasPrefix(k, "epm:") {
				x.loopSections(st, k, ms)
				continue
			}
			unsup("ghost state %s created in a loop", k)
		default:
			unsup("ghost state %s changes in a loop", k)
		}
	}
	return q
}

// loopSections: a critical section that encloses a loop is one that no iteration closes; with
// multi every iteration may have its own
func (x *Exec) loopSections(st *State, k string, ms *modset) {
	if strings.HasPrefix(k, "epm:") {
		delete(st.gh, k)
		return
	}
	var open []string
	if s, ok := st.gh[k].(string); ok {
		open = strings.Split(s, ";")
	} else {
		for _, l := range strings.Split(strings.TrimPrefix(k, "ep:"), "&") {
			if v, ok := st.gh["lock:"+l].(LockS); ok && v.mode > 0 {
				open = append(open, fmt.Sprintf("%s#%d", l, v.epoch))
			}
		}
	}
	var keep []string
	for _, o := range open {
		if !ms.gh["lock:"+strings.SplitN(o, "#", 2)[0]] {
			keep = append(keep, o)
		}
	}
	st.gh[k] = strings.Join(append(keep, "-"), ";")
}

func freshDelta() *Term {
	d := Fresh("delta", SInt)
	setRange(d, new(big.Int), pow2(60))
	return d
}

type cand struct {
	desc string
	spec *Clause
	eval func(p *Path, pv map[*ssa.Phi]Val) *Term
	from bool
}

func (x *Exec) phiBacks(lx *loopCtx, o Outcome) map[*ssa.Phi]Val {
	idx := -1
	for k, pr := range lx.h.Preds {
		if pr == o.prev {
			idx = k
		}
	}
	m := map[*ssa.Phi]Val{}
	for _, ph := range lx.phis {
		m[ph] = x.val(&Path{o.st, o.fr}, ph.Edges[idx])
	}
	return m
}

func (x *Exec) handleLoop(p *Path, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, prev *ssa.BasicBlock, lc *loopRun) []Outcome {
	if outs, ok := x.tryUnroll(p, h, body, prev, lc); ok {
		return outs
	}
	lx := &loopCtx{h: h, body: body, entry: p, entryV: map[*ssa.Phi]Val{}, marker: termCount, next0: p.st.next}
	idx := -1
	for k, pr := range h.Preds {
		if pr == prev {
			idx = k
		}
	}
	for _, ins := range h.Instrs {
		switch t := ins.(type) {
		case *ssa.Phi:
			lx.phis = append(lx.phis, t)
			lx.entryV[t] = x.val(p, t.Edges[idx])
		case *ssa.Next:
			if it, ok := p.fr.env[t.Iter].(*IterV); ok && !it.isst {
				lx.iter = it
			}
		}
	}
	if x.depth > 0 {
		x.loopUid++
	}
	run := func(head *Path, dry bool) []Outcome {
		if dry {
			x.dry++
			defer func() { x.dry-- }()
		}
		lr := &loopRun{header: h, body: body, limited: true, parent: lc, fresh: true}
		return x.runFrom(head.clone(), h, 0, prev, lr)
	}
	// 1. modification set
	ms := newModset()
	var head *Path
	var outs []Outcome
	for round := 0; ; round++ {
		if round > 12 {
			unsup("loop modification analysis does not converge in %s", p.fr.fn)
		}
		head = x.mkHead(lx, ms)
		outs = run(head, true)
		ch := false
		for _, o := range outs {
			if o.kind != "back" {
				continue
			}
			pb := x.phiBacks(lx, o)
			var vs []Val
			for _, ph := range lx.phis {
				vs = append(vs, pb[ph])
			}
			if x.diff(ms, head, &Path{o.st, o.fr}, lx.phis, vs, lx.marker, lx.next0) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	// 2. candidates
	cands := x.loopCands(lx, ms, head, outs)
	headV := func(q *Path) map[*ssa.Phi]Val {
		m := map[*ssa.Phi]Val{}
		for _, ph := range lx.phis {
			m[ph] = q.fr.env[ph]
		}
		return m
	}
	var alive []*cand
	atHead := map[*Term]bool{}
	for _, c := range cands {
		t := x.evalCand(c, p, lx.entryV)
		if t == nil {
			continue
		}
		if h := x.evalCand(c, head, headV(head)); h != nil {
			if h == True || atHead[h] {
				continue
			}
			atHead[h] = true
		}
		if x.validT(p.st, t, c.spec != nil) {
			alive = append(alive, c)
		} else {
			x.note("loop invariant candidate dropped at entry: %s", c.desc)
		}
	}
	for len(alive) > 0 || head == nil {
		hv := headV(head)
		q := head.clone()
		for _, c := range alive {
			if t := x.evalCand(c, q, hv); t != nil {
				q.st.assume(t)
			}
		}
		outs = run(q, true)
		var keep []*cand
		dropped := false
		for _, c := range alive {
			ok := true
			for _, o := range outs {
				if o.kind != "back" {
					continue
				}
				t := x.evalCand(c, &Path{o.st, o.fr}, x.phiBacks(lx, o))
				if t == nil || !x.validT(o.st, t, c.spec != nil) {
					ok = false
					if debugLoop {
						fmt.Printf("DROP %s\n  goal %v\n", c.desc, t)
					}
					break
				}
			}
			if ok {
				keep = append(keep, c)
			} else {
				dropped = true
				x.note("loop invariant candidate dropped: %s", c.desc)
			}
		}
		alive = keep
		if !dropped {
			break
		}
	}
	// 3. final run
	hv := headV(head)
	q := head.clone()
	for _, c := range alive {
		if t := x.evalCand(c, q, hv); t != nil {
			q.st.assume(t)
			if x.dry == 0 {
				x.record(&Oblig{Name: fmt.Sprintf("%s/loop@%s/%s", x.root, fnKey(p.fr.fn), c.desc), Kind: "loop-invariant", Root: x.root, Status: "proved", Backend: backends[0].name})
			}
		}
	}
	x.applyAutoHead(lx, q)
	outs = run(q, false)
	var res []Outcome
	for _, o := range outs {
		switch o.kind {
		case "back":
			x.checkTermination(lx, q, o)
		case "exit":
			res = append(res, x.runFrom(&Path{o.st, o.fr}, o.blk, 0, o.prev, lc)...)
		default:
			res = append(res, o)
		}
	}
	return res
}

var debugLoop = false

func (x *Exec) applyAutoHead(lx *loopCtx, q *Path) {}

// checkTermination: the header's guard A <= B must get tighter on every iteration
func (x *Exec) checkTermination(lx *loopCtx, head *Path, o Outcome) {
	if x.curSpec == nil || !x.curSpec.Flags["terminates"] || x.dry > 0 || lx.iter != nil {
		return
	}
	ifi, ok := lx.h.Instrs[len(lx.h.Instrs)-1].(*ssa.If)
	ob := &Oblig{Name: x.root + "/terminates@" + fnKey(o.fr.fn), Kind: "terminates", Root: x.root, goal: False, hyps: o.st.pcList()}
	if ok {
		if ct, ok := o.fr.env[ifi.Cond].(*Term); ok {
			neg := false
			if ct.op == "not" {
				ct, neg = ct.args[0], true
			}
			_ = neg
			if ct.op == "<=" {
				m := map[*Term]*Term{}
				pb := x.phiBacks(lx, o)
				for _, ph := range lx.phis {
					if a, ok := head.fr.env[ph].(*Term); ok && a.op == "sym" {
						if b, ok := pb[ph].(*Term); ok {
							m[a] = b
						}
					}
				}
				d0 := Sub(ct.args[1], ct.args[0])
				d1 := Subst(d0, m)
				ob.goal = Lt(d1, d0)
			}
		}
	}
	x.record(ob)
}

func (x *Exec) evalCand(c *cand, p *Path, pv map[*ssa.Phi]Val) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				r = nil
				return
			}
			if _, ok := e.(specError); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	x.quiet++
	defer func() { x.quiet-- }()
	return c.eval(p, pv)
}

// loopCands builds generic and specification-provided invariant candidates
func (x *Exec) loopCands(lx *loopCtx, ms *modset, head *Path, outs []Outcome) []*cand {
	var cs []*cand
	// scalar loop variables
	var vars []loopVar
	for _, ph := range lx.phis {
		ph := ph
		if !ms.phis[ph] {
			continue
		}
		n := ph.Comment
		if n == "" {
			n = ph.Name()
		}
		vars = append(vars, loopVar{n, ph.Type(), func(p *Path, pv map[*ssa.Phi]Val) Val { return pv[ph] }})
	}
	var cells []int
	for id := range ms.cells {
		cells = append(cells, id)
	}
	sort.Ints(cells)
	for _, id := range cells {
		id := id
		if _, ok := lx.entry.st.cells[id].(*IterState); ok {
			vars = append(vars, loopVar{"nvisited", types.Typ[types.Int], func(p *Path, pv map[*ssa.Phi]Val) Val {
				return p.st.cells[id].(*IterState).count
			}})
			continue
		}
		if t, ok := cellTyp[id]; ok {
			vars = append(vars, loopVar{fmt.Sprintf("cell%d", id), t, func(p *Path, pv map[*ssa.Phi]Val) Val { return p.st.cells[id] }})
		}
	}
	for _, k := range sortedLocKeys(ms) {
		s := heapSorts[k]
		if s == nil || s.k != SInt || s.v != SInt || !strings.HasPrefix(k, "F:") {
			continue
		}
		k := k
		var refs []*Term
		for r := range ms.locs[k] {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			r := r
			vars = append(vars, loopVar{"loc", types.Typ[types.Int], func(p *Path, pv map[*ssa.Phi]Val) Val { return Select(p.st.h(k, s), r) }})
		}
	}
	for _, k := range sortedKeys(ms.gh) {
		k := k
		if t, ok := lx.entry.st.gh[k].(*Term); ok && t.sort == SInt {
			vars = append(vars, loopVar{k, types.Typ[types.Int], func(p *Path, pv map[*ssa.Phi]Val) Val {
				t, _ := p.st.gh[k].(*Term)
				return t
			}})
		}
	}
	headPV := map[*ssa.Phi]Val{}
	for _, ph := range lx.phis {
		headPV[ph] = head.fr.env[ph]
	}
	// slices that stay in memory allocated by the function, and memory the
	// function found that stays as it was
	if x.old != nil && !bvMode {
		base := x.old.next
		for _, v := range vars {
			if _, ok := under(v.t).(*types.Slice); !ok {
				continue
			}
			get := v.get
			cs = append(cs, &cand{desc: v.name + " fresh", eval: func(p *Path, pv map[*ssa.Phi]Val) *Term {
				sv, ok := get(p, pv).(*SliceV)
				if !ok {
					return nil
				}
				return Or(Eq(sv.cap, I(0)), Le(base, sv.arr))
			}})
		}
		for _, k := range sortedKeys(ms.whole) {
			k, s := k, heapSorts[k]
			if s == nil || s.k != SInt {
				continue
			}
			e := lx.entry.st.h(k, s)
			cs = append(cs, &cand{desc: k + " kept", eval: func(p *Path, pv map[*ssa.Phi]Val) *Term {
				a := BoundVar("a", SInt)
				h := p.st.h(k, s)
				if h == e {
					return True
				}
				return Forall([]*Term{a}, Implies(And(Le(I(0), a), Lt(a, base)), Eq(Select(h, a), Select(e, a))))
			}})
		}
	}
	type iv struct {
		v     loopVar
		entry *Term
		head  *Term
		delta *Term
	}
	var ints []iv
	if !bvMode {
		for _, v := range vars {
			if _, ok := intOf(v.t); !ok {
				continue
			}
			e, ok1 := v.get(lx.entry, lx.entryV).(*Term)
			hd, ok2 := v.get(head, headPV).(*Term)
			if !ok1 || !ok2 || e.sort != SInt {
				continue
			}
			i := iv{v: v, entry: e, head: hd}
			for _, o := range outs {
				if o.kind == "back" {
					b, ok := v.get(&Path{o.st, o.fr}, x.phiBacks(lx, o)).(*Term)
					if ok && b.sort == SInt {
						d := Sub(b, hd)
						if d.isInt() {
							i.delta = d
						}
					}
				}
			}
			ints = append(ints, i)
			get := v.get
			cs = append(cs, &cand{desc: v.name + ">=entry", eval: func(p *Path, pv map[*ssa.Phi]Val) *Term { return Le(e, get(p, pv).(*Term)) }})
			cs = append(cs, &cand{desc: v.name + "<=entry", eval: func(p *Path, pv map[*ssa.Phi]Val) *Term { return Le(get(p, pv).(*Term), e) }})
		}
	}
	for a := 0; a < len(ints); a++ {
		for b := a + 1; b < len(ints); b++ {
			i, j := ints[a], ints[b]
			if i.delta == nil || j.delta == nil || i.delta.val.Sign() == 0 || j.delta.val.Sign() == 0 {
				continue
			}
			cs = append(cs, &cand{desc: fmt.Sprintf("%s~%s", i.v.name, j.v.name), eval: func(p *Path, pv map[*ssa.Phi]Val) *Term {
				return Eq(Mul(j.delta, Sub(i.v.get(p, pv).(*Term), i.entry)), Mul(i.delta, Sub(j.v.get(p, pv).(*Term), j.entry)))
			}})
		}
	}
	// header guard, relaxed by one
	if ifi, ok := lx.h.Instrs[len(lx.h.Instrs)-1].(*ssa.If); ok && !bvMode {
		var conds []*Term
		seen := map[*Term]bool{}
		for _, o := range outs {
			if o.fr == nil {
				continue
			}
			if ct, ok := o.fr.env[ifi.Cond].(*Term); ok && !seen[ct] {
				seen[ct] = true
				conds = append(conds, ct)
			}
		}
		for _, ct := range conds {
			ct := ct
			if ct.op != "<=" {
				continue
			}
			mkc := func(slack int64) {
				cs = append(cs, &cand{desc: fmt.Sprintf("guard+%d", slack), eval: func(p *Path, pv map[*ssa.Phi]Val) *Term {
					m := map[*Term]*Term{}
					for _, v := range vars {
						hv, ok := v.get(head, headPV).(*Term)
						if !ok || hv.op != "sym" {
							continue
						}
						if nv, ok := v.get(p, pv).(*Term); ok {
							m[hv] = nv
						}
					}
					t := Le(Subst(ct.args[0], m), Add(Subst(ct.args[1], m), I(slack)))
					return t
				}})
			}
			mkc(0)
			mkc(1)
		}
		// v + d <= bound for a comparison against a bound that the loop does not change
		if bo, ok := ifi.Cond.(*ssa.BinOp); ok {
			for _, o := range outs {
				if o.fr == nil {
					continue
				}
				for _, y := range []ssa.Value{bo.X, bo.Y} {
					if in, isI := y.(ssa.Instruction); isI && lx.body[in.Block()] {
						if c, isC := y.(*ssa.Call); !isC || len(c.Call.Args) != 1 {
							continue
						}
					}
					var bt *Term
					if c, isC := y.(*ssa.Const); isC {
						bt, _ = x.val(&Path{o.st, o.fr}, c).(*Term)
					} else {
						bt, _ = o.fr.env[y].(*Term)
					}
					if bt == nil || bt.sort != SInt {
						continue
					}
					for _, i := range ints {
						if i.delta != nil && i.delta.val.Sign() <= 0 || i.head == bt {
							continue
						}
						for d := int64(0); d < 2; d++ {
							d, get := d, i.v.get
							cs = append(cs, &cand{desc: fmt.Sprintf("%s+%d<=bound", i.v.name, d), eval: func(p *Path, pv map[*ssa.Phi]Val) *Term {
								return Le(Add(get(p, pv).(*Term), I(d)), bt)
							}})
						}
					}
				}
				break
			}
		}
	}
	// specification templates
	var clauses []*Clause
	var specs []*FuncSpec
	if x.curSpec != nil {
		specs = append(specs, x.curSpec)
	}
	if fs := x.w.specs.Funcs[fnKey(lx.entry.fr.fn)]; fs != nil && fs != x.curSpec {
		specs = append(specs, fs)
	}
	for _, fs := range specs {
		for _, c := range fs.Clauses {
			if c.Kind == "loopinv" && c.active(x.prop) {
				clauses = append(clauses, c)
				x.specCands(lx, fs, c, vars, &cs)
			}
		}
	}
	return cs
}

func sortedLocKeys(ms *modset) []string {
	var ks []string
	for k := range ms.locs {
		if !ms.whole[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// specCands instantiates one loopinv template over all type-compatible loop variables
func (x *Exec) specCands(lx *loopCtx, fs *FuncSpec, c *Clause, vars []loopVar, cs *[]*cand) {
	env := x.env0
	if fs != x.curSpec || fs == x.w.specs.Funcs[fnKey(lx.entry.fr.fn)] {
		env = map[string]SV{}
		for k, v := range x.env0 {
			env[k] = v
		}
		for i, pr := range lx.entry.fr.fn.Params {
			if i < len(fs.Params) {
				if v, ok := lx.entry.fr.env[pr]; ok {
					env[fs.Params[i]] = SV{v, pr.Type()}
				}
			}
		}
	}
	needsIter := strings.Contains(c.Text, "visited(")
	if needsIter && lx.iter == nil {
		return
	}
	allVars := append([]loopVar{}, vars...)
	for _, v := range vars {
		v := v
		if t, ok := v.get(lx.entry, lx.entryV).(*Term); ok && t.isInt() && t.val.Sign() < 0 && strings.HasPrefix(v.name, "rangeindex") {
			allVars = append(allVars, loopVar{v.name + "+1", v.t, func(p *Path, pv map[*ssa.Phi]Val) Val { return Add(v.get(p, pv).(*Term), I(1)) }})
		}
	}
	allVars = append(allVars, lx.fixedVars()...)
	var rec func(i int, bound []loopVar)
	rec = func(i int, bound []loopVar) {
		if i == len(c.Vars) {
			b := append([]loopVar{}, bound...)
			desc := "inv:" + c.Label
			if c.Label == "" {
				desc = "inv:" + c.Text
				if len(desc) > 60 {
					desc = desc[:60]
				}
			}
			for k := range b {
				desc += " " + c.Vars[k].Name + "=" + b[k].name
			}
			*cs = append(*cs, &cand{desc: desc, spec: c, eval: func(p *Path, pv map[*ssa.Phi]Val) *Term {
				ev := &evalCtx{x: x, st: p.st, old: x.old, entry: lx.entry.st, pkg: fs.Pkg, env: map[string]SV{}}
				for k, v := range env {
					ev.env[k] = v
				}
				for k := range b {
					ev.env[c.Vars[k].Name] = SV{b[k].get(p, pv), b[k].t}
				}
				for k := range b {
					ev.env["entry$"+c.Vars[k].Name] = SV{b[k].get(lx.entry, lx.entryV), b[k].t}
				}
				if lx.iter != nil {
					if is, ok := p.st.cells[lx.iter.id].(*IterState); ok {
						ev.iter = is
						ev.iterV = lx.iter
					}
				}
				return ev.boolean(c.E)
			}})
			return
		}
		want := x.w.lookupType(c.Vars[i].Typ, fs.Pkg)
		for _, v := range allVars {
			if want != nil && !types.Identical(v.t, want) && !(isMap(want) && types.Identical(under(v.t), under(want))) {
				continue
			}
			dup := false
			for _, o := range bound {
				if o.name == v.name {
					dup = true
				}
			}
			if dup {
				continue
			}
			rec(i+1, append(bound, v))
		}
	}
	rec(0, nil)
}

func isMap(t types.Type) bool {
	_, ok := under(t).(*types.Map)
	return ok
}

// fixedVars are the maps, slices and pointers defined before the loop and used in it
func (lx *loopCtx) fixedVars() []loopVar {
	var vars []loopVar
	seen := map[ssa.Value]bool{}
	var bs []*ssa.BasicBlock
	for b := range lx.body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if in, ok := v.(ssa.Instruction); ok && lx.body[in.Block()] {
					continue
				}
				val, ok := lx.entry.fr.env[v]
				if !ok {
					continue
				}
				switch under(v.Type()).(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					if pv, isp := val.(*PtrV); isp && pv.kind == "cell" {
						continue
					}
					vars = append(vars, loopVar{v.Name(), v.Type(), func(*Path, map[*ssa.Phi]Val) Val { return val }})
				}
			}
		}
	}
	return vars
}

func (x *Exec) validT(st *State, c *Term, long bool) bool {
	if c == True || st.dead || st.knows(c) {
		return true
	}
	if c == False {
		return x.pr.check(st.pcList()) == "unsat"
	}
	ms := 400
	if long {
		ms = 4000
	}
	if c.op == "and" {
		for _, a := range c.args {
			if !x.validT(st, a, long) {
				return false
			}
		}
		return true
	}
	if long && x.curSpec != nil && x.curSpec.Flags["writeonce"] {
		var obs []*Oblig
		for _, g := range conjuncts(c) {
			g = skolemize(g)
			hyps := append(st.pcList(), x.seeds(st, g)...)
			for _, cs := range keyCases(g) {
				obs = append(obs, &Oblig{Name: "loop invariant", Root: x.root, goal: g, hyps: append(append([]*Term{}, hyps...), cs...)})
			}
		}
		dischargeAll(obs, 10)
		for _, o := range obs {
			if o.Status != "proved" {
				if debugLoop {
					fmt.Printf("NOTINV %v\n", o.goal)
					os.WriteFile(fmt.Sprintf("/tmp/dmp/inv%d.smt2", invN), []byte(o.text+"(check-sat)\n"), 0644)
					invN++
				}
				return false
			}
		}
		return true
	}
	return x.pr.checkT(append(st.pcList(), Not(c)), ms) == "unsat"
}

var invN int

// keyCases: for a goal about arbitrary visited keys, the cases "it is the key of this iteration"
// and "it was visited before"
func keyCases(g *Term) [][]*Term {
	r := [][]*Term{nil}
	seen := map[*Term]bool{}
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[0].op == "store" && t.args[0].sort.v == SBool && t.args[1].op == "sym" && strings.HasPrefix(t.args[1].name, "sk!") && !done[t.args[1]] {
			done[t.args[1]] = true
			e := Eq(t.args[1], t.args[0].args[1])
			var n [][]*Term
			for _, c := range r {
				n = append(n, append(append([]*Term{}, c...), e), append(append([]*Term{}, c...), Not(e)))
			}
			r = n
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(g)
	return r
}

func (x *Exec) note(f string, a ...interface{}) {
	if x.notes == nil {
		x.notes = map[string]bool{}
	}
	x.notes[fmt.Sprintf(f, a...)] = true
}
