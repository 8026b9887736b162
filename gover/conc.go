package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutines, wait groups and channels.
//
// A goroutine is executed where it is started.  That one order stands for every schedule because
// of the side conditions generated here: what a running goroutine writes is neither read nor
// written by anybody else before it is joined (captured variables and fields: cr:/cw:/pw:
// markers; exported bytes: the write-once rule, every byte at most once during a start-up), all
// its effects precede the synchronisation that its parent waits for, and a value received from
// an allocator channel is arbitrary up to the allocator's guarantee (a region nobody else got).

// rvItem is a value that a goroutine offers on an unbuffered channel
type rvItem struct {
	task int
	ch   *Term
	v    Val
}
type rvQueue struct{ items []rvItem }

// ownRegions: what a thread wrote itself since the start of the function
type ownRegions struct{ rs [][2]*Term }

func taskOf(st *State) int {
	if n, ok := st.gh["task"].(int); ok {
		return n
	}
	return 0
}

// effect: something other goroutines can observe
func (x *Exec) effect(st *State) {
	if taskOf(st) != 0 {
		st.gh["unreleased"] = true
		if b, _ := st.gh["done"].(bool); b {
			st.gh["late"] = true
		}
	}
}

func (x *Exec) ghSort(name string) (string, *Sort) {
	g := x.w.specs.Ghosts[name]
	if g == nil {
		unsup("ghost %s is not declared", name)
	}
	cx := x.newCtx(nil, nil, "speed", nil)
	k, ks, vs, _ := cx.ghostKey(g)
	return k, SArr(ks, vs)
}
func (x *Exec) ghGet(st *State, name string, r *Term) *Term {
	k, s := x.ghSort(name)
	return Select(st.h(k, s), r)
}
func (x *Exec) ghSet(st *State, name string, r, v *Term) {
	k, s := x.ghSort(name)
	st.seth(k, Store(st.h(k, s), r, v))
}

// addRegion adds [lo,hi) to a ghost set of byte positions
func (x *Exec) addRegion(st *State, name string, lo, hi *Term) {
	old := x.ghGet(st, name, I(1))
	nw := Fresh(name, old.sort)
	b := BoundVar("b", SInt)
	st.assume(Forall([]*Term{b}, Eq(mk("select", SBool, "", nil, nw, b), Or(mk("select", SBool, "", nil, old, b), And(Le(lo, b), Lt(b, hi))))))
	x.ghSet(st, name, I(1), nw)
}

// onExport: a contract writes the bytes [lo,hi) of a buffer
func (x *Exec) onExport(st *State, lo, hi *Term, site string) {
	x.effect(st)
	if x.curSpec.Flags["joined"] && taskOf(st) == 0 {
		x.obligation(st, x.allJoined(st), "joined", "stores only after every other store of the start-up completed", site)
		for _, c := range x.curSpec.Clauses {
			if c.Kind == "finally" && c.active(x.prop) {
				x.quiet++
				g := x.newCtx(st, x.old, x.curSpec.Pkg, x.env0).boolean(c.E)
				x.quiet--
				x.obligation(st, g, "finally", labelOf(c), site)
			}
		}
	} else if x.curSpec.Flags["writeonce"] {
		w := x.ghGet(st, "wrote", I(1))
		b := BoundVar("b", SInt)
		ok := Not(mk("select", SBool, "", nil, w, b))
		// the same thread may go over what it wrote itself during this call
		k := fmt.Sprintf("own:%d", taskOf(st))
		own, _ := st.gh[k].(*ownRegions)
		if own != nil {
			for _, r := range own.rs {
				ok = Or(ok, And(Le(r[0], b), Lt(b, r[1])))
			}
		} else {
			own = &ownRegions{}
		}
		x.obligation(st, Forall([]*Term{b}, Implies(And(Le(lo, b), Lt(b, hi)), ok)), "write-once", "no byte is written twice", site)
		st.gh[k] = &ownRegions{append(append([][2]*Term{}, own.rs...), [2]*Term{lo, hi})}
		x.addRegion(st, "wrote", lo, hi)
	}
}

func (x *Exec) allJoined(st *State) *Term {
	r := True
	for _, k := range sortedGh(st) {
		if strings.HasPrefix(k, "wgd:") {
			r = And(r, Eq(st.gh[k].(*Term), st.gh["wgw:"+k[4:]].(*Term)))
		}
		if q, ok := st.gh[k].(*rvQueue); ok && len(q.items) > 0 {
			r = False
		}
		if k == "loose" {
			r = False
		}
	}
	return r
}

func sortedGh(st *State) []string {
	var ks []string
	for k := range st.gh {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// blocking: the root's conditions for an operation that may wait
func (x *Exec) blocking(st *State, ch *Term, what string, site ssa.Instruction) {
	for _, c := range x.curSpec.Clauses {
		if c.Kind != "blocking" || !c.active(x.prop) {
			continue
		}
		env := map[string]SV{}
		for k, v := range x.env0 {
			env[k] = v
		}
		if ch == nil {
			ch = I(-1)
		}
		env["waited"] = SV{ch, nil}
		x.quiet++
		g := x.newCtx(st, x.old, x.curSpec.Pkg, env).boolean(c.E)
		x.quiet--
		x.obligation(st, g, "no-deadlock", what+": "+labelOf(c), x.pos(site))
	}
}

// ---------------------------------------------------------------- goroutines

func (x *Exec) doGo(p *Path, fn Val, args []Val, call *ssa.CallCommon, site ssa.Instruction) []Outcome {
	st := p.st
	if x.footOn || x.guardMode() {
		unsup("go statement in a lock-discipline root at %s", x.pos(site))
	}
	x.markCaptured(p, fn)
	x.taskN++
	id := x.taskN
	saved := map[string]Val{}
	ctx := []string{"task", "unreleased", "done", "late"}
	for _, k := range ctx {
		if v, ok := st.gh[k]; ok {
			saved[k] = v
		}
		delete(st.gh, k)
	}
	var locks []string
	for k, v := range st.gh {
		if l, ok := v.(LockS); ok && l.mode != 0 {
			locks = append(locks, k)
		}
	}
	held := map[string]Val{}
	for _, k := range locks {
		held[k] = st.gh[k]
		_ = held
	}
	st.gh["task"] = id
	before := map[string]*Term{}
	for k, v := range st.heap {
		before[k] = v
	}
	x.obligation(st, True, "go", "goroutine at "+fnKey(p.fr.fn), x.pos(site))
	outs := x.callVal(st, fn, args, call, site)
	var res []Outcome
	for _, o := range outs {
		if o.kind == "panic" {
			x.obligation(o.st, False, "no-panic", "goroutine: "+strings.Split(o.pmsg, " at ")[0], x.pos(site))
			continue
		}
		if b, _ := o.st.gh["late"].(bool); b {
			x.obligation(o.st, False, "join", "effects after the goroutine reported its completion", x.pos(site))
		} else if b, _ := o.st.gh["unreleased"].(bool); b {
			o.st.gh["loose"] = true
		}
		for _, k := range ctx {
			delete(o.st.gh, k)
			if v, ok := saved[k]; ok {
				o.st.gh[k] = v
			}
		}
		x.effect(o.st)
		for k, v := range o.st.heap {
			if before[k] != v && (strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "M")) {
				if b, ok := before[k]; !ok && v == Sym("H0$"+k, v.sort) || b == v {
					continue
				}
				if strings.HasPrefix(k, "F:sync.") {
					continue
				}
				o.st.gh["pw:"+k] = true
			}
		}
		res = append(res, Outcome{kind: "next", st: o.st})
	}
	if x.merging() {
		for i := range res {
			res[i].kind = "ret"
		}
		res = mergeRets(res)
		for i := range res {
			res[i].kind = "next"
		}
	}
	return res
}

// markCaptured: from now on the variables captured by the goroutine are shared
func (x *Exec) markCaptured(p *Path, fn Val) {
	f, ok := fn.(*FuncV)
	if !ok {
		return
	}
	for _, b := range f.bind {
		if pv, ok := b.(*PtrV); ok && pv.kind == "cell" {
			k := fmt.Sprintf("shared:%d", pv.cell)
			if _, ok := p.st.gh[k]; !ok {
				p.st.gh[k] = true
			}
		}
	}
}

// cellAccess: an access to a local variable that goroutines share
func (x *Exec) cellAccess(st *State, id int, write bool, what string) {
	if len(st.gh) == 0 || x.quiet > 0 {
		return
	}
	if _, ok := st.gh[fmt.Sprintf("shared:%d", id)]; !ok {
		return
	}
	me := taskOf(st)
	rk, wk := fmt.Sprintf("cr:%d", id), fmt.Sprintf("cw:%d", id)
	clash := func(k string) *Term {
		switch v := st.gh[k].(type) {
		case *Term:
			return v
		case int:
			if v != me && v != 0 {
				return True
			}
		}
		return False
	}
	bad := clash(wk)
	if write {
		bad = Or(bad, clash(rk))
	}
	if bad != False {
		x.obligation(st, Not(bad), "data-race", what, "")
	}
	if me != 0 {
		k := rk
		if write {
			k = wk
			x.effect(st)
		}
		if _, ok := st.gh[k]; !ok {
			st.gh[k] = me
		} else if v, ok := st.gh[k].(int); ok && v != me {
			st.gh[k] = -1
		} else if _, ok := st.gh[k].(*Term); ok {
			st.gh[k] = True
		}
	}
}

// heapRead: fields that running goroutines write are not read
func (x *Exec) heapRead(st *State, key string) {
	if x.quiet > 0 {
		return
	}
	for k := range st.gh {
		if strings.HasPrefix(k, "pw:") && (k[3:] == key || strings.HasPrefix(k[3:], key+".")) {
			x.obligation(st, False, "data-race", "read of "+key+" while a goroutine that writes it is running", "")
			return
		}
	}
}

// callReads: the same for everything a called function may read
func (x *Exec) callReads(st *State, fn *ssa.Function) {
	any := false
	for k := range st.gh {
		any = any || strings.HasPrefix(k, "pw:")
	}
	if !any || fn == nil {
		return
	}
	for k := range x.w.readSet(fn) {
		x.heapRead(st, k)
	}
}

// join forgets the accesses of goroutines once all of them are known to have completed
func (x *Exec) join(st *State) {
	j := x.allJoined(st)
	if j != True && !x.validT(st, j, false) {
		return
	}
	for _, k := range sortedGh(st) {
		if strings.HasPrefix(k, "cr:") || strings.HasPrefix(k, "cw:") || strings.HasPrefix(k, "pw:") {
			delete(st.gh, k)
		}
	}
}

// exitJoined: nothing started here is still running (or waiting) at the exit
func (x *Exec) exitJoined(st *State) {
	used := false
	for k, v := range st.gh {
		used = used || strings.HasPrefix(k, "wgd:") || k == "loose"
		if _, ok := v.(*rvQueue); ok {
			used = true
		}
	}
	if used {
		x.obligation(st, x.allJoined(st), "join", "every goroutine has completed at the exit", "")
	}
}

// ---------------------------------------------------------------- wait groups

func (x *Exec) wgOp(st *State, key string, args []Val, site ssa.Instruction) []Outcome {
	id := lockIdent(args[0])
	a, d, w := "wga:"+id, "wgd:"+id, "wgw:"+id
	for _, k := range []string{a, d, w} {
		if _, ok := st.gh[k]; !ok {
			st.gh[k] = I(0)
		}
	}
	get := func(k string) *Term { return st.gh[k].(*Term) }
	x.externs["sync.WaitGroup (counting semantics assumed)"] = true
	switch {
	case strings.HasSuffix(key, ".Add"):
		n := args[1].(*Term)
		nv := Add(get(a), n)
		x.obligation(st, Le(get(d), nv), "wait-group", "the counter does not become negative", x.pos(site))
		st.gh[a] = nv
	case strings.HasSuffix(key, ".Done"):
		nv := Add(get(d), I(1))
		x.obligation(st, Le(nv, get(a)), "wait-group", "the counter does not become negative", x.pos(site))
		st.gh[d] = nv
		if taskOf(st) != 0 {
			st.gh["unreleased"] = false
			st.gh["done"] = true
		}
	default:
		x.blocking(st, nil, "Wait", site)
		x.obligation(st, Eq(get(a), get(d)), "wait-group", "Wait returns: as many completions as announced", x.pos(site))
		st.assume(Eq(get(a), get(d)))
		st.gh[w] = get(d)
		x.join(st)
	}
	return ret(st)
}

// ---------------------------------------------------------------- channels

func (x *Exec) makeChan(st *State, t *ssa.MakeChan, size *Term) Val {
	r := st.alloc()
	if size.isInt() && size.val.Sign() == 0 {
		st.gh[fmt.Sprintf("rv:%d", r.id)] = &rvQueue{}
		return r
	}
	if !size.isInt() || size.val.Int64() != 1 {
		unsup("channel of capacity %v at %s", size, x.pos(t))
	}
	x.ghSet(st, "ready", r, I(0))
	x.ghSet(st, "hand", r, I(-1))
	x.ghSet(st, "chinit", r, I(0))
	x.ghSet(st, "chused", r, I(0))
	return r
}

func (x *Exec) queueOf(st *State, ch *Term) *rvQueue {
	q, _ := st.gh[fmt.Sprintf("rv:%d", ch.id)].(*rvQueue)
	return q
}

func (x *Exec) doSend(p *Path, t *ssa.Send) []Outcome {
	st := p.st
	cv := x.val(p, t.Chan)
	ch, ok := cv.(*Term)
	if !ok {
		unsup("send on %T", cv)
	}
	v := x.val(p, t.X)
	next := []Outcome{{kind: "next", st: st}}
	if q := x.queueOf(st, ch); q != nil {
		if taskOf(st) == 0 {
			x.obligation(st, False, "no-deadlock", "send on an unbuffered channel that nobody receives from", x.pos(t))
			return nil
		}
		st.gh[fmt.Sprintf("rv:%d", ch.id)] = &rvQueue{append(append([]rvItem{}, q.items...), rvItem{taskOf(st), ch, v})}
		order, _ := st.gh["rvorder"].(*rvQueue)
		if order == nil {
			order = &rvQueue{}
		}
		st.gh["rvorder"] = &rvQueue{append(append([]rvItem{}, order.items...), rvItem{taskOf(st), ch, v})}
		st.gh["unreleased"] = false
		return next
	}
	s, ok := v.(*Term)
	if !ok || s.sort != SInt {
		unsup("send of a %s on a buffered channel", t.X.Type())
	}
	x.obligation(st, Ne(ch, I(0)), "channel", "send: the channel exists", x.pos(t))
	x.obligation(st, Eq(x.ghGet(st, "ready", ch), I(0)), "channel", "send: the channel has room", x.pos(t))
	st.assume(And(Ne(ch, I(0)), Eq(x.ghGet(st, "ready", ch), I(0))))
	x.effect(st)
	held := x.ghGet(st, "hand", ch)
	ini := x.ghGet(st, "chinit", ch)
	first := And(Eq(ini, I(0)))
	if x.feasible(st, first) {
		if x.feasible(st, Not(first)) {
			x.obligation(st, False, "channel", "send: first value or return of a received one", x.pos(t))
		}
		x.ghSet(st, "chbase", ch, s)
		for _, c := range x.curSpec.Clauses {
			if c.Kind == "limit" && c.active(x.prop) {
				x.quiet++
				cx := x.newCtx(st, x.old, x.curSpec.Pkg, x.env0)
				lch, lv := cx.eval(c.Es[0]).v.(*Term), cx.eval(c.Es[1]).v.(*Term)
				x.quiet--
				if lch == ch {
					x.ghSet(st, "chlim", ch, lv)
					x.obligation(st, Le(s, lv), "channel", "first value within the section", x.pos(t))
				}
			}
		}
		x.ghSet(st, "chinit", ch, I(1))
		x.ghSet(st, "ready", ch, I(1))
		return next
	}
	x.obligation(st, And(Le(I(0), held), Le(held, s)), "channel", "send: hands on what was received, advanced", x.pos(t))
	st.assume(Le(held, s))
	st.assume(Le(I(0), held))
	// the allocator's guarantee (see DESIGN.md): the region [held, s) is nobody else's
	taken := x.ghGet(st, "taken", I(1))
	b := BoundVar("b", SInt)
	st.assume(Forall([]*Term{b}, Implies(And(Le(held, b), Lt(b, s)), Not(mk("select", SBool, "", nil, taken, b)))))
	st.assume(Le(s, x.ghGet(st, "chlim", ch)))
	x.addRegion(st, "taken", held, s)
	x.ghSet(st, "chused", ch, Add(x.ghGet(st, "chused", ch), Sub(s, held)))
	x.ghSet(st, "lastalloc", ch, held)
	x.ghSet(st, "hand", ch, I(-1))
	x.ghSet(st, "ready", ch, I(1))
	return next
}

func (x *Exec) doRecv(p *Path, t *ssa.UnOp, cv Val) []Outcome {
	st := p.st
	ch, ok := cv.(*Term)
	if !ok || t.CommaOk {
		unsup("receive from %T", cv)
	}
	done := func(v Val) []Outcome {
		p.fr.env[t] = v
		return []Outcome{{kind: "next", st: st}}
	}
	if q := x.queueOf(st, ch); q != nil {
		x.blocking(st, nil, "receive", t)
		order, _ := st.gh["rvorder"].(*rvQueue)
		if order == nil {
			order = &rvQueue{}
		}
		seen := map[int]bool{}
		for i, it := range order.items {
			if !seen[it.task] && it.ch == ch {
				st.gh[fmt.Sprintf("rv:%d", ch.id)] = &rvQueue{q.items[1:]}
				rest := append(append([]rvItem{}, order.items[:i]...), order.items[i+1:]...)
				st.gh["rvorder"] = &rvQueue{rest}
				x.obligation(st, True, "no-deadlock", "receive: a goroutine offers a value", x.pos(t))
				x.join(st)
				return done(it.v)
			}
			seen[it.task] = true
		}
		x.obligation(st, False, "no-deadlock", "receive: a goroutine offers a value", x.pos(t))
		return nil
	}
	el := under(t.X.Type()).(*types.Chan).Elem()
	if _, ok := intOf(el); !ok {
		unsup("receive of a %s", el)
	}
	x.obligation(st, Ne(ch, I(0)), "channel", "receive: the channel exists", x.pos(t))
	x.obligation(st, Eq(x.ghGet(st, "ready", ch), I(1)), "channel", "receive: a value will be sent", x.pos(t))
	st.assume(And(Ne(ch, I(0)), Eq(x.ghGet(st, "ready", ch), I(1))))
	x.blocking(st, ch, "receive", t)
	x.effect(st)
	v := freshVal("alloc", el, st).(*Term)
	st.assume(Le(x.ghGet(st, "chbase", ch), v))
	st.assume(Le(v, x.ghGet(st, "chlim", ch)))
	x.ghSet(st, "hand", ch, v)
	x.ghSet(st, "ready", ch, I(0))
	return done(v)
}

// ---------------------------------------------------------------- what functions read

var readSets = map[*ssa.Function]map[string]bool{}

// readSet: the fields a function and everything it calls may load
func (w *World) readSet(fn *ssa.Function) map[string]bool {
	if r, ok := readSets[fn]; ok {
		return r
	}
	r := map[string]bool{}
	readSets[fn] = r
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch t := ins.(type) {
				case *ssa.UnOp:
					if fa, ok := t.X.(*ssa.FieldAddr); ok {
						pt := under(fa.X.Type()).(*types.Pointer).Elem()
						r[ownerKey(types.Unalias(pt))+"."+under(pt).(*types.Struct).Field(fa.Field).Name()] = true
					}
				case *ssa.MakeClosure:
					visit(t.Fn.(*ssa.Function))
				}
				var c *ssa.CallCommon
				switch t := ins.(type) {
				case *ssa.Call:
					c = &t.Call
				case *ssa.Go:
					c = &t.Call
				case *ssa.Defer:
					c = &t.Call
				}
				if c == nil {
					continue
				}
				if c.IsInvoke() {
					if it, ok := under(c.Value.Type()).(*types.Interface); ok {
						for _, ty := range w.implementers(it) {
							if sel := w.prog.MethodSets.MethodSet(ty).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
								visit(w.prog.MethodValue(sel))
							}
						}
					}
				} else if g := c.StaticCallee(); g != nil && (w.inRepo(g) || g.Synthetic != "" || g.Parent() != nil) {
					visit(g)
				}
			}
		}
	}
	visit(fn)
	return r
}

// autoGhost: ghost state that the specification itself updates, at a function's exit
func (x *Exec) autoGhost(e *Expr) bool {
	if e.Op != "call" || e.Args[0].Op != "ident" {
		return false
	}
	g := x.w.specs.Ghosts[e.Args[0].Name]
	return g != nil && g.Auto
}

func (x *Exec) assignAuto(cx *evalCtx, fs *FuncSpec) {
	for _, c := range fs.Clauses {
		if c.Kind == "assign" && c.active(x.prop) && x.autoGhost(c.Es[0]) {
			v := cx.eval(c.Es[1])
			x.assignLoc(cx, c.Es[0], v)
		}
	}
}

// skolemize replaces the universally quantified variables of a goal by arbitrary constants
var skName = "sk" // "skm" where the members of sums matter

func skolemize(g *Term) *Term {
	switch {
	case g.op == "forall":
		n := len(g.args) - 1
		m := map[*Term]*Term{}
		for _, v := range g.args[:n] {
			m[v] = Fresh(skName, v.sort)
		}
		return skolemize(Subst(g.args[n], m))
	case g.op == "or" || g.op == "and":
		as := make([]*Term, len(g.args))
		for i, a := range g.args {
			as[i] = skolemize(a)
		}
		if g.op == "or" {
			return Or(as...)
		}
		return And(as...)
	}
	return g
}

// seeds mentions, for the bytes that a goal talks about, whether they are reserved and written,
// so that the solver instantiates what is known about them (logically void)
func (x *Exec) seeds(st *State, g *Term) []*Term {
	var sets []*Term
	for _, n := range []string{"taken", "wrote"} {
		if _, ok := st.heap["GH:"+n]; ok {
			sets = append(sets, x.ghGet(st, n, I(1)))
		}
	}
	if len(sets) == 0 {
		return nil
	}
	seen := map[*Term]bool{}
	idx := map[*Term]bool{}
	var r []*Term
	note := func(t *Term) {
		if idx[t] {
			return
		}
		idx[t] = true
		for _, s := range sets {
			r = append(r, App("seed", SBool, mk("select", SBool, "", nil, s, t)))
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[0].sort == SArr(SInt, SInt) && (t.args[0].op == "select" || t.args[0].op == "blit" || t.args[0].op == "sym" && strings.HasPrefix(t.args[0].name, "elems")) && !t.args[1].hasB {
			note(t.args[1])
		}
		if t.op == "sym" && t.sort == SInt && (strings.HasPrefix(t.name, "sk!") || strings.HasPrefix(t.name, "skm!")) {
			note(t)
		}
		if t.op == "<=" && !t.hasB {
			// bounds of regions
			for _, a := range t.args {
				if a.op == "+" {
					for _, b := range a.args {
						if b.op == "select" && !fieldSel(b) {
							note(b)
						}
					}
				} else if a.op == "select" && !fieldSel(a) {
					note(a)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(g)
	return r
}

// fieldSel: a field of the initial heap
func fieldSel(t *Term) bool {
	return t.op == "select" && t.args[0].op == "sym" && strings.HasPrefix(t.args[0].name, "H0$F_")
}

// moreSeeds mentions the bytes of a goal in every earlier content of the file
func (x *Exec) moreSeeds(hyps []*Term, g *Term) []*Term {
	arrs := map[*Term]bool{}
	lits := map[*Term]bool{}
	seen := map[*Term]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sort == SArr(SInt, SInt) && !t.hasB && (t.op == "sym" && strings.HasPrefix(t.name, "elems") || t.op == "select" && t.args[0].op == "sym" && t.args[0].name == "H0$E:uint8") && !arrs[t] {
			arrs[t] = true
			order = append(order, t)
		}
		if t.op == "app" && t.name == "sbyte" && t.args[0].op == "const" {
			lits[t.args[0]] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, h := range hyps {
		walk(h)
	}
	seenG := map[*Term]bool{}
	idx := []*Term{}
	var gw func(t *Term)
	gw = func(t *Term) {
		if seenG[t] {
			return
		}
		seenG[t] = true
		if t.op == "select" && arrs[t.args[0]] && !t.args[1].hasB {
			idx = append(idx, t.args[1])
		}
		for _, a := range t.args {
			gw(a)
		}
	}
	gw(g)
	var r []*Term
	if len(idx) > 16 {
		idx = idx[:16]
	}
	for _, i := range idx {
		for _, a := range order {
			r = append(r, App("seed", SBool, mk("=", SBool, "", nil, I(0), mk("select", SInt, "", nil, a, i))))
		}
	}
	for l := range lits {
		if s, ok := litOf(l); ok && len(s) <= 8 {
			for i := 0; i < len(s); i++ {
				r = append(r, mk("=", SBool, "", nil, mk("app", SInt, "sbyte", nil, l, I(int64(i))), I(int64(s[i]))))
			}
		}
	}
	return r
}
