package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LockS is the executor-level state of one mutex
type LockS struct {
	mode  int // 0 free, 1 read, 2 write
	epoch int
}

// InvokeV is an interface method call target
type InvokeV struct {
	m    *types.Func
	recv *Term
	it   types.Type
}

func lockIdent(p Val) string {
	switch v := p.(type) {
	case *PtrV:
		return v.ident()
	case *Term:
		return fmt.Sprintf("ref/%d", v.id)
	}
	return "?"
}

func (x *Exec) callTarget(p *Path, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(p, a))
	}
	if c.IsInvoke() {
		r, ok := x.val(p, c.Value).(*Term)
		if !ok {
			unsup("invoke on %T", x.val(p, c.Value))
		}
		return &InvokeV{c.Method, r, c.Value.Type()}, args
	}
	return x.val(p, c.Value), args
}

func (x *Exec) mkDefer(p *Path, c *ssa.CallCommon, site ssa.Instruction) dcall {
	fn, args := x.callTarget(p, c)
	return dcall{c, fn, args, site}
}

func ret(st *State, vs ...Val) []Outcome { return []Outcome{{kind: "ret", st: st, vals: vs}} }

func (x *Exec) callVal(st *State, fn Val, args []Val, call *ssa.CallCommon, site ssa.Instruction) []Outcome {
	switch f := fn.(type) {
	case *ssa.Builtin:
		return x.builtin(st, f.Name(), args, call, site)
	case *FuncV:
		if f.fn == nil {
			return []Outcome{{kind: "panic", st: st, pmsg: "call of nil function at " + x.pos(site)}}
		}
		return x.callFunc(st, f.fn, args, f.bind, site)
	case *InvokeV:
		return x.invoke(st, f, args, call, site)
	case *Term:
		if k, ok := funcIDs[f]; ok {
			return x.callVal(st, k, args, call, site)
		}
		if f.op == "ite" {
			var outs []Outcome
			if x.feasible(st, f.args[0]) {
				q := st.clone()
				q.assume(f.args[0])
				outs = append(outs, x.callVal(q, f.args[1], args, call, site)...)
			}
			if x.feasible(st, Not(f.args[0])) {
				q := st.clone()
				q.assume(Not(f.args[0]))
				outs = append(outs, x.callVal(q, f.args[2], args, call, site)...)
			}
			return outs
		}
		ok, pan := x.check(st, Ne(f, I(0)), "call of nil function", site)
		if !ok {
			return pan
		}
		key := "functype:" + typeKey(call.Value.Type())
		if fs := x.w.specs.Funcs[key]; fs != nil {
			env := map[string]SV{"self": {f, nil}}
			outs := x.applyContract(st, fs, env, args, call.Signature(), nil, site)
			return append(outs, pan...)
		}
		unsup("call of an unknown function value of type %s at %s", call.Value.Type(), x.pos(site))
	}
	unsup("call of %T at %s", fn, x.pos(site))
	return nil
}

func (x *Exec) invoke(st *State, f *InvokeV, args []Val, call *ssa.CallCommon, site ssa.Instruction) []Outcome {
	ok, pan := x.check(st, Ne(f.recv, INil), "method call on a nil interface", site)
	if !ok {
		return pan
	}
	concrete := func(s *State, t types.Type) []Outcome {
		sel := x.w.prog.MethodSets.MethodSet(t).Lookup(f.m.Pkg(), f.m.Name())
		if sel == nil {
			unsup("no method %s on %s", f.m.Name(), t)
		}
		m := x.w.prog.MethodValue(sel)
		return x.callFunc(s, m, append([]Val{x.Unbox(s, f.recv, t)}, args...), nil, site)
	}
	if isCtor(f.recv) && f.recv.args[0].isInt() {
		if t, ok := tagTypes[f.recv.args[0].val.Int64()]; ok {
			return append(concrete(st, t), pan...)
		}
	}
	if f.recv.op == "ite" {
		var outs []Outcome
		for i, c := range []*Term{f.recv.args[0], Not(f.recv.args[0])} {
			if x.feasible(st, c) {
				q := st.clone()
				q.assume(c)
				outs = append(outs, x.invoke(q, &InvokeV{f.m, f.recv.args[1+i], f.it}, args, call, site)...)
			}
		}
		return append(outs, pan...)
	}
	// known dynamic type from the path condition
	for p := st.pc; p != nil; p = p.prev {
		if p.t.op == "is" && p.t.args[0] == f.recv {
			tg := CtorSel(p.t.name, 0, f.recv, SInt)
			for q := st.pc; q != nil; q = q.prev {
				if q.t.op == "=" && (q.t.args[0] == tg && q.t.args[1].isInt() || q.t.args[1] == tg && q.t.args[0].isInt()) {
					n := q.t.args[0]
					if !n.isInt() {
						n = q.t.args[1]
					}
					if t, ok := tagTypes[n.val.Int64()]; ok {
						return append(concrete(st, t), pan...)
					}
				}
			}
		}
	}
	if n, ok := types.Unalias(f.it).(*types.Named); ok {
		key := ""
		if n.Obj().Pkg() != nil {
			key = n.Obj().Pkg().Name() + "."
		}
		key += n.Obj().Name() + "." + f.m.Name()
		if fs := x.w.specs.Funcs[key]; fs != nil && fs.Iface && !x.noUse[key] && len(fs.Params) == len(args)+1 {
			env := map[string]SV{fs.Params[0]: {f.recv, f.it}}
			outs := x.applyContract(st, fs, env, args, f.m.Type().(*types.Signature), nil, site)
			return append(outs, pan...)
		}
	}
	it := under(f.it).(*types.Interface)
	if f.m.Name() == "Error" && it.NumMethods() == 1 {
		return append(ret(st, freshVal("errtext", types.Typ[types.String], st)), pan...)
	}
	var outs []Outcome
	impls := x.w.implementers(it)
	if len(impls) == 0 {
		unsup("method call %s.%s on an external interface at %s", f.it, f.m.Name(), x.pos(site))
	}
	x.note("closed world: %s is implemented only by types of this repository", f.it)
	for _, t := range impls {
		c := HasType(f.recv, t)
		if !x.feasible(st, c) {
			continue
		}
		q := st.clone()
		q.assume(c)
		outs = append(outs, concrete(q, t)...)
	}
	if x.merging() || x.curSpec != nil && x.curSpec.Flags["mergecalls"] {
		outs = mergeRets(outs)
	}
	return append(outs, pan...)
}

func (x *Exec) callFunc(st *State, fn *ssa.Function, args []Val, bind []Val, site ssa.Instruction) []Outcome {
	key := fnKey(fn)
	if outs, ok := x.intrinsic(st, key, fn, args, site); ok {
		return outs
	}
	if fs := x.w.fspec[fn]; fs != nil && x.guardMode() && !fs.Trusted && fn.Parent() == nil {
		if x.curSpec.Atomic[fn.Name()] && fn != x.curFn && sameRecv(fn, x.curSpec) {
			return x.atomicCall(st, fs, args, fn, site)
		}
		if fs.hasReads() && !x.noUse[key] {
			x.used[key] = true
			return x.applyFootprint(st, fs, args, fn)
		}
	} else if fs != nil && !x.noUse[key] && fn.Parent() == nil && (fs.Trusted || !x.inlineAll && !fs.Inline && !fs.Flags["noframe"] && fs.hasActive(x.prop)) {
		if fs.Trusted {
			x.externs[key] = true
		} else {
			x.used[key] = true
		}
		if len(fs.Params) != len(args) {
			unsup("contract %s arity", key)
		}
		env := map[string]SV{}
		return x.applyContract(st, fs, env, args, fn.Signature, fn, site)
	}
	if x.w.inRepo(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 || fn.Parent() != nil && x.w.inRepo(fn.Parent()) || x.w.inlineOK(key) {
		if len(fn.Blocks) == 0 {
			unsup("function %s has no body", fn)
		}
		x.inlined[key] = true
		return x.runFunc(st, fn, args, bind)
	}
	return x.external(st, key, fn, args, site)
}

func (w *World) inlineOK(key string) bool {
	for _, l := range w.specs.Lists["inline"] {
		for _, k := range l {
			if k == key {
				return true
			}
		}
	}
	return false
}

// external: an unknown library function; its results are arbitrary
func (x *Exec) external(st *State, key string, fn *ssa.Function, args []Val, site ssa.Instruction) []Outcome {
	for i, a := range args {
		switch v := a.(type) {
		case *PtrV:
			if v.kind == "cell" || v.kind == "field" {
				unsup("external function %s receives a pointer to local state (argument %d) at %s", key, i, x.pos(site))
			}
		}
	}
	x.externs[key+" (no contract: arbitrary results, assumed not to modify visible memory)"] = true
	var vs []Val
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, freshVal("ext$"+fn.Name(), rs.At(i).Type(), st))
	}
	return ret(st, vs...)
}

func (fs *FuncSpec) hasActive(prop string) bool {
	if fs.Flags["always"] {
		return true
	}
	for _, c := range fs.Clauses {
		switch c.Kind {
		case "ensures", "assign", "modifies", "panics":
			if c.active(prop) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- contracts at call sites

// guardMode: only accesses matter (lock-discipline roots and the footprints they rely on)
func (x *Exec) guardMode() bool { return x.curSpec.Flags["guarded"] || x.footOn }

// applyFootprint: the callee accesses at most its reads and modifies clauses, and takes no lock
func (x *Exec) applyFootprint(st *State, fs *FuncSpec, args []Val, fn *ssa.Function) []Outcome {
	env := map[string]SV{}
	for i, p := range fn.Params {
		env[fs.Params[i]] = SV{args[i], p.Type()}
	}
	pre := st.clone()
	cx := x.newCtx(st, pre, fs.Pkg, env)
	for _, c := range fs.Clauses {
		if c.Kind == "reads" {
			for _, e := range c.Es {
				for _, l := range x.locOf(cx, e) {
					x.event(st, access{l.key, l.ref, nil, false})
				}
			}
		}
	}
	st.next = Add(st.next, freshDelta())
	for _, c := range fs.Clauses {
		if c.Kind == "modifies" {
			for _, e := range c.Es {
				x.havocLoc(cx, e)
			}
		}
	}
	var vals []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		vals = append(vals, freshVal("res$"+fs.Name, fn.Signature.Results().At(i).Type(), st))
	}
	outs := ret(st, vals...)
	if !fs.Flags["nopanic"] {
		outs = append(outs, Outcome{kind: "panic", st: st.clone(), pmsg: "panic in " + fs.Key})
	}
	return outs
}

func sameRecv(fn *ssa.Function, fs *FuncSpec) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	n, ok := types.Unalias(r.Type().(types.Type)).(*types.Pointer)
	if !ok {
		return false
	}
	m, ok := types.Unalias(n.Elem()).(*types.Named)
	return ok && "*"+m.Obj().Name() == fs.Recv
}

// atomicCall: another operation of the guarded object, which takes the locks itself (verified as a
// root of its own); the locks must be free here
func (x *Exec) atomicCall(st *State, fs *FuncSpec, args []Val, fn *ssa.Function, site ssa.Instruction) []Outcome {
	for _, g := range x.guards {
		for _, k := range g.locks {
			l, _ := st.gh["lock:"+k].(LockS)
			goal := True
			if l.mode != 0 {
				goal = False
			}
			x.obligation(st, goal, "locks", "free when "+fn.Name()+" is called", x.pos(site))
		}
	}
	env := map[string]SV{}
	for i, p := range fn.Params {
		env[fs.Params[i]] = SV{args[i], p.Type()}
	}
	cx := x.newCtx(st, st.clone(), fs.Pkg, env)
	st.next = Add(st.next, freshDelta())
	x.quiet++
	for _, c := range fs.Clauses {
		if c.Kind == "modifies" {
			for _, e := range c.Es {
				x.havocLoc(cx, e)
			}
		}
	}
	x.quiet--
	var vals []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		vals = append(vals, freshVal("res$"+fs.Name, fn.Signature.Results().At(i).Type(), st))
	}
	return ret(st, vals...)
}

// footAccess: an access to guarded state lies inside the declared footprint
func (x *Exec) footAccess(st *State, a access) {
	if x.dry > 0 {
		return
	}
	hit := false
	for _, k := range x.footKeys {
		if a.key == k || strings.HasPrefix(a.key, k+".") {
			hit = true
		}
	}
	if !hit {
		return
	}
	goal := False
	if a.ref != nil {
		goal = Le(x.old.next, a.ref)
	}
	for _, l := range x.footLocs {
		if a.key != l.key && !strings.HasPrefix(a.key, l.key+".") {
			continue
		}
		if l.ref == nil {
			goal = True
		} else if a.ref != nil {
			goal = Or(goal, Eq(l.ref, a.ref))
		}
	}
	x.obligation(st, goal, "footprint", "access to "+a.key, "")
}

func (x *Exec) setupFootprint(cx *evalCtx, fs *FuncSpec) {
	x.footOn = true
	for _, g := range x.w.specs.Guarded {
		t := x.w.lookupType(g.Recv, g.Pkg)
		if t == nil {
			continue
		}
		v := freshVal("guarded", t, cx.st)
		gx := x.newCtx(cx.st, cx.st, g.Pkg, map[string]SV{g.Params[0]: {v, t}})
		for _, c := range g.Clauses {
			if c.Kind == "guard" {
				for _, e := range c.Es {
					for _, l := range x.locOf(gx, e) {
						if l.mt != nil {
							d, cc, v, _ := mapKeys(l.mt)
							x.footKeys = append(x.footKeys, d, cc, v)
						} else {
							x.footKeys = append(x.footKeys, l.key)
						}
					}
				}
			}
		}
	}
	for _, c := range fs.Clauses {
		if c.Kind == "reads" || c.Kind == "modifies" {
			for _, e := range c.Es {
				for _, l := range x.locOf(cx, e) {
					if l.mt != nil {
						d, cc, v, _ := mapKeys(l.mt)
						x.footLocs = append(x.footLocs, loc{key: d, ref: l.ref}, loc{key: cc, ref: l.ref}, loc{key: v, ref: l.ref})
					} else {
						x.footLocs = append(x.footLocs, l)
					}
				}
			}
		}
	}
	x.onAccess = x.footAccess
}

func (x *Exec) newCtx(st, old *State, pkg string, env map[string]SV) *evalCtx {
	return &evalCtx{x: x, st: st, old: old, pkg: pkg, env: env}
}

func (x *Exec) applyContract(st *State, fs *FuncSpec, env map[string]SV, args []Val, sig *types.Signature, fn *ssa.Function, site ssa.Instruction) []Outcome {
	k := 0
	if fn != nil {
		for i, p := range fn.Params {
			env[fs.Params[i]] = SV{args[i], p.Type()}
		}
	} else {
		if _, ok := env[firstOr(fs.Params)]; ok {
			k = 1
		}
		for i, a := range args {
			if i+k < len(fs.Params) {
				env[fs.Params[i+k]] = SV{a, sig.Params().At(i).Type()}
			}
		}
	}
	x.callReads(st, fn)
	pre := st.clone()
	cx := x.newCtx(st, pre, fs.Pkg, env)
	cx.emit = fs.Trusted || fs.Iface
	var outs []Outcome
	// lets and preconditions
	for _, c := range fs.Clauses {
		if !c.active(x.prop) {
			continue
		}
		switch c.Kind {
		case "let":
			env[c.Label] = cx.eval(c.E)
		case "requires":
			g := cx.boolean(c.E)
			x.obligation(st, g, "requires", fmt.Sprintf("%s/requires %s", fs.Key, labelOf(c)), x.pos(site))
			st.assume(g)
		}
	}
	if st.dead {
		return nil
	}
	pre.pc = st.pc
	// panics: the state at a panic is whatever the frame and the onpanic clauses allow
	panicState := func(q *State) *State {
		for _, c := range fs.Clauses {
			if (c.Kind == "modifies" || c.Kind == "assign") && c.active(x.prop) {
				for i, e := range c.Es {
					if c.Kind == "modifies" || i == 0 {
						x.havocLoc(x.newCtx(q, pre, fs.Pkg, env).withPre(pre, cx.emit), e)
					}
				}
			}
		}
		for _, c := range fs.Clauses {
			if c.Kind == "onpanic" && c.active(x.prop) {
				q.assume(x.newCtx(q, pre, fs.Pkg, env).withPre(pre, cx.emit).boolean(c.E))
			}
		}
		return q
	}
	for _, c := range fs.Clauses {
		if c.Kind != "panics" || !c.active(x.prop) {
			continue
		}
		switch c.Opt {
		case "when":
			e := cx.boolean(c.E)
			if x.feasible(st, e) {
				q := st.clone()
				q.assume(e)
				outs = append(outs, Outcome{kind: "panic", st: panicState(q), pmsg: "panic in " + fs.Key + " called at " + x.pos(site)})
			}
			if !x.feasible(st, Not(e)) {
				return outs
			}
			st.assume(Not(e))
		case "may":
			outs = append(outs, Outcome{kind: "panic", st: panicState(st.clone()), pmsg: "panic in " + fs.Key + " called at " + x.pos(site)})
		}
	}
	pre.pc = st.pc
	// effects
	if !fs.Flags["pure"] && !fs.Trusted || fs.Flags["allocates"] {
		st.next = Add(st.next, freshDelta())
	}
	for _, c := range fs.Clauses {
		if c.Kind == "modifies" && c.active(x.prop) {
			for _, e := range c.Es {
				x.havocLoc(x.newCtx(st, pre, fs.Pkg, env).withPre(pre, cx.emit), e)
			}
		}
	}
	x.effect(st)
	type asg struct {
		e *Expr
		v SV
	}
	var as []asg
	for _, c := range fs.Clauses {
		if c.Kind == "assign" && c.active(x.prop) && !x.autoGhost(c.Es[0]) {
			pc := x.newCtx(pre, pre, fs.Pkg, env)
			as = append(as, asg{c.Es[0], pc.eval(c.Es[1])})
		}
	}
	for _, a := range as {
		x.assignLoc(x.newCtx(st, pre, fs.Pkg, env).withPre(pre, cx.emit), a.e, a.v)
	}
	// results
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := freshVal("res$"+fs.Name, t, st)
		vals = append(vals, v)
		if i < len(fs.Results) {
			env[fs.Results[i]] = SV{v, t}
		}
	}
	post := x.newCtx(st, pre, fs.Pkg, env)
	post.emit = cx.emit
	x.assignAuto(post, fs)
	for _, c := range fs.Clauses {
		if strings.Contains(c.Text, "captured(") {
			continue // about the closure itself: checked where it is built
		}
		if (c.Kind == "ensures" || c.Kind == "assumes" || c.Kind == "defines") && c.active(x.prop) {
			g := post.boolean(c.E)
			// results defined by an equation are substituted
			if e := c.E; e.Name == "==" && len(e.Args) == 2 && e.Args[0].Op == "ident" {
				for i, v := range vals {
					t, ok := v.(*Term)
					if !ok || i >= len(fs.Results) || fs.Results[i] != e.Args[0].Name || t.op != "sym" || t.sort != SInt {
						continue
					}
					b, ok := post.eval(e.Args[1]).v.(*Term)
					if ok && b.sort == SInt && !occurs(t, b) {
						st.assume(g)
						vals[i] = b
						env[fs.Results[i]] = SV{b, env[fs.Results[i]].t}
						copyRange(t, b)
						if rb, ok := refBound[t]; ok && !b.isConst() {
							if _, has := refBound[b]; !has {
								refBound[b] = rb
							}
						}
						g = True
					}
				}
			}
			if g.op == "=" {
				for i, v := range vals {
					if t, ok := v.(*Term); ok && t.op == "sym" {
						a, b := g.args[0], g.args[1]
						if b == t {
							a, b = b, a
						}
						if a == t && !occurs(t, b) && i < len(fs.Results) {
							vals[i] = b
							env[fs.Results[i]] = SV{b, env[fs.Results[i]].t}
							copyRange(t, b)
							if rb, ok := refBound[t]; ok && !b.isConst() {
								if _, has := refBound[b]; !has {
									refBound[b] = rb
								}
							}
						}
					}
				}
			}
			st.assume(g)
		}
	}
	if st.dead || !x.feasible(st, True) {
		return outs
	}
	return append(outs, Outcome{kind: "ret", st: st, vals: vals})
}

func (c *evalCtx) withPre(pre *State, emit bool) *evalCtx {
	c.emit = emit
	return c
}

func firstOr(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[0]
}

func labelOf(c *Clause) string {
	if c.Label != "" {
		return c.Label
	}
	t := c.Text
	if len(t) > 80 {
		t = t[:80]
	}
	return t
}

// location kinds used by modifies/assign
type loc struct {
	key      string
	ref      *Term // nil: whole key
	lo, hi   *Term // element range (absolute), nil for all
	rlo, rhi *Term // the same relative to the slice it was given for
	typ      types.Type
	mt       *types.Map
	srt      *Sort
}

// locOf resolves a location expression (evaluated in the pre state of cx.old)
func (x *Exec) locOf(cx *evalCtx, e *Expr) []loc {
	pc := *cx
	pc.st = cx.old.clone()
	pc.st.pc = cx.st.pc
	pc.emit = false
	c := &pc
	switch e.Op {
	case "range":
		b := c.eval(e.Args[0])
		i, j := c.intTerm(c.eval(e.Args[1])), c.intTerm(c.eval(e.Args[2]))
		sv, ok := b.v.(*SliceV)
		if !ok {
			serr("%s: range location of a non-slice", e.Pos)
		}
		return []loc{{key: elemKey(sv.elem), ref: sv.arr, lo: Add(sv.off, i), hi: Add(sv.off, j), rlo: i, rhi: j, typ: sv.elem}}
	case "call":
		n := ""
		if e.Args[0].Op == "ident" {
			n = e.Args[0].Name
		}
		switch n {
		case "contents":
			v := c.eval(e.Args[1])
			if sv, ok := v.v.(*SliceV); ok {
				return []loc{{key: elemKey(sv.elem), ref: sv.arr, lo: sv.off, hi: Add(sv.off, sv.cap), typ: sv.elem}}
			}
			mt, ok := under(v.t).(*types.Map)
			if !ok {
				serr("%s: contents of a non-map", e.Pos)
			}
			return []loc{{key: "map", ref: v.v.(*Term), mt: mt}}
		case "all": // all(T.f): a field of every object
			t := x.w.lookupType(typeText(e.Args[1].Args[0]), c.pkg)
			if t == nil {
				serr("%s: all(T.f)", e.Pos)
			}
			p := x.w.findField(t, e.Args[1].Name)
			if len(p) != 1 {
				serr("%s: field of all(T.f)", e.Pos)
			}
			f := under(t).(*types.Struct).Field(p[0])
			return []loc{{key: ownerKey(types.Unalias(t)) + "." + f.Name(), typ: f.Type()}}
		}
		if g, ok := x.w.specs.Ghosts[n]; ok {
			key, ks, vs, _ := c.ghostKey(g)
			if len(e.Args) == 1 {
				if g.Key == "" {
					return []loc{{key: key, ref: I(1), srt: SArr(ks, vs)}}
				}
				return []loc{{key: key, srt: SArr(ks, vs)}}
			}
			a := c.eval(e.Args[1])
			k, ok := a.v.(*Term)
			if !ok {
				if fv, isf := a.v.(*FuncV); isf {
					k = fv.term()
				}
			}
			return []loc{{key: key, ref: k, srt: SArr(ks, vs)}}
		}
	case "ident":
		if g, ok := x.w.specs.Ghosts[e.Name]; ok {
			key, ks, vs, _ := c.ghostKey(g)
			if g.Key == "" {
				return []loc{{key: key, ref: I(1), srt: SArr(ks, vs)}}
			}
			return []loc{{key: key, srt: SArr(ks, vs)}}
		}
	}
	p, t := c.lval(e)
	pv, ok := p.(*PtrV)
	if !ok {
		serr("%s: not a heap location", e.Pos)
	}
	switch pv.kind {
	case "field":
		return []loc{{key: pv.key, ref: pv.ref, typ: t}}
	case "elem":
		return []loc{{key: pv.key, ref: pv.ref, lo: pv.idx, hi: Add(pv.idx, I(1)), typ: t}}
	case "global":
		return []loc{{key: pv.key, ref: I(1), typ: t}}
	}
	serr("%s: unsupported location kind %s", e.Pos, pv.kind)
	return nil
}

func (x *Exec) havocLoc(cx *evalCtx, e *Expr) {
	st := cx.st
	for _, l := range x.locOf(cx, e) {
		x.event(st, access{l.key, l.ref, nil, true})
		switch {
		case l.srt != nil:
			if l.ref == nil {
				st.seth(l.key, Fresh(l.key, l.srt))
			} else {
				st.seth(l.key, Store(st.h(l.key, l.srt), l.ref, Fresh(l.key, l.srt.v)))
			}
		case l.mt != nil:
			d, c, v, ks := mapKeys(l.mt)
			st.seth(d, Store(st.h(d, SArr(SInt, SArr(ks, SBool))), l.ref, Fresh("dom", SArr(ks, SBool))))
			nc := Fresh("card", SInt)
			setRange(nc, new(big.Int), big.NewInt(1<<48))
			st.seth(c, Store(st.h(c, SArr(SInt, SInt)), l.ref, nc))
			for _, lf := range leavesOf(l.mt.Elem()) {
				s := SArr(SInt, SArr(ks, lf.sort))
				st.seth(v+lf.suf, Store(st.h(v+lf.suf, s), l.ref, Fresh("mval", s.v)))
			}
		case l.lo != nil:
			for _, lf := range leavesOf(l.typ) {
				s := SArr(SInt, SArr(SInt, lf.sort))
				m := st.h(l.key+lf.suf, s)
				st.seth(l.key+lf.suf, Store(m, l.ref, Blit(Select(m, l.ref), l.lo, Sub(l.hi, l.lo), SeqSub(Fresh("elems", s.v), I(0)))))
			}
		case l.ref == nil:
			for _, lf := range leavesOf(l.typ) {
				st.seth(l.key+lf.suf, Fresh(l.key, SArr(SInt, lf.sort)))
			}
		default:
			x.quiet++
			x.storeField(st, l.key, l.ref, l.typ, freshVal("mod", l.typ, st))
			x.quiet--
		}
	}
}

func (x *Exec) assignLoc(cx *evalCtx, e *Expr, v SV) {
	st := cx.st
	for _, l := range x.locOf(cx, e) {
		x.event(st, access{l.key, l.ref, nil, true})
		if l.rlo != nil && l.key == "E:uint8" {
			x.onExport(st, l.rlo, l.rhi, e.Pos)
		}
		switch {
		case l.srt != nil:
			tm, ok := v.v.(*Term)
			if fv, isf := v.v.(*FuncV); isf {
				tm, ok = fv.term(), true
			}
			if !ok || tm.sort != l.srt.v {
				serr("%s: ghost assignment", e.Pos)
			}
			if l.ref == nil {
				serr("%s: assignment to a whole ghost", e.Pos)
			}
			st.seth(l.key, Store(st.h(l.key, l.srt), l.ref, tm))
		case l.lo != nil:
			tm, ok := v.v.(*Term)
			s := SArr(SInt, SArr(SInt, leavesOf(l.typ)[0].sort))
			m := st.h(l.key, s)
			if !ok {
				serr("%s: range assignment", e.Pos)
			}
			if tm.sort == SSeq {
				st.seth(l.key, Store(m, l.ref, Blit(Select(m, l.ref), l.lo, Sub(l.hi, l.lo), tm)))
			} else {
				st.seth(l.key, Store(m, l.ref, Store(Select(m, l.ref), l.lo, tm)))
			}
		case l.mt != nil:
			serr("%s: assignment to map contents", e.Pos)
		default:
			x.quiet++
			if isIfaceT(l.typ) && v.t != nil && !isIfaceT(v.t) {
				v.v = x.mkIface(st, v.t, v.v)
			}
			x.storeField(st, l.key, l.ref, l.typ, v.v)
			x.quiet--
		}
	}
}

func isIfaceT(t types.Type) bool {
	_, ok := under(t).(*types.Interface)
	return ok
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, name string, args []Val, call *ssa.CallCommon, site ssa.Instruction) []Outcome {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return ret(st, v.cap)
			}
			return ret(st, v.len)
		case *Term:
			if v.sort == SStr {
				return ret(st, Slen(v))
			}
			t := call.Args[0].Type()
			if mt, ok := under(t).(*types.Map); ok {
				d, _, _, _ := mapKeys(mt)
				x.event(st, access{d, v, nil, false})
				return ret(st, Ite(Eq(v, I(0)), I(0), x.mapCard(st, mt, v)))
			}
			if at, ok := under(t).(*types.Array); ok {
				return ret(st, I(at.Len()))
			}
		case *PtrV:
			if at, ok := under(v.typ).(*types.Array); ok {
				return ret(st, I(at.Len()))
			}
		}
	case "append":
		return x.doAppend(st, args, call, site)
	case "copy":
		d, ok := args[0].(*SliceV)
		if !ok {
			break
		}
		var n, seq *Term
		var leaves = leavesOf(d.elem)
		min := func(a, b *Term) *Term {
			if x.valid(st, Le(a, b)) {
				return a
			}
			if x.valid(st, Le(b, a)) {
				return b
			}
			return Ite(Le(a, b), a, b)
		}
		switch s := args[1].(type) {
		case *SliceV:
			n = min(d.len, s.len)
			if n != I(0) {
				x.event(st, access{elemKey(s.elem), s.arr, nil, false})
			}
			for _, l := range leaves {
				k := elemKey(d.elem) + l.suf
				m := st.h(k, SArr(SInt, SArr(SInt, l.sort)))
				seq = SeqSub(Select(m, s.arr), s.off)
				x.event(st, access{k, d.arr, d.off, true})
				st.seth(k, Store(m, d.arr, Blit(Select(m, d.arr), d.off, n, seq)))
			}
		case *Term:
			n = min(d.len, Slen(s))
			k := elemKey(d.elem)
			m := st.h(k, SArr(SInt, SArr(SInt, SInt)))
			x.event(st, access{k, d.arr, d.off, true})
			st.seth(k, Store(m, d.arr, Blit(Select(m, d.arr), d.off, n, SeqStr(s))))
		default:
			unsup("copy from %T", args[1])
		}
		return ret(st, n)
	case "delete":
		mt := under(call.Args[0].Type()).(*types.Map)
		m := args[0].(*Term)
		if x.feasible(st, Eq(m, I(0))) {
			unsup("delete on a possibly nil map")
		}
		x.mapDelete(st, mt, m, x.mapKey(mt, args[1]))
		return ret(st)
	case "recover":
		v := st.gh["panicking"]
		delete(st.gh, "panicking")
		if v == nil {
			return ret(st, INil)
		}
		if t, ok := v.(*Term); ok && t.sort == SIface {
			return ret(st, t)
		}
		return ret(st, Ctor("ioth", I(999999), I(1)))
	case "print", "println":
		return ret(st)
	case "ssa:wrapnilchk":
		ok, pan := x.nilCheck(st, args[0], site)
		if !ok {
			return pan
		}
		return append(ret(st, args[0]), pan...)
	case "min", "max":
		if a, ok := args[0].(*Term); ok && a.sort == SInt {
			r := a
			for _, b := range args[1:] {
				bt := b.(*Term)
				if name == "min" {
					r = Ite(Le(r, bt), r, bt)
				} else {
					r = Ite(Le(r, bt), bt, r)
				}
			}
			return ret(st, r)
		}
	}
	unsup("builtin %s at %s", name, x.pos(site))
	return nil
}

func (x *Exec) doAppend(st *State, args []Val, call *ssa.CallCommon, site ssa.Instruction) []Outcome {
	a, ok := args[0].(*SliceV)
	if !ok {
		unsup("append to %T", args[0])
	}
	var blen *Term
	var seqs []*Term
	ls := leavesOf(a.elem)
	switch b := args[1].(type) {
	case *SliceV:
		blen = b.len
		for _, l := range ls {
			m := st.h(elemKey(a.elem)+l.suf, SArr(SInt, SArr(SInt, l.sort)))
			seqs = append(seqs, SeqSub(Select(m, b.arr), b.off))
		}
		if b.len != I(0) {
			x.event(st, access{elemKey(b.elem), b.arr, nil, false})
		}
	case *Term:
		if b.sort == SStr {
			blen = Slen(b)
			seqs = []*Term{SeqStr(b)}
		} else {
			unsup("append of %T", args[1])
		}
	default:
		unsup("append of %T", args[1])
	}
	if blen.isInt() && blen.val.Sign() == 0 {
		return ret(st, a)
	}
	n := Add(a.len, blen)
	fits := Le(n, a.cap)
	var outs []Outcome
	ft := x.feasible(st, fits)
	ff := x.feasible(st, Not(fits))
	if ft {
		q := st
		if ff {
			q = st.clone()
		}
		q.assume(fits)
		for i, l := range ls {
			k := elemKey(a.elem) + l.suf
			m := q.h(k, SArr(SInt, SArr(SInt, l.sort)))
			x.event(q, access{k, a.arr, nil, true})
			q.seth(k, Store(m, a.arr, Blit(Select(m, a.arr), Add(a.off, a.len), blen, seqs[i])))
		}
		outs = append(outs, ret(q, &SliceV{a.arr, a.off, n, a.cap, a.elem})...)
	}
	if ff {
		st.assume(Not(fits))
		arr := st.alloc()
		cp := Fresh("cap", SInt)
		setRange(cp, new(big.Int), maxI64)
		st.assume(Le(n, cp))
		for i, l := range ls {
			k := elemKey(a.elem) + l.suf
			m := st.h(k, SArr(SInt, SArr(SInt, l.sort)))
			base := ConstArr(SArr(SInt, l.sort), zeroTerm(l))
			c := Blit(base, I(0), a.len, SeqSub(Select(m, a.arr), a.off))
			c = Blit(c, a.len, blen, seqs[i])
			st.seth(k, Store(m, arr, c))
		}
		outs = append(outs, ret(st, &SliceV{arr, I(0), n, cp, a.elem})...)
	}
	return outs
}

// ---------------------------------------------------------------- library intrinsics

var lockEpoch int

func (x *Exec) intrinsic(st *State, key string, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	pan := func(msg string) ([]Outcome, bool) {
		x.obligation(st, False, "locks", msg, x.pos(site))
		return []Outcome{{kind: "panic", st: st, pmsg: msg + " at " + x.pos(site)}}, true
	}
	switch key {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Mutex.Unlock", "sync.RWMutex.Unlock", "sync.RWMutex.RUnlock":
		if x.footOn {
			x.obligation(st, False, "footprint", "no lock operation", x.pos(site))
		}
		id := "lock:" + lockIdent(args[0])
		l, _ := st.gh[id].(LockS)
		lockEpoch++
		switch {
		case strings.HasSuffix(key, ".RLock"):
			if l.mode != 0 {
				return pan("deadlock: lock already held by this goroutine")
			}
			st.gh[id] = LockS{1, lockEpoch}
		case strings.HasSuffix(key, ".Lock"):
			if l.mode != 0 {
				return pan("deadlock: lock already held by this goroutine")
			}
			st.gh[id] = LockS{2, lockEpoch}
		case strings.HasSuffix(key, ".RUnlock"):
			if l.mode != 1 {
				return pan("unlock of a lock that is not read-held")
			}
			st.gh[id] = LockS{0, 0}
		default:
			if l.mode != 2 {
				return pan("unlock of a lock that is not held")
			}
			st.gh[id] = LockS{0, 0}
		}
		x.externs["sync.Mutex/RWMutex (mutual exclusion assumed)"] = true
		x.onLock(st, id)
		return ret(st), true
	case "sync.WaitGroup.Add", "sync.WaitGroup.Done", "sync.WaitGroup.Wait":
		return x.wgOp(st, key, args, site), true
	case "errors.New", "fmt.Errorf", "errors.Errorf", "errors.Wrap", "errors.Wrapf":
		x.externs[key+" (returns a non-nil error)"] = true
		id := Fresh("err", SInt)
		addFact(id, Gt(id, I(0)))
		r := Ctor("iptr", I(900001), id)
		if key == "errors.Wrap" || key == "errors.Wrapf" {
			return ret(st, Ite(Eq(args[0].(*Term), INil), INil, r)), true
		}
		return ret(st, r), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		x.externs[key+" (arbitrary string)"] = true
		return ret(st, freshVal("sprintf", types.Typ[types.String], st)), true
	case "math.Float64bits":
		return ret(st, floatBits(args[0].(*Term), 64)), true
	case "math.Float32bits":
		return ret(st, floatBits(args[0].(*Term), 32)), true
	case "math.Float64frombits":
		return ret(st, floatFromBits(args[0].(*Term), 64)), true
	case "math.Float32frombits":
		return ret(st, floatFromBits(args[0].(*Term), 32)), true
	case "math.IsNaN":
		return ret(st, fop("fp.isNaN", SBool, args[0].(*Term))), true
	case "math.Abs":
		return ret(st, fop("fp.abs", SF64, args[0].(*Term))), true
	case "math.IsInf":
		if s, ok := args[1].(*Term); ok && s.isInt() {
			f := args[0].(*Term)
			inf := fop("fp.isInfinite", SBool, f)
			pos := fop("fp.isPositive", SBool, f)
			switch s.val.Sign() {
			case 0:
				return ret(st, inf), true
			case 1:
				return ret(st, And(inf, pos)), true
			default:
				return ret(st, And(inf, Not(pos))), true
			}
		}
	}
	return nil, false
}

func (x *Exec) onLock(st *State, id string) {}

// ---------------------------------------------------------------- guards

type guard struct {
	id    int
	name  string
	lock  string // lock idents, joined
	locks []string
	lockE string
	key   string
	ref   *Term // nil: every object
	desc  string
	cs    bool // require a single critical section
}

func (x *Exec) guardAccess(st *State, a access) {
	for _, g := range x.guards {
		if !(a.key == g.key || strings.HasPrefix(a.key, g.key+".") || g.key == "map" && false) {
			continue
		}
		if g.ref != nil && a.ref != nil && Eq(g.ref, a.ref) == False {
			continue
		}
		// objects created during the call are not shared yet
		if a.ref != nil {
			if lo, _ := interval(Sub(a.ref, x.old.next), 0); lo != nil && lo.Sign() >= 0 {
				continue
			}
		}
		need, what := 1, "read"
		if a.write {
			need, what = 2, "write"
		}
		excuse := False
		if g.ref != nil && a.ref != nil {
			excuse = Ne(g.ref, a.ref)
		}
		if a.ref != nil {
			excuse = Or(excuse, Le(x.old.next, a.ref))
		}
		// with several locks a reader holds any of them and a writer all of them
		var held []string
		for _, k := range g.locks {
			if l, _ := st.gh["lock:"+k].(LockS); l.mode >= need {
				held = append(held, fmt.Sprintf("%s#%d", k, l.epoch))
			}
		}
		ok := len(held) > 0 && (!a.write || len(held) == len(g.locks))
		goal := True
		if !ok {
			goal = excuse
		}
		x.obligation(st, goal, "guard", fmt.Sprintf("%s of %s under %s", what, g.desc, g.lockE), "")
		if ok {
			// one critical section per operation (multi: per loop iteration)
			ek := "ep:" + g.lock
			if !g.cs {
				ek = "epm:" + g.lock
			}
			if ep, seen := st.gh[ek].(string); seen {
				var both []string
				for _, h := range held {
					if strings.Contains(";"+ep+";", ";"+h+";") {
						both = append(both, h)
					}
				}
				goal := True
				if len(both) == 0 {
					goal = excuse
				} else {
					st.gh[ek] = strings.Join(both, ";")
				}
				x.obligation(st, goal, "critical-section", fmt.Sprintf("%s accessed in one critical section", g.desc), "")
			} else {
				st.gh[ek] = strings.Join(held, ";")
			}
		}
	}
}

func (x *Exec) setupGuards(cx *evalCtx, fs *FuncSpec) {
	for _, c := range fs.Clauses {
		if c.Kind != "guard" || !c.active(x.prop) {
			continue
		}
		var ids, txt []string
		for _, le := range append([]*Expr{c.E}, c.Lk...) {
			lp, _ := cx.lval(le)
			ids = append(ids, lockIdent(lp))
			txt = append(txt, exprText(le))
		}
		for _, e := range c.Es {
			for _, l := range x.locOf(cx, e) {
				keys := []string{l.key}
				if l.mt != nil {
					d, cc, v, _ := mapKeys(l.mt)
					keys = []string{d, cc, v}
				}
				for _, k := range keys {
					x.guards = append(x.guards, guard{id: len(x.guards), lock: strings.Join(ids, "&"), locks: ids, lockE: strings.Join(txt, " and "), key: k, ref: l.ref, desc: exprText(e), cs: c.Opt != "multi"})
				}
			}
		}
	}
	if len(x.guards) > 0 {
		x.onAccess = x.guardAccess
	}
}

func exprText(e *Expr) string {
	switch e.Op {
	case "ident", "int":
		return e.Name
	case "sel":
		return exprText(e.Args[0]) + "." + e.Name
	case "call":
		var as []string
		for _, a := range e.Args[1:] {
			as = append(as, exprText(a))
		}
		return exprText(e.Args[0]) + "(" + strings.Join(as, ",") + ")"
	}
	return e.Op
}

// ---------------------------------------------------------------- obligations

func (x *Exec) record(o *Oblig) {
	if x.dry > 0 {
		return
	}
	x.obs = append(x.obs, o)
}

func (x *Exec) obligation(st *State, g *Term, kind, label, where string) {
	if x.dry > 0 || x.noOb > 0 {
		return
	}
	if x.curSpec != nil && x.curSpec.Flags["light:"+x.prop] {
		switch kind {
		case "ensures", "requires", "finally", "joined", "join", "wait-group":
		default:
			if !strings.HasPrefix(kind, "loop") {
				return // discharged by the check of another property (see DESIGN.md)
			}
		}
	}
	hyps := st.pcList()
	if x.curSpec != nil && x.curSpec.Flags["writeonce"] {
		g = skolemize(g)
		hyps = append(hyps, x.seeds(st, g)...)
		if skName == "skm" && kind == "ensures" {
			hyps = append(hyps, x.moreSeeds(hyps, g)...)
		}
	}
	x.obs = append(x.obs, &Oblig{Name: x.root + "/" + kind + "/" + label, Root: x.root, Kind: kind, Where: where, goal: g, hyps: hyps})
}

func (x *Exec) noteMapInsert(st *State, mt *types.Map, m, k, dom, in *Term) {}
func (x *Exec) noteMapNew(st *State, mt *types.Map, r *Term)                {}
func (x *Exec) noteIterKey(st *State, it *IterV, k *Term)                   {}

var _ = sort.Strings
