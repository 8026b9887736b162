package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type rootResult struct {
	spec   *FuncSpec
	obs    []*Oblig
	used   map[string]bool
	inl    map[string]bool
	ext    map[string]bool
	notes  map[string]bool
	failed string // unsupported construct
	secs   float64
	exits  int
	pruneN int
	pruneT time.Duration
}

func newExec(w *World, prop string, fs *FuncSpec, noUse map[string]bool) *Exec {
	x := &Exec{w: w, prop: prop, root: fs.Key, used: map[string]bool{}, inlined: map[string]bool{}, externs: map[string]bool{}, noUse: noUse, curSpec: fs, notes: map[string]bool{}, ghostOv: map[string]func(*State, []SV) Val{}}
	x.pr = newPruner()
	return x
}

// verifyRoot generates all obligations of one function under contract
func verifyRoot(w *World, prop string, fs *FuncSpec, fn *ssa.Function, noUse map[string]bool) (res *rootResult) {
	foot := !fs.Flags["guarded"] && fs.hasReads() && w.guardProp(prop)
	res = verifyRoot1(w, prop, fs, fn, noUse, foot)
	if foot && fs.Flags["nopanic"] && res.failed == "" {
		// the absence of panics needs the whole contract
		r := verifyRoot1(w, prop, fs, fn, noUse, false)
		res.obs = append(res.obs, r.obs...)
		res.failed = r.failed
		for _, m := range [][2]map[string]bool{{res.used, r.used}, {res.inl, r.inl}, {res.ext, r.ext}, {res.notes, r.notes}} {
			for k := range m[1] {
				m[0][k] = true
			}
		}
		res.secs += r.secs
		res.exits += r.exits
	}
	return res
}

func verifyRoot1(w *World, prop string, fs *FuncSpec, fn *ssa.Function, noUse map[string]bool, foot bool) (res *rootResult) {
	start := time.Now()
	x := newExec(w, prop, fs, noUse)
	x.curFn = fn
	res = &rootResult{spec: fs, used: x.used, inl: x.inlined, ext: x.externs, notes: x.notes}
	defer func() {
		res.obs = x.obs
		res.secs = time.Since(start).Seconds()
		res.pruneN, res.pruneT = x.pr.n, x.pr.time
		x.pr.close()
		bvMode, fpAbstract = false, false
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				res.failed = e.msg
			case specError:
				res.failed = e.msg
			default:
				if os.Getenv("GOVER_TRACE") != "" {
					panic(r)
				}
				res.failed = fmt.Sprintf("internal error: %v", r)
			}
		}
	}()
	bvMode = fs.Mode == "bv"
	fpAbstract = fs.Flags["guarded"] || foot
	skName = "sk"
	if fs.Flags["members"] {
		skName = "skm"
	}
	x.inlineAll = fs.Flags["inlineall"]
	x.noUse[fs.Key+"#self"] = true
	st := &State{heap: map[string]*Term{}, cells: map[int]Val{}, gh: map[string]Val{}}
	st.next = Sym("next0", SInt)
	setRange(st.next, I(16).val, pow2(61))
	env := map[string]SV{}
	var args []Val
	if fs.Theorem {
		for i, p := range fs.Params {
			t := w.lookupType(fs.PTypes[i], fs.Pkg)
			if t == nil {
				serr("%s: unknown type %s", fs.Pos, fs.PTypes[i])
			}
			env[p] = SV{freshVal("arg$"+p, t, st), t}
		}
		cx := x.newCtx(st, st, fs.Pkg, env)
		for _, c := range fs.Clauses {
			switch c.Kind {
			case "requires":
				st.assume(cx.boolean(c.E))
			case "ensures":
				x.obligation(st, cx.boolean(c.E), "theorem", labelOf(c), c.Pos)
			}
		}
		return res
	}
	for i, p := range fn.Params {
		v := freshVal("arg$"+fs.Params[i], p.Type(), st)
		args = append(args, v)
		env[fs.Params[i]] = SV{v, p.Type()}
	}
	var free []Val
	for _, f := range fn.FreeVars {
		if pt, ok := f.Type().(*types.Pointer); ok && fn.Parent() != nil {
			// a captured variable: some variable of the enclosing function
			v := freshVal("free$"+f.Name(), pt.Elem(), st)
			free = append(free, &PtrV{kind: "cell", cell: st.newCell(v), typ: pt.Elem()})
			env[f.Name()] = SV{v, pt.Elem()}
			continue
		}
		v := freshVal("free$"+f.Name(), f.Type(), st)
		free = append(free, v)
		env[f.Name()] = SV{v, f.Type()}
	}
	cx := x.newCtx(st, st, fs.Pkg, env)
	for _, a := range w.specs.Axioms {
		ac := *cx
		ac.pkg = a.Pkg
		if g := tryBool(&ac, a.E); g != nil {
			st.assume(g)
		}
	}
	for _, c := range fs.Clauses {
		if !c.active(prop) || foot {
			continue
		}
		switch c.Kind {
		case "let":
			env[c.Label] = cx.eval(c.E)
		case "requires":
			st.assume(cx.boolean(c.E))
		case "assumes":
			st.assume(cx.boolean(c.E))
			x.note("%s: %s", fs.Key, c.Text)
		}
	}
	x.setupGuards(cx, fs)
	if foot {
		x.setupFootprint(cx, fs)
	}
	// vacuity: the precondition must be satisfiable
	if x.pr.checkT(st.pcList(), 5000) == "unsat" {
		res.failed = "vacuous: the precondition is unsatisfiable"
		return res
	}
	x.old = st.clone()
	x.env0 = env
	x.setupRoot(st, fs, env)
	outs := x.runFunc(st, fn, args, free)
	for _, o := range outs {
		switch o.kind {
		case "ret":
			res.exits++
			if foot {
				x.quiet++
				x.checkFrame(x.postCtx(o, fs, fn, env), fs, o.st)
				x.quiet--
				continue
			}
			x.checkExit(o, fs, fn, env)
		case "panic":
			if foot {
				x.quiet++
				x.checkFrame(x.postCtx(o, fs, nil, env), fs, o.st)
				x.quiet--
				continue
			}
			x.checkPanic(o, fs, env)
		default:
			unsup("outcome %s at the top level", o.kind)
		}
	}
	if res.exits == 0 && !fs.Flags["noreturn"] && !fs.Flags["guarded"] {
		x.obs = append(x.obs, &Oblig{Name: fs.Key + "/reachable exit", Kind: "vacuity", Root: fs.Key, goal: False, Where: fs.Pos})
	}
	return res
}

func tryBool(c *evalCtx, e *Expr) (r *Term) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(specError); ok {
				r = nil
				return
			}
			panic(p)
		}
	}()
	return c.boolean(e)
}

func (x *Exec) postCtx(o Outcome, fs *FuncSpec, fn *ssa.Function, env map[string]SV) *evalCtx {
	e2 := map[string]SV{}
	for k, v := range env {
		e2[k] = v
	}
	if fn != nil {
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len() && i < len(o.vals) && i < len(fs.Results); i++ {
			e2[fs.Results[i]] = SV{o.vals[i], rs.At(i).Type()}
		}
	}
	return &evalCtx{x: x, st: o.st, old: x.old, pkg: fs.Pkg, env: e2}
}

func (x *Exec) locksReleased(st *State) {
	if len(x.guards) == 0 {
		return
	}
	var ks []string
	for k := range st.gh {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if l, ok := st.gh[k].(LockS); ok && strings.HasPrefix(k, "lock:") {
			if l.mode != 0 {
				x.obligation(st, False, "locks", "released on every exit", "")
			} else {
				x.obligation(st, True, "locks", "released on every exit", "")
			}
		}
	}
}

func (x *Exec) checkExit(o Outcome, fs *FuncSpec, fn *ssa.Function, env map[string]SV) {
	cx := x.postCtx(o, fs, fn, env)
	x.quiet++
	defer func() { x.quiet-- }()
	x.exitJoined(o.st)
	x.assignAuto(cx, fs)
	for _, c := range fs.Clauses {
		if !c.active(x.prop) {
			continue
		}
		switch c.Kind {
		case "ensures":
			g := cx.boolean(c.E)
			for i, p := range conjuncts(g) {
				l := labelOf(c)
				if i > 0 {
					l += fmt.Sprintf(" (%d)", i+1)
				}
				x.obligation(o.st, p, "ensures", l, c.Pos)
			}
		case "assign":
			if x.autoGhost(c.Es[0]) {
				continue
			}
			// functional effect: the location holds the value
			pc := &evalCtx{x: x, st: x.old, old: x.old, pkg: fs.Pkg, env: env}
			v := pc.eval(c.Es[1])
			if tm, ok := v.v.(*Term); ok && tm.sort == SSeq {
				for _, l := range x.locOf(cx, c.Es[0]) {
					m := o.st.h(l.key, SArr(SInt, SArr(SInt, SInt)))
					x.obligation(o.st, seqEq(Select(m, l.ref), l.lo, Sub(l.hi, l.lo), tm), "assign", labelOf(c), c.Pos)
				}
				continue
			}
			now := cx.eval(c.Es[0])
			x.obligation(o.st, cx.equal(now, v, true, c.Es[0]), "assign", labelOf(c), c.Pos)
		case "panics":
			if c.Opt == "when" {
				pc := &evalCtx{x: x, st: x.old, old: x.old, pkg: fs.Pkg, env: env}
				x.obligation(o.st, Not(pc.boolean(c.E)), "panics-when", labelOf(c), c.Pos)
			}
		}
	}
	x.checkFrame(cx, fs, o.st)
	x.locksReleased(o.st)
}

func conjuncts(g *Term) []*Term {
	switch {
	case g.op == "and":
		var r []*Term
		for _, a := range g.args {
			r = append(r, conjuncts(a)...)
		}
		return r
	case g.op == "or":
		for i, d := range g.args {
			if ps := conjuncts(d); len(ps) > 1 {
				var r []*Term
				for _, p := range ps {
					as := append([]*Term{}, g.args...)
					as[i] = p
					r = append(r, Or(as...))
				}
				return r
			}
		}
	case g.op == "forall":
		n := len(g.args) - 1
		if ps := conjuncts(g.args[n]); len(ps) > 1 {
			var r []*Term
			for _, p := range ps {
				r = append(r, Forall(g.args[:n], p))
			}
			return r
		}
	case g.op == "ite" && g.sort == SBool:
		var r []*Term
		for _, a := range conjuncts(g.args[1]) {
			r = append(r, Implies(g.args[0], a))
		}
		for _, a := range conjuncts(g.args[2]) {
			r = append(r, Implies(Not(g.args[0]), a))
		}
		return r
	}
	return []*Term{g}
}

func (x *Exec) checkPanic(o Outcome, fs *FuncSpec, env map[string]SV) {
	policy := ""
	var when *Clause
	for _, c := range fs.Clauses {
		if c.Kind == "panics" && c.active(x.prop) {
			policy = c.Opt
			when = c
		}
	}
	x.quiet++
	defer func() { x.quiet-- }()
	pc := &evalCtx{x: x, st: x.old, old: x.old, pkg: fs.Pkg, env: env}
	msg := strings.Split(o.pmsg, " at ")[0]
	switch policy {
	case "when":
		x.obligation(o.st, pc.boolean(when.E), "panics-only-when", labelOf(when), o.pmsg)
	case "may":
	default:
		if !fs.Flags["maypanic"] {
			x.obligation(o.st, False, "no-panic", msg, o.pmsg)
		}
	}
	cx := x.postCtx(o, fs, nil, env)
	for _, c := range fs.Clauses {
		if c.Kind == "onpanic" && c.active(x.prop) {
			x.obligation(o.st, cx.boolean(c.E), "onpanic", labelOf(c), o.pmsg)
		}
	}
	x.checkFrame(cx, fs, o.st)
	x.locksReleased(o.st)
}

// checkFrame: everything outside the modifies clause is unchanged
func (x *Exec) checkFrame(cx *evalCtx, fs *FuncSpec, st *State) {
	var allowed []loc
	has := false
	for _, c := range fs.Clauses {
		if (c.Kind == "modifies" || c.Kind == "assign") && c.active(x.prop) {
			if c.Kind == "modifies" {
				has = true
				for _, e := range c.Es {
					allowed = append(allowed, x.locOf(cx, e)...)
				}
			} else {
				allowed = append(allowed, x.locOf(cx, c.Es[0])...)
			}
		}
	}
	_ = has
	if fs.Flags["noframe"] && !x.footOn {
		return
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		nw := st.heap[k]
		od := x.old.h(k, nw.sort)
		if nw == od || strings.HasPrefix(k, "B:") {
			continue
		}
		r := Fresh("anyref", nw.sort.k)
		guard := True
		refKeyed := true
		if strings.HasPrefix(k, "GH:") {
			g := x.w.specs.Ghosts[k[3:]]
			refKeyed = g != nil && g.Key == "ref"
		}
		if nw.sort.k == SInt && refKeyed && !strings.HasPrefix(k, "G:") {
			guard = And(Le(I(0), r), Lt(r, x.old.next))
		}
		whole := false
		two := nw.sort.v.k != nil && !strings.HasPrefix(k, "GH:") && (strings.HasPrefix(k, "E:") || strings.HasPrefix(k, "M"))
		var i *Term
		if two {
			i = Fresh("anyidx", nw.sort.v.k)
		}
		for _, l := range allowed {
			lk := l.key
			match := k == lk || strings.HasPrefix(k, lk+".")
			if l.mt != nil {
				d, c, v, _ := mapKeys(l.mt)
				match = k == d || k == c || k == v || strings.HasPrefix(k, v+".")
			}
			if !match {
				continue
			}
			if l.ref == nil {
				whole = true
				break
			}
			ex := Eq(r, l.ref)
			if l.lo != nil && two {
				ex = And(ex, Le(l.lo, i), Lt(i, l.hi))
			}
			guard = And(guard, Not(ex))
		}
		if whole {
			continue
		}
		a, b := Select(nw, r), Select(od, r)
		if two {
			a, b = Select(a, i), Select(b, i)
		}
		x.obligation(st, Implies(guard, Eq(a, b)), "frame", k, "")
	}
}

func (x *Exec) setupRoot(st *State, fs *FuncSpec, env map[string]SV) {}

// ---------------------------------------------------------------- property driver

func (w *World) rootsFor(prop string) []*FuncSpec {
	var rs []*FuncSpec
	for _, fs := range w.specs.Order {
		if fs.Trusted || fs.Iface || fs.FType != "" || fs.Lemma {
			continue
		}
		for _, p := range fs.Props {
			if p == prop {
				rs = append(rs, fs)
			}
		}
	}
	for _, g := range w.specs.Guarded {
		for _, p := range g.Props {
			if p == prop {
				rs = append(rs, w.guardRoots(g)...)
			}
		}
	}
	return rs
}

// guardProp: the property is a lock discipline
func (w *World) guardProp(prop string) bool {
	for _, g := range w.specs.Guarded {
		for _, p := range g.Props {
			if p == prop {
				return true
			}
		}
	}
	return false
}

// guardRoots: one root per exported method of the guarded type
func (w *World) guardRoots(g *FuncSpec) []*FuncSpec {
	t := w.lookupType(g.Recv, g.Pkg)
	if t == nil {
		return []*FuncSpec{{Key: g.Pkg + "." + g.Recv + "@guarded", Pos: g.Pos}}
	}
	var rs []*FuncSpec
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		o := sel.Obj().(*types.Func)
		if !o.Exported() || g.Skip[o.Name()] {
			continue
		}
		fn := w.prog.MethodValue(sel)
		if fn == nil {
			continue
		}
		fs := &FuncSpec{Pkg: g.Pkg, Recv: g.Recv, Name: o.Name(), Flags: g.Flags, Pos: g.Pos, Fn: fn, Mode: g.Mode, Atomic: g.Atomic}
		fs.Key = g.Pkg + "." + strings.TrimPrefix(g.Recv, "*") + "." + o.Name() + "@locks"
		fs.Params = append(fs.Params, g.Params[0])
		own := w.fspec[fn]
		for k := 1; k < len(fn.Params); k++ {
			n := fmt.Sprintf("p%d", k)
			if own != nil {
				n = own.Params[k]
			}
			fs.Params = append(fs.Params, n)
		}
		if own != nil && own.Params[0] == g.Params[0] {
			for _, c := range own.Clauses {
				if c.Kind == "requires" || c.Kind == "let" || c.Kind == "assumes" || c.Kind == "loopinv" {
					fs.Clauses = append(fs.Clauses, c)
				}
			}
		}
		for _, c := range g.Clauses {
			if c.Kind == "guard" && g.Multi[o.Name()] {
				d := *c
				d.Opt = "multi"
				c = &d
			}
			fs.Clauses = append(fs.Clauses, c)
		}
		fs.Clauses = append(fs.Clauses, &Clause{Kind: "panics", Opt: "may", Pos: g.Pos})
		rs = append(rs, fs)
	}
	return rs
}

type propResult struct {
	roots   []*rootResult
	missing []string
}

func verifyProp(w *World, prop string, only string) *propResult {
	pr := &propResult{}
	noUse := map[string]bool{}
	done := map[string]bool{}
	var work []*FuncSpec
	work = append(work, w.rootsFor(prop)...)
	if u := w.specs.Funcs[only]; u != nil && u.Lemma {
		work = append(work, u)
	}
	run := func(fs *FuncSpec) *rootResult {
		fn := w.byKey[fs.Key]
		if f, ok := fs.Fn.(*ssa.Function); ok {
			fn = f
		} else if !fs.Theorem && (fn == nil || w.fspec[fn] != fs) {
			return nil
		}
		if os.Getenv("GOVER_V") != "" {
			fmt.Fprintf(os.Stderr, "-- %s %s\n", prop, fs.Key)
		}
		r := verifyRoot(w, prop, fs, fn, noUse)
		if os.Getenv("GOVER_V") != "" {
			fmt.Fprintf(os.Stderr, "   %d obligations, %.1fs, prune %d/%.1fs %s\n", len(r.obs), r.secs, r.pruneN, r.pruneT.Seconds(), r.failed)
		}
		return r
	}
	// helper contracts are used only when they verify
	lemmaOK := func(fs *FuncSpec) *rootResult {
		r := run(fs)
		if r == nil || r.failed != "" {
			return nil
		}
		dischargeAll(r.obs, 10)
		for _, o := range r.obs {
			if o.Status != "proved" {
				if os.Getenv("GOVER_V") != "" {
					fmt.Fprintf(os.Stderr, "   lemma not used: %s %s\n", o.Name, o.Status)
				}
				return nil
			}
		}
		return r
	}
	lemmas := map[string]*rootResult{}
	for i := 0; i < len(work); i++ {
		fs := work[i]
		if done[fs.Key] {
			continue
		}
		done[fs.Key] = true
		if only != "" && fs.Key != only {
			continue
		}
		r := run(fs)
		if r == nil {
			pr.missing = append(pr.missing, fs.Key)
			continue
		}
		// used contracts must be verified too
		redo := false
		var addUsed func(m map[string]bool)
		addUsed = func(m map[string]bool) {
			for _, k := range sortedKeys(m) {
				u := w.specs.Funcs[k]
				if u == nil {
					continue
				}
				if u.Lemma || u.hasReads() && w.guardProp(prop) {
					if _, ok := lemmas[k]; !ok {
						lr := lemmaOK(u)
						lemmas[k] = lr
						if lr == nil {
							noUse[k] = true
						} else {
							addUsed(lr.used)
						}
					}
					if lemmas[k] == nil {
						redo = true
					}
					continue
				}
				if u.Flags["delegated"] && !u.hasProp(prop) {
					continue // verified by the checks of its own properties
				}
				work = append(work, u)
			}
		}
		addUsed(r.used)
		if redo {
			r = run(fs)
			addUsed(r.used)
		}
		pr.roots = append(pr.roots, r)
	}
	for _, k := range sortedLemmaKeys(lemmas) {
		if lemmas[k] != nil {
			pr.roots = append(pr.roots, lemmas[k])
		}
	}
	var all []*Oblig
	for _, r := range pr.roots {
		all = append(all, r.obs...)
	}
	dischargeAll(all, 20)
	return pr
}

func sortedLemmaKeys(m map[string]*rootResult) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func dischargeAll(obs []*Oblig, secs int) {
	var todo []*Oblig
	for _, o := range obs {
		if o.Status == "" {
			todo = append(todo, o)
		}
	}
	if len(todo) == 0 {
		return
	}
	dir, err := os.MkdirTemp("", "gover")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	discharge(todo, dir, secs)
}

var _ = types.Typ
