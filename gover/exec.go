package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	w         *World
	prop      string
	root      string
	rootFn    *ssa.Function
	obs       []*Oblig
	dry       int
	quiet     int
	pr        *pruner
	onAccess  func(st *State, a access)
	footOn    bool
	footKeys  []string
	footLocs  []loc
	used      map[string]bool
	inlined   map[string]bool
	externs   map[string]bool
	depth     int
	steps     int
	noUse     map[string]bool // contracts not to be used (fall back to inlining)
	ghostOv   map[string]func(st *State, args []SV) Val
	taskN     int
	loopUid   int
	old       *State
	env0      map[string]SV
	loopObs   int
	curSpec   *FuncSpec
	curFn     *ssa.Function // the root
	notes     map[string]bool
	trace     []string
	forkLog   bool
	guards    []guard
	noOb      int
	inlineAll bool
	cards     map[*Term]*Term // a map's size -> its domain
}

type dcall struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	site ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []dcall
	loops  *loopInfo
	free   []Val
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]Val, len(f.env)), loops: f.loops, free: f.free}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]dcall{}, f.defers...)
	return n
}

type Path struct {
	st *State
	fr *Frame
}

func (p *Path) clone() *Path { return &Path{p.st.clone(), p.fr.clone()} }

type Outcome struct {
	kind string // ret, panic, back, exit
	st   *State
	fr   *Frame
	vals []Val
	pmsg string
	pval Val
	prev *ssa.BasicBlock
	blk  *ssa.BasicBlock
}

type loopRun struct {
	header  *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	limited bool
	unroll  bool
	count   int
	parent  *loopRun
	fresh   bool
}

type abortUnroll struct{ l *loopRun }

const maxSteps = 400000

func (x *Exec) pos(ins ssa.Instruction) string {
	p := x.w.prog.Fset.Position(ins.Pos())
	if !p.IsValid() {
		if ins.Parent() != nil {
			p = x.w.prog.Fset.Position(ins.Parent().Pos())
		}
	}
	return fmt.Sprintf("%s:%d", shortName(p.Filename), p.Line)
}

// ---------------------------------------------------------------- feasibility

func (x *Exec) feasible(st *State, c *Term) bool {
	if c == False || st.dead {
		return false
	}
	if st.knows(Not(c)) {
		return false
	}
	if st.knows(c) {
		return true
	}
	return x.pr.check(append(st.pcList(), c)) != "unsat"
}

// valid: the path condition implies c (conservative)
func (x *Exec) valid(st *State, c *Term) bool {
	if c == True || st.dead {
		return true
	}
	if st.knows(c) {
		return true
	}
	if c == False {
		return false
	}
	return x.pr.check(append(st.pcList(), Not(c))) == "unsat"
}

func (x *Exec) inRange(st *State, t *Term, ii intInfo) *Term {
	lo, hi := interval(t, 0)
	if lo != nil && hi != nil && lo.Cmp(ii.min()) >= 0 && hi.Cmp(ii.max()) <= 0 {
		return t
	}
	if t.hasB {
		return wrapTo(t, ii)
	}
	if x.valid(st, And(Le(IB(ii.min()), t), Le(t, IB(ii.max())))) {
		return t
	}
	return wrapTo(t, ii)
}

// ---------------------------------------------------------------- running functions

func (x *Exec) runFunc(st *State, fn *ssa.Function, args []Val, free []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("function %s has no body", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 60 {
		unsup("call depth exceeded in %s", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: loopsOf(fn), free: free}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = free[i]
	}
	p := &Path{st, fr}
	return x.runFrom(p, fn.Blocks[0], 0, nil, nil)
}

// ifConvert executes a branch whose arms have no effect but to choose the values
// of the variables at their join: the choice becomes a conditional value, and
// the path does not split.  It returns the join, its phis already executed.
func (x *Exec) ifConvert(p *Path, b *ssa.BasicBlock, c *Term, lc *loopRun) *ssa.BasicBlock {
	arm := func(s *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
		if len(s.Preds) != 1 || len(s.Succs) != 1 {
			return nil, false
		}
		for k, ins := range s.Instrs {
			switch t := ins.(type) {
			case *ssa.Jump:
				return s.Succs[0], k == len(s.Instrs)-1
			case *ssa.DebugRef:
			case *ssa.BinOp:
				switch t.Op {
				case token.ADD, token.SUB, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					return nil, false
				}
				if _, ok := intOf(t.X.Type()); !ok {
					return nil, false
				}
			default:
				return nil, false
			}
		}
		return nil, false
	}
	s0, s1 := b.Succs[0], b.Succs[1]
	j0, ok0 := arm(s0)
	j1, ok1 := arm(s1)
	var j, pt, pf *ssa.BasicBlock
	switch {
	case ok0 && ok1 && j0 == j1:
		j, pt, pf = j0, s0, s1
	case ok0 && j0 == s1:
		j, pt, pf = s1, s0, b
	case ok1 && j1 == s0:
		j, pt, pf = s0, b, s1
	default:
		return nil
	}
	if p.fr.loops.headers[j] != nil || j == b {
		return nil
	}
	for l := lc; l != nil; l = l.parent {
		if j == l.header || l.limited && !l.body[j] {
			return nil
		}
	}
	run := func(s *ssa.BasicBlock) bool {
		if s == b {
			return true
		}
		for _, ins := range s.Instrs {
			if t, ok := ins.(*ssa.BinOp); ok {
				v, pan, ok := x.binop(p.st, t.Op, x.val(p, t.X), x.val(p, t.Y), t.X.Type(), t.Y.Type(), ins)
				if !ok || len(pan) > 0 {
					return false
				}
				p.fr.env[t] = v
			}
		}
		return true
	}
	type pv struct {
		ph *ssa.Phi
		v  Val
	}
	var vs []pv
	it, ifl := -1, -1
	for k, q := range j.Preds {
		if q == pt {
			it = k
		}
		if q == pf {
			ifl = k
		}
	}
	if it < 0 || ifl < 0 {
		return nil
	}
	for _, ins := range j.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if ph.Edges[it] == ph.Edges[ifl] {
			continue
		}
		_, isInt := intOf(ph.Type())
		if bt, ok := under(ph.Type()).(*types.Basic); !isInt && !(ok && bt.Kind() == types.Bool) {
			return nil
		}
	}
	if !run(pt) || !run(pf) {
		return nil
	}
	for _, ins := range j.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		a, o := x.val(p, ph.Edges[it]), x.val(p, ph.Edges[ifl])
		if sameVal(a, o) {
			vs = append(vs, pv{ph, a})
			continue
		}
		ta, ok1 := a.(*Term)
		to, ok2 := o.(*Term)
		if !ok1 || !ok2 || ta.sort != to.sort {
			return nil
		}
		vs = append(vs, pv{ph, Ite(c, ta, to)})
	}
	for _, v := range vs {
		p.fr.env[v.ph] = v.v
	}
	return j
}

func (x *Exec) runFrom(p *Path, b *ssa.BasicBlock, i int, prev *ssa.BasicBlock, lc *loopRun) []Outcome {
	for {
		if i == -2 {
			// entered by ifConvert: the phis are done
			i = 0
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		} else if i == 0 && lc != nil && lc.fresh && b == lc.header {
			lc.fresh = false
			if lc.unroll {
				x.doPhis(p, b, prev)
			}
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		} else if i == 0 {
			for l := lc; l != nil; l = l.parent {
				if b == l.header && prev != nil && l.body[prev] {
					if l.unroll {
						l.count++
						if l.count > 300 {
							panic(abortUnroll{l})
						}
						break
					}
					return []Outcome{{kind: "back", st: p.st, fr: p.fr, prev: prev}}
				}
				if l.limited && !l.body[b] {
					return []Outcome{{kind: "exit", st: p.st, fr: p.fr, prev: prev, blk: b}}
				}
			}
			if body := p.fr.loops.headers[b]; body != nil && (prev == nil || !body[prev]) {
				return x.handleLoop(p, b, body, prev, lc)
			}
			// phis

			x.doPhis(p, b, prev)
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
		}
		for ; i < len(b.Instrs); i++ {
			if p.st.dead {
				return nil
			}
			x.steps++
			if x.steps > maxSteps {
				unsup("step budget exceeded")
			}
			if x.steps%64 == 0 && pastDeadline() {
				unsup("time budget exceeded")
			}
			ins := b.Instrs[i]
			switch t := ins.(type) {
			case *ssa.Jump:
				prev, b, i = b, b.Succs[0], -1
			case *ssa.If:
				c := x.val(p, t.Cond).(*Term)
				if c != True && c != False {
					for l := lc; l != nil; l = l.parent {
						if l.unroll && b == l.header {
							panic(abortUnroll{l})
						}
					}
				}
				if c == True {
					prev, b, i = b, b.Succs[0], -1
					break
				}
				if c == False {
					prev, b, i = b, b.Succs[1], -1
					break
				}
				if j := x.ifConvert(p, b, c, lc); j != nil {
					prev, b, i = nil, j, -2
					break
				}
				ft := x.feasible(p.st, c)
				ff := !ft || x.feasible(p.st, Not(c))
				if ft && !ff {
					p.st.assume(c)
					prev, b, i = b, b.Succs[0], -1
					break
				}
				if !ft && ff {
					p.st.assume(Not(c))
					prev, b, i = b, b.Succs[1], -1
					break
				}
				if !ft && !ff {
					return nil
				}
				if x.merging() {
					if outs, ok := x.mergeIf(p, b, c, lc); ok {
						return outs
					}
				}
				q := p.clone()
				p.st.assume(c)
				q.st.assume(Not(c))
				o := x.runFrom(p, b.Succs[0], 0, b, lc)
				return append(o, x.runFrom(q, b.Succs[1], 0, b, lc)...)
			case *ssa.Return:
				var vs []Val
				for _, r := range t.Results {
					vs = append(vs, x.val(p, r))
				}
				return []Outcome{{kind: "ret", st: p.st, fr: p.fr, vals: vs}}
			case *ssa.Panic:
				v := x.val(p, t.X)
				return x.doPanic(p, "explicit panic at "+x.pos(ins), v, lc)
			default:
				outs := x.step(p, ins, lc)
				if len(outs) == 1 && outs[0].kind == "next" {
					p.st = outs[0].st
					continue
				}
				var res []Outcome
				for _, o := range outs {
					switch o.kind {
					case "next":
						fr := p.fr
						if len(outs) > 1 {
							fr = p.fr.clone()
						}
						if o.fr != nil {
							fr = o.fr
						}
						res = append(res, x.runFrom(&Path{o.st, fr}, b, i+1, prev, lc)...)
					case "panic":
						fr := p.fr.clone()
						res = append(res, x.doPanic(&Path{o.st, fr}, o.pmsg, o.pval, lc)...)
					default:
						unsup("outcome %s", o.kind)
					}
				}
				return res
			}
			if i < 0 {
				break
			}
		}
		if i == -1 {
			i = 0
			continue
		}
		if i == -2 {
			continue
		}
		return nil
	}
}

func (x *Exec) doPhis(p *Path, b, prev *ssa.BasicBlock) {
	var vals []Val
	var phis []*ssa.Phi
	idx := -1
	for k, pr := range b.Preds {
		if pr == prev {
			idx = k
		}
	}
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(p, ph.Edges[idx]))
	}
	for k, ph := range phis {
		p.fr.env[ph] = vals[k]
	}
}

// doPanic unwinds the current frame
func (x *Exec) doPanic(p *Path, msg string, v Val, lc *loopRun) []Outcome {
	var res []Outcome
	if len(p.fr.defers) == 0 {
		return []Outcome{{kind: "panic", st: p.st, fr: p.fr, pmsg: msg, pval: v}}
	}
	pv := v
	if pv == nil {
		pv = Ctor("ioth", I(999999), I(1))
	}
	outs := []Outcome{{kind: "next", st: p.st}}
	outs[0].st.gh["panicking"] = pv
	ds := p.fr.defers
	for k := len(ds) - 1; k >= 0; k-- {
		var nx []Outcome
		for _, o := range outs {
			rs := x.callVal(o.st, ds[k].fn, ds[k].args, ds[k].call, ds[k].site)
			for _, r := range rs {
				if r.kind == "panic" {
					r.st.gh["panicking"] = True
				}
				nx = append(nx, Outcome{kind: "next", st: r.st})
			}
		}
		outs = nx
	}
	for _, o := range outs {
		if o.st.gh["panicking"] == nil && p.fr.fn.Recover != nil {
			q := &Path{o.st, p.fr.clone()}
			q.fr.defers = nil
			res = append(res, x.runFrom(q, p.fr.fn.Recover, 0, nil, nil)...)
			continue
		}
		delete(o.st.gh, "panicking")
		res = append(res, Outcome{kind: "panic", st: o.st, fr: p.fr, pmsg: msg, pval: v})
	}
	return res
}

// check that cond holds, producing a panic outcome otherwise
func (x *Exec) check(st *State, cond *Term, what string, ins ssa.Instruction) (ok bool, pan []Outcome) {
	if cond == True || st.knows(cond) {
		return true, nil
	}
	nc := Not(cond)
	if cond != False && !x.feasible(st, nc) {
		st.assume(cond)
		return true, nil
	}
	q := st.clone()
	q.assume(nc)
	pan = []Outcome{{kind: "panic", st: q, pmsg: what + " at " + x.pos(ins)}}
	if cond == False {
		return false, pan
	}
	if !x.feasible(st, cond) {
		return false, pan
	}
	st.assume(cond)
	return true, pan
}

// ---------------------------------------------------------------- values

func (x *Exec) val(p *Path, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Global:
		return &PtrV{kind: "global", key: "G:" + c.Pkg.Pkg.Name() + "." + c.Name(), typ: under(c.Type()).(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return c
	}
	r, ok := p.fr.env[v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), p.fr.fn)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if _, ok := under(t).(*types.Tuple); ok {
			unsup("const tuple")
		}
		return zeroVal(t)
	}
	return constTerm(c.Value, t)
}

func constTerm(v constant.Value, t types.Type) *Term {
	if ii, ok := intOf(t); ok {
		iv := constant.ToInt(v)
		n, ok := constant.Val(iv).(*big.Int)
		if !ok {
			i64, _ := constant.Int64Val(iv)
			n = big.NewInt(i64)
		}
		if bvMode {
			return BVc(n, ii.bits)
		}
		return IB(n)
	}
	if w, ok := isFloat(t); ok {
		f, _ := constant.Float64Val(v)
		if w == 64 {
			return F64c(f)
		}
		f32, _ := constant.Float32Val(v)
		return F32c(f32)
	}
	if isString(t) {
		return StrLit(constant.StringVal(v))
	}
	if isBool(t) {
		return B(constant.BoolVal(v))
	}
	unsup("constant of type %s", t)
	return nil
}

// ---------------------------------------------------------------- instructions

func next1(st *State) []Outcome { return []Outcome{{kind: "next", st: st}} }

func (x *Exec) step(p *Path, ins ssa.Instruction, lc *loopRun) []Outcome {
	st := p.st
	set := func(v ssa.Value, r Val) []Outcome {
		p.fr.env[v] = r
		return next1(st)
	}
	switch t := ins.(type) {
	case *ssa.DebugRef:
		return next1(st)
	case *ssa.Alloc:
		el := under(t.Type()).(*types.Pointer).Elem()
		return set(t, x.allocate(st, el))
	case *ssa.Store:
		el := under(t.Addr.Type()).(*types.Pointer).Elem()
		a := x.val(p, t.Addr)
		ok, pan := x.nilCheck(st, a, ins)
		if ok {
			x.store(st, a, el, x.val(p, t.Val))
			return append(next1(st), pan...)
		}
		return pan
	case *ssa.UnOp:
		return x.unop(p, t)
	case *ssa.BinOp:
		r, pan, ok := x.binop(st, t.Op, x.val(p, t.X), x.val(p, t.Y), t.X.Type(), t.Y.Type(), t)
		if !ok {
			return pan
		}
		p.fr.env[t] = r
		return append(next1(st), pan...)
	case *ssa.ChangeType:
		return set(t, x.val(p, t.X))
	case *ssa.ChangeInterface:
		return set(t, x.val(p, t.X))
	case *ssa.Convert:
		r, pan, ok := x.convert(st, x.val(p, t.X), t.X.Type(), t.Type(), t)
		if !ok {
			return pan
		}
		p.fr.env[t] = r
		return append(next1(st), pan...)
	case *ssa.MakeInterface:
		return set(t, x.mkIface(st, t.X.Type(), x.val(p, t.X)))
	case *ssa.TypeAssert:
		return x.typeAssert(p, t)
	case *ssa.Extract:
		tv := x.val(p, t.Tuple).(TupleV)
		return set(t, tv[t.Index])
	case *ssa.Field:
		sv := x.val(p, t.X).(*StructV)
		return set(t, sv.f[t.Field])
	case *ssa.FieldAddr:
		b := x.val(p, t.X)
		ok, pan := x.nilCheck(st, b, ins)
		if !ok {
			return pan
		}
		el := under(t.X.Type()).(*types.Pointer).Elem()
		p.fr.env[t] = x.fieldPtr(st, b, el, t.Field)
		return append(next1(st), pan...)
	case *ssa.Index:
		a := x.val(p, t.X)
		i := x.val(p, t.Index).(*Term)
		if isString(t.X.Type()) {
			s := a.(*Term)
			ok, pan := x.check(st, And(Le(I(0), i), Lt(i, Slen(s))), "string index out of range", ins)
			if !ok {
				return pan
			}
			p.fr.env[t] = Sbyte(s, i)
			return append(next1(st), pan...)
		}
		at := under(t.X.Type()).(*types.Array)
		ok, pan := x.check(st, And(Le(I(0), i), Lt(i, I(at.Len()))), "index out of range", ins)
		if !ok {
			return pan
		}
		p.fr.env[t] = Select(a.(*Term), i)
		return append(next1(st), pan...)
	case *ssa.IndexAddr:
		return x.indexAddr(p, t)
	case *ssa.Slice:
		return x.slice(p, t)
	case *ssa.Lookup:
		m := x.val(p, t.X)
		if isString(t.X.Type()) {
			s, i := m.(*Term), x.val(p, t.Index).(*Term)
			ok, pan := x.check(st, And(Le(I(0), i), Lt(i, Slen(s))), "string index out of range", ins)
			if !ok {
				return pan
			}
			p.fr.env[t] = Sbyte(s, i)
			return append(next1(st), pan...)
		}
		mt := under(t.X.Type()).(*types.Map)
		k := x.mapKey(mt, x.val(p, t.Index))
		v, in := x.mapLookup(st, mt, m.(*Term), k)
		zv := zeroVal(mt.Elem())
		rv := iteVal(mt.Elem(), in, v, zv)
		// keep the unguarded value when membership is known
		if in != True && in != False {
			if x.valid(st, in) {
				st.assume(in)
				rv = v
				in = True
			} else if !t.CommaOk && x.valid(st, Not(in)) {
				rv = zv
			}
		}
		if t.CommaOk {
			// fork on membership so that the value stays simple
			if in == True || in == False {
				return set(t, TupleV{rv, in})
			}
			ft, ff := x.feasible(st, in), x.feasible(st, Not(in))
			var outs []Outcome
			if ft {
				q := st
				fr := p.fr
				if ff {
					q = st.clone()
					fr = p.fr.clone()
				}
				q.assume(in)
				fr.env[t] = TupleV{v, True}
				outs = append(outs, Outcome{kind: "next", st: q, fr: fr})
			}
			if ff {
				st.assume(Not(in))
				fr := p.fr.clone()
				fr.env[t] = TupleV{zv, False}
				outs = append(outs, Outcome{kind: "next", st: st, fr: fr})
			}
			if len(outs) == 1 {
				p.fr.env[t] = outs[0].fr.env[t]
				outs[0].fr = nil
			}
			return outs
		}
		return set(t, rv)
	case *ssa.MapUpdate:
		mt := under(t.Map.Type()).(*types.Map)
		m := x.val(p, t.Map).(*Term)
		ok, pan := x.check(st, Ne(m, I(0)), "assignment to nil map", ins)
		if !ok {
			return pan
		}
		x.mapStore(st, mt, m, x.mapKey(mt, x.val(p, t.Key)), x.val(p, t.Value))
		return append(next1(st), pan...)
	case *ssa.MakeMap:
		return set(t, x.newMap(st, under(t.Type()).(*types.Map)))
	case *ssa.MakeSlice:
		ln := x.val(p, t.Len).(*Term)
		cp := x.val(p, t.Cap).(*Term)
		el := under(t.Type()).(*types.Slice).Elem()
		lim := new(big.Int).Div(pow2(47), big.NewInt(max64(1, x.w.sizeOf(el))))
		ok, pan := x.check(st, And(Le(I(0), ln), Le(ln, cp), Le(cp, IB(lim))), "makeslice: len out of range", ins)
		if !ok {
			return pan
		}
		p.fr.env[t] = x.newSlice(st, el, ln, cp)
		return append(next1(st), pan...)
	case *ssa.MakeChan:
		return set(t, x.makeChan(st, t, x.val(p, t.Size).(*Term)))
	case *ssa.MakeClosure:
		f := &FuncV{fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			f.bind = append(f.bind, x.val(p, b))
		}
		return set(t, f)
	case *ssa.Range:
		if isString(t.X.Type()) {
			return set(t, &IterV{str: x.val(p, t.X).(*Term), isst: true, id: st.newCell(&IterState{})})
		}
		mt := under(t.X.Type()).(*types.Map)
		m := x.val(p, t.X).(*Term)
		ks := scalarSort(mt.Key())
		d, _, _, _ := mapKeys(mt)
		x.event(st, access{d, m, nil, false})
		dom := Ite(Eq(m, I(0)), ConstArr(SArr(ks, SBool), False), x.mapDom(st, mt, m))
		id := st.newCell(&IterState{visited: ConstArr(SArr(ks, SBool), False), count: I(0), dom0: dom})
		return set(t, &IterV{id: id, m: m, mt: mt, kt: mt.Key(), vt: mt.Elem()})
	case *ssa.Next:
		return x.nextIter(p, t)
	case *ssa.Defer:
		p.fr.defers = append(p.fr.defers, x.mkDefer(p, &t.Call, ins))
		return next1(st)
	case *ssa.RunDefers:
		outs := next1(st)
		ds := p.fr.defers
		p.fr.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			var nx []Outcome
			for _, o := range outs {
				if o.kind == "panic" {
					nx = append(nx, o)
					continue
				}
				for _, r := range x.callVal(o.st, ds[k].fn, ds[k].args, ds[k].call, ds[k].site) {
					if r.kind == "ret" {
						r.kind = "next"
						r.fr = nil
					}
					nx = append(nx, r)
				}
			}
			outs = nx
		}
		return outs
	case *ssa.Call:
		fn, args := x.callTarget(p, &t.Call)
		return x.finishCall(p, t, x.callVal(st, fn, args, &t.Call, ins))
	case *ssa.Go:
		fn, args := x.callTarget(p, &t.Call)
		return x.doGo(p, fn, args, &t.Call, ins)
	case *ssa.Send:
		return x.doSend(p, t)
	case *ssa.Select:
		unsup("select statement")
	}
	unsup("instruction %T", ins)
	return nil
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (x *Exec) finishCall(p *Path, t *ssa.Call, rs []Outcome) []Outcome {
	var outs []Outcome
	bind := func(fr *Frame, r Outcome) {
		n := t.Call.Signature().Results().Len()
		switch {
		case n == 1:
			fr.env[t] = r.vals[0]
		case n > 1:
			fr.env[t] = TupleV(r.vals)
		default:
			fr.env[t] = TupleV(nil)
		}
	}
	nret := 0
	for _, r := range rs {
		if r.kind == "ret" {
			nret++
		}
	}
	for _, r := range rs {
		switch r.kind {
		case "ret":
			if nret == 1 {
				bind(p.fr, r)
				outs = append(outs, Outcome{kind: "next", st: r.st})
			} else {
				fr := p.fr.clone()
				bind(fr, r)
				outs = append(outs, Outcome{kind: "next", st: r.st, fr: fr})
			}
		case "panic":
			outs = append(outs, r)
		default:
			unsup("call outcome %s", r.kind)
		}
	}
	return outs
}

func (x *Exec) allocate(st *State, el types.Type) Val {
	if n, _, ok := isNamedStruct(el); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !x.w.isOverlay(el) {
		return x.newStruct(st, el)
	}
	if at, ok := under(el).(*types.Array); ok {
		s := x.newSlice(st, at.Elem(), I(at.Len()), I(at.Len()))
		return &PtrV{kind: "arr", ref: s.arr, idx: I(0), typ: el}
	}
	c := st.newCell(zeroVal(el))
	cellTyp[c] = el
	return &PtrV{kind: "cell", cell: c, typ: el}
}

var cellTyp = map[int]types.Type{}

func (x *Exec) newSlice(st *State, el types.Type, ln, cp *Term) *SliceV {
	arr := st.alloc()
	for _, l := range leavesOf(el) {
		k := elemKey(el) + l.suf
		m := st.h(k, SArr(SInt, SArr(SInt, l.sort)))
		st.seth(k, Store(m, arr, ConstArr(SArr(SInt, l.sort), zeroTerm(l))))
	}
	return &SliceV{arr, I(0), ln, cp, el}
}

func (x *Exec) nilCheck(st *State, v Val, ins ssa.Instruction) (bool, []Outcome) {
	t, ok := v.(*Term)
	if !ok {
		return true, nil
	}
	c := Ne(t, I(0))
	if c == True || t.op == "app" && t.name == "ovl" {
		return true, nil
	}
	if lo, _ := interval(Sub(t, I(1)), 0); lo != nil && lo.Sign() >= 0 {
		return true, nil
	}
	return x.check(st, c, "nil dereference", ins)
}

func (x *Exec) mapKey(mt *types.Map, k Val) *Term {
	t, ok := k.(*Term)
	if !ok {
		unsup("map key %T", k)
	}
	return t
}

func (x *Exec) indexAddr(p *Path, t *ssa.IndexAddr) []Outcome {
	st := p.st
	i := x.val(p, t.Index).(*Term)
	switch b := x.val(p, t.X).(type) {
	case *SliceV:
		ok, pan := x.check(st, And(Le(I(0), i), Lt(i, b.len)), "index out of range", t)
		if !ok {
			return pan
		}
		idx := Add(b.off, i)
		p.fr.env[t] = &PtrV{kind: "elem", key: elemKey(b.elem), ref: b.arr, idx: idx, typ: b.elem, path: nil, cell: 0}
		elemLimit[p.fr.env[t].(*PtrV)] = Add(b.off, b.len)
		return append(next1(st), pan...)
	case *PtrV:
		at := under(under(t.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		ok, pan := x.check(st, And(Le(I(0), i), Lt(i, I(at.Len()))), "index out of range", t)
		if !ok {
			return pan
		}
		switch b.kind {
		case "arr":
			p.fr.env[t] = &PtrV{kind: "elem", key: elemKey(at.Elem()), ref: b.ref, idx: Add(b.idx, i), typ: at.Elem()}
		case "ovl":
			p.fr.env[t] = &PtrV{kind: "ovl", ref: b.ref, idx: Add(b.idx, Mul(I(x.w.sizeOf(at.Elem())), i)), typ: at.Elem()}
		default:
			unsup("index into %s pointer", b.kind)
		}
		return append(next1(st), pan...)
	}
	unsup("indexaddr")
	return nil
}

var elemLimit = map[*PtrV]*Term{}

func (x *Exec) slice(p *Path, t *ssa.Slice) []Outcome {
	st := p.st
	var lo, hi, mx *Term
	if t.Low != nil {
		lo = x.val(p, t.Low).(*Term)
	} else {
		lo = I(0)
	}
	if t.High != nil {
		hi = x.val(p, t.High).(*Term)
	}
	if t.Max != nil {
		mx = x.val(p, t.Max).(*Term)
	}
	switch b := x.val(p, t.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = b.len
		}
		cp := b.cap
		if mx != nil {
			cp = mx
		}
		cond := And(Le(I(0), lo), Le(lo, hi), Le(hi, cp), Le(cp, b.cap))
		ok, pan := x.check(st, cond, "slice bounds out of range", t)
		if !ok {
			return pan
		}
		p.fr.env[t] = &SliceV{b.arr, Add(b.off, lo), Sub(hi, lo), Sub(cp, lo), b.elem}
		return append(next1(st), pan...)
	case *PtrV:
		at, ok := under(b.typ).(*types.Array)
		if !ok {
			unsup("slice of %s", b.typ)
		}
		n := I(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			cp = mx
		}
		cond := And(Le(I(0), lo), Le(lo, hi), Le(hi, cp), Le(cp, n))
		ok, pan := x.check(st, cond, "slice bounds out of range", t)
		if !ok {
			return pan
		}
		switch b.kind {
		case "arr", "ovl":
			p.fr.env[t] = &SliceV{b.ref, Add(b.idx, lo), Sub(hi, lo), Sub(cp, lo), at.Elem()}
			return append(next1(st), pan...)
		}
	case *Term:
		if isString(t.X.Type()) {
			if hi == nil {
				hi = Slen(b)
			}
			cond := And(Le(I(0), lo), Le(lo, hi), Le(hi, Slen(b)))
			ok, pan := x.check(st, cond, "slice bounds out of range", t)
			if !ok {
				return pan
			}
			p.fr.env[t] = x.substr(st, b, lo, hi)
			return append(next1(st), pan...)
		}
	}
	unsup("slice of %T", x.val(p, t.X))
	return nil
}

func (x *Exec) substr(st *State, s, lo, hi *Term) *Term {
	if lo.isInt() && lo.val.Sign() == 0 && hi == Slen(s) {
		return s
	}
	if l, ok := litOf(s); ok && lo.isInt() && hi.isInt() {
		return StrLit(l[lo.val.Int64():hi.val.Int64()])
	}
	r := App("substr", SStr, s, lo, hi)
	st.assume(Eq(Slen(r), Sub(hi, lo)))
	return r
}

// ---------------------------------------------------------------- iteration over maps

func (x *Exec) nextIter(p *Path, t *ssa.Next) []Outcome {
	st := p.st
	it := x.val(p, t.Iter).(*IterV)
	if it.isst {
		// string iteration: rune values abstracted
		ok := Fresh("rangeok", SBool)
		i := freshVal("rangeidx", types.Typ[types.Int], st)
		r := freshVal("rune", types.Typ[types.Int32], st)
		st.assume(Implies(ok, And(Le(I(0), i.(*Term)), Lt(i.(*Term), Slen(it.str)))))
		p.fr.env[t] = TupleV{ok, i, r}
		return next1(st)
	}
	is := st.cells[it.id].(*IterState)
	dom := Ite(Eq(it.m, I(0)), is.dom0, x.mapDom(st, it.mt, it.m))
	card := Ite(Eq(it.m, I(0)), I(0), x.mapCard(st, it.mt, it.m))
	if dom != is.dom0 && !x.valid(st, Eq(dom, is.dom0)) {
		unsup("map modified during iteration")
	}
	ks := scalarSort(it.kt)
	// exhausted: visited = dom
	done := st.clone()
	frd := p.fr.clone()
	done.assume(Eq(is.count, card))
	bv := BoundVar("k", ks)
	done.assume(Forall([]*Term{bv}, Eq(mk("select", SBool, "", nil, is.visited, bv), mk("select", SBool, "", nil, dom, bv))))
	dn := &IterState{visited: dom, count: is.count, dom0: is.dom0}
	done.cells[it.id] = dn
	tt := t.Type().(*types.Tuple)
	zero := TupleV{False}
	for i := 1; i < 3; i++ {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			zero = append(zero, I(0))
		} else {
			zero = append(zero, zeroVal(tt.At(i).Type()))
		}
	}
	frd.env[t] = zero
	// another element
	k := Fresh("key", ks)
	typeFacts(k, leaf{"", ks, it.kt, ""})
	st.assume(Lt(is.count, card))
	st.assume(Select(dom, k))
	st.assume(Not(Select(is.visited, k)))
	st.assume(Ne(it.m, I(0)))
	st.cells[it.id] = &IterState{visited: Store(is.visited, k, True), count: Add(is.count, I(1)), dom0: is.dom0}
	v, _ := x.mapLookup(st, it.mt, it.m, k)
	p.fr.env[t] = TupleV{True, k, v}
	x.noteIterKey(st, it, k)
	var outs []Outcome
	if x.feasible(st, True) {
		outs = append(outs, Outcome{kind: "next", st: st})
	}
	if x.pr.check(done.pcList()) != "unsat" {
		outs = append(outs, Outcome{kind: "next", st: done, fr: frd})
	}
	if len(outs) == 2 {
		outs[0].fr = p.fr.clone()
	}
	return outs
}

// ---------------------------------------------------------------- interfaces

func (x *Exec) mkIface(st *State, t types.Type, v Val) Val {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	tag := tagOf(t)
	if ii, ok := intOf(t); ok {
		tm := v.(*Term)
		if bvMode {
			tm = bvExtend(tm, 64, ii.signed)
		}
		return Ctor("inum", tag, tm)
	}
	if w, ok := isFloat(t); ok {
		if w == 64 {
			return Ctor("if64", tag, v.(*Term))
		}
		return Ctor("if32", tag, v.(*Term))
	}
	if isString(t) {
		return Ctor("istr", tag, v.(*Term))
	}
	if isBool(t) {
		return Ctor("ibool", tag, v.(*Term))
	}
	switch under(t).(type) {
	case *types.Pointer:
		switch pv := v.(type) {
		case *Term:
			return Ctor("iptr", tag, pv)
		case *PtrV:
			return Ctor("iptr", tag, pv.asTerm())
		}
	case *types.Map, *types.Chan:
		return Ctor("ioth", tag, v.(*Term))
	case *types.Signature:
		return Ctor("ioth", tag, flatten(t, v)[0])
	}
	id := Fresh("box", SInt)
	for i, l := range leavesOf(t) {
		st.assume(Eq(App("unbox$"+typeKey(t)+l.suf, l.sort, id), flatten(t, v)[i]))
	}
	return Ctor("ioth", tag, id)
}

func bvExtend(t *Term, w int, signed bool) *Term {
	if t.sort.bv == w {
		return t
	}
	if t.sort.bv > w {
		return BVOp("(_ extract)", SBV(w), t)
	}
	if signed {
		return BVOp("(_ sign_extend)", SBV(w), t)
	}
	return BVOp("(_ zero_extend)", SBV(w), t)
}

// HasType: dynamic type of iface term i is exactly concrete type t
func HasType(i *Term, t types.Type) *Term {
	c := ctorFor(t)
	return And(IsCtor(c, i), Eq(CtorSel(c, 0, i, SInt), tagOf(t)))
}

func ctorFor(t types.Type) string {
	if _, ok := intOf(t); ok {
		return "inum"
	}
	if w, ok := isFloat(t); ok {
		if w == 64 {
			return "if64"
		}
		return "if32"
	}
	if isString(t) {
		return "istr"
	}
	if isBool(t) {
		return "ibool"
	}
	if _, ok := under(t).(*types.Pointer); ok {
		return "iptr"
	}
	return "ioth"
}

// Unbox extracts the payload of iface i at concrete type t (assuming HasType)
func (x *Exec) Unbox(st *State, i *Term, t types.Type) Val {
	c := ctorFor(t)
	switch c {
	case "inum":
		ii, _ := intOf(t)
		if bvMode {
			return bvExtend(CtorSel(c, 1, i, SBV(64)), ii.bits, ii.signed)
		}
		v := CtorSel(c, 1, i, SInt)
		if st != nil && !v.hasB && !v.isConst() {
			st.assume(And(Le(IB(ii.min()), v), Le(v, IB(ii.max()))))
		}
		return v
	case "istr":
		return CtorSel(c, 1, i, SStr)
	case "if64":
		return CtorSel(c, 1, i, SF64)
	case "if32":
		return CtorSel(c, 1, i, SF32)
	case "ibool":
		return CtorSel(c, 1, i, SBool)
	case "iptr":
		v := CtorSel(c, 1, i, SInt)
		if st != nil && v.op == "dsel" {
			if _, ok := refBound[v]; !ok {
				refBound[v] = st.next
			}
			addFact(v, rawLe0(v))
			st.assume(Lt(v, st.next))
		}
		return v
	}
	switch under(t).(type) {
	case *types.Map, *types.Chan, *types.Signature:
		v := CtorSel("ioth", 1, i, SInt)
		if st != nil && v.op == "dsel" {
			addFact(v, rawLe0(v))
		}
		return v
	}
	id := CtorSel("ioth", 1, i, SInt)
	var ts []*Term
	for _, l := range leavesOf(t) {
		u := App("unbox$"+typeKey(t)+l.suf, l.sort, id)
		typeFacts(u, l)
		ts = append(ts, u)
	}
	v, _ := pack(t, ts)
	return v
}

// ITag is the dynamic type tag
func ITag(i *Term) *Term {
	if isCtor(i) {
		if i.name == "inil" {
			return I(0)
		}
		return i.args[0]
	}
	r := I(0)
	for _, c := range []string{"ioth", "iptr", "ibool", "if32", "if64", "istr", "inum"} {
		r = Ite(IsCtor(c, i), CtorSel(c, 0, i, SInt), r)
	}
	return r
}

// Implements: iface value i implements interface type it
func (x *Exec) Implements(i *Term, it *types.Interface) *Term {
	if it.NumMethods() == 0 {
		return Ne(i, INil)
	}
	if isCtor(i) {
		if i.name == "inil" {
			return False
		}
		if i.args[0].isInt() {
			if t, ok := tagTypes[i.args[0].val.Int64()]; ok {
				return B(types.Implements(t, it))
			}
		}
	}
	var cs []*Term
	for _, t := range x.w.implementers(it) {
		cs = append(cs, HasType(i, t))
	}
	return Or(cs...)
}

// IfaceEq is Go's == on interface values
func IfaceEq(a, b *Term) *Term {
	if a == INil || b == INil {
		return Eq(a, b)
	}
	f64 := And(IsCtor("if64", a), IsCtor("if64", b))
	f32 := And(IsCtor("if32", a), IsCtor("if32", b))
	var r *Term = Eq(a, b)
	if f64 != False {
		r = Ite(f64, And(Eq(CtorSel("if64", 0, a, SInt), CtorSel("if64", 0, b, SInt)), FEq(CtorSel("if64", 1, a, SF64), CtorSel("if64", 1, b, SF64))), r)
	}
	if f32 != False {
		r = Ite(f32, And(Eq(CtorSel("if32", 0, a, SInt), CtorSel("if32", 0, b, SInt)), FEq(CtorSel("if32", 1, a, SF32), CtorSel("if32", 1, b, SF32))), r)
	}
	return r
}

func (x *Exec) typeAssert(p *Path, t *ssa.TypeAssert) []Outcome {
	st := p.st
	i := x.val(p, t.X).(*Term)
	at := t.AssertedType
	var cond *Term
	toIface := false
	if it, ok := under(at).(*types.Interface); ok {
		cond = x.Implements(i, it)
		toIface = true
	} else {
		cond = HasType(i, at)
	}
	get := func(s *State) Val {
		if toIface {
			return i
		}
		return x.Unbox(s, i, at)
	}
	if !t.CommaOk {
		ok, pan := x.check(st, cond, "type assertion to "+typeKey(at)+" fails", t)
		if !ok {
			return pan
		}
		p.fr.env[t] = get(st)
		return append(next1(st), pan...)
	}
	zero := func() Val {
		if toIface {
			return INil
		}
		return zeroVal(at)
	}
	ft := x.feasible(st, cond)
	ff := !ft || x.feasible(st, Not(cond))
	var outs []Outcome
	if ft {
		q, fr := st, p.fr
		if ff {
			q, fr = st.clone(), p.fr.clone()
		}
		q.assume(cond)
		fr.env[t] = TupleV{get(q), True}
		outs = append(outs, Outcome{kind: "next", st: q, fr: fr})
	}
	if ff {
		fr := p.fr
		if ft {
			fr = p.fr.clone()
		}
		st.assume(Not(cond))
		fr.env[t] = TupleV{zero(), False}
		outs = append(outs, Outcome{kind: "next", st: st, fr: fr})
	}
	if len(outs) == 1 {
		outs[0].fr = nil
	}
	return outs
}

// ---------------------------------------------------------------- operators

func (x *Exec) unop(p *Path, t *ssa.UnOp) []Outcome {
	st := p.st
	v := x.val(p, t.X)
	switch t.Op {
	case token.MUL:
		ok, pan := x.nilCheck(st, v, t)
		if !ok {
			return pan
		}
		el := under(t.X.Type()).(*types.Pointer).Elem()
		p.fr.env[t] = x.load(st, v, el)
		return append(next1(st), pan...)
	case token.NOT:
		p.fr.env[t] = Not(v.(*Term))
		return next1(st)
	case token.SUB:
		if _, ok := isFloat(t.X.Type()); ok {
			p.fr.env[t] = FNeg(v.(*Term))
			return next1(st)
		}
		ii, _ := intOf(t.X.Type())
		if bvMode {
			p.fr.env[t] = BVOp("bvneg", v.(*Term).sort, v.(*Term))
		} else {
			p.fr.env[t] = x.inRange(st, Neg(v.(*Term)), ii)
		}
		return next1(st)
	case token.XOR:
		ii, _ := intOf(t.X.Type())
		if bvMode {
			p.fr.env[t] = BVOp("bvnot", v.(*Term).sort, v.(*Term))
		} else if ii.signed {
			p.fr.env[t] = Sub(I(-1), v.(*Term))
		} else {
			p.fr.env[t] = Sub(IB(ii.max()), v.(*Term))
		}
		return next1(st)
	case token.ARROW:
		return x.doRecv(p, t, v)
	}
	unsup("unop %s", t.Op)
	return nil
}

func isNilable(t types.Type) bool {
	switch under(t).(type) {
	case *types.Slice, *types.Signature, *types.Map, *types.Pointer, *types.Chan:
		return true
	}
	return false
}

func (x *Exec) eqVals(st *State, a, b Val, t types.Type) *Term {
	if _, ok := isFloat(t); ok {
		return FEq(a.(*Term), b.(*Term))
	}
	if _, ok := under(t).(*types.Interface); ok {
		return IfaceEq(a.(*Term), b.(*Term))
	}
	if _, ok := under(t).(*types.Slice); ok {
		sa, sb := a.(*SliceV), b.(*SliceV)
		return Eq(sa.arr, sb.arr)
	}
	pa, oka := a.(*PtrV)
	pb, okb := b.(*PtrV)
	if oka && okb {
		if pa.ident() == pb.ident() {
			return True
		}
		if pa.kind == "cell" && pb.kind == "cell" {
			return False
		}
	}
	if oka && !okb && b.(*Term) == I(0) || okb && !oka && a.(*Term) == I(0) {
		return False
	}
	if s, ok := under(t).(*types.Struct); ok {
		sa, sb := a.(*StructV), b.(*StructV)
		var cs []*Term
		for i := 0; i < s.NumFields(); i++ {
			cs = append(cs, x.eqVals(st, sa.f[i], sb.f[i], s.Field(i).Type()))
		}
		return And(cs...)
	}
	fa, fb := flatten(t, a), flatten(t, b)
	var cs []*Term
	for i := range fa {
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

func (x *Exec) binop(st *State, op token.Token, av, bv Val, ta, tb types.Type, ins ssa.Instruction) (Val, []Outcome, bool) {
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		var pan []Outcome
		_, ia := under(ta).(*types.Interface)
		_, ib := under(tb).(*types.Interface)
		if ia != ib {
			// comparison of an interface with a concrete value
			if !ia {
				av = x.mkIface(st, ta, av)
			} else {
				bv = x.mkIface(st, tb, bv)
			}
			ta = types.NewInterfaceType(nil, nil)
		}
		if ia || ib {
			a, b := av.(*Term), bv.(*Term)
			bad := And(IsCtor("ioth", a), IsCtor("ioth", b), Eq(CtorSel("ioth", 0, a, SInt), CtorSel("ioth", 0, b, SInt)))
			ok, pn := x.check(st, Not(bad), "comparing uncomparable values", ins)
			if !ok {
				return nil, pn, false
			}
			pan = pn
		}
		if a, ok := av.(*Term); ok && len(x.cards) > 0 {
			if b, ok := bv.(*Term); ok {
				x.cardFacts(st, a, b)
			}
		}
		r = x.eqVals(st, av, bv, ta)
		if op == token.NEQ {
			r = Not(r)
		}
		return r, pan, true
	}
	a, okA := av.(*Term)
	b, okB := bv.(*Term)
	if !okA || !okB {
		unsup("binop on %T %T", av, bv)
	}
	if isString(ta) {
		switch op {
		case token.ADD:
			return Sconcat(a, b), nil, true
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			lt := func(a, b *Term) *Term { return App("strlt", SBool, a, b) }
			switch op {
			case token.LSS:
				return lt(a, b), nil, true
			case token.GTR:
				return lt(b, a), nil, true
			case token.LEQ:
				return Not(lt(b, a)), nil, true
			default:
				return Not(lt(a, b)), nil, true
			}
		}
		unsup("string op %s", op)
	}
	if _, ok := isFloat(ta); ok {
		switch op {
		case token.ADD:
			return FBin("fp.add", a, b), nil, true
		case token.SUB:
			return FBin("fp.sub", a, b), nil, true
		case token.MUL:
			return FBin("fp.mul", a, b), nil, true
		case token.QUO:
			return FBin("fp.div", a, b), nil, true
		case token.LSS:
			return FCmp("fp.lt", a, b), nil, true
		case token.LEQ:
			return FCmp("fp.leq", a, b), nil, true
		case token.GTR:
			return FCmp("fp.gt", a, b), nil, true
		case token.GEQ:
			return FCmp("fp.geq", a, b), nil, true
		}
		unsup("float op %s", op)
	}
	if isBool(ta) {
		switch op {
		case token.AND:
			return And(a, b), nil, true
		case token.OR:
			return Or(a, b), nil, true
		}
	}
	ii, ok := intOf(ta)
	if !ok {
		unsup("binop %s on %s", op, ta)
	}
	var pan []Outcome
	if op == token.QUO || op == token.REM {
		var c *Term
		if bvMode {
			c = Ne(b, BVc(new(big.Int), b.sort.bv))
		} else {
			c = Ne(b, I(0))
		}
		ok, pn := x.check(st, c, "division by zero", ins)
		if !ok {
			return nil, pn, false
		}
		pan = pn
	}
	if op == token.SHL || op == token.SHR {
		if jj, ok := intOf(tb); ok && jj.signed {
			var c *Term
			if bvMode {
				c = BVOp("bvsle", SBool, BVc(new(big.Int), b.sort.bv), b)
			} else {
				c = Le(I(0), b)
			}
			ok, pn := x.check(st, c, "negative shift", ins)
			if !ok {
				return nil, pn, false
			}
			pan = pn
		}
	}
	if bvMode {
		return bvArith(op, a, b, ii), pan, true
	}
	switch op {
	case token.ADD:
		return x.inRange(st, Add(a, b), ii), pan, true
	case token.SUB:
		return x.inRange(st, Sub(a, b), ii), pan, true
	case token.MUL:
		return x.inRange(st, Mul(a, b), ii), pan, true
	case token.QUO:
		return x.inRange(st, truncDiv(a, b), ii), pan, true
	case token.REM:
		return Sub(a, Mul(b, truncDiv(a, b))), pan, true
	case token.LSS:
		return Lt(a, b), pan, true
	case token.LEQ:
		return Le(a, b), pan, true
	case token.GTR:
		return Gt(a, b), pan, true
	case token.GEQ:
		return Ge(a, b), pan, true
	case token.SHL:
		if b.isInt() {
			k := b.val.Int64()
			if k >= int64(ii.bits) {
				return I(0), pan, true
			}
			return x.inRange(st, Mul(IB(pow2(int(k))), a), ii), pan, true
		}
		return x.inRange(st, Mul(a, pow2Term(b)), ii), pan, true
	case token.SHR:
		if b.isInt() {
			k := b.val.Int64()
			if k >= int64(ii.bits) {
				k = int64(ii.bits)
			}
			return Div(a, IB(pow2(int(k)))), pan, true
		}
		return Div(a, pow2Term(b)), pan, true
	case token.AND:
		if a.isInt() {
			a, b = b, a
		}
		if b.isInt() {
			if a.isInt() {
				return IB(new(big.Int).And(a.val, b.val)), pan, true
			}
			if r := maskAnd(a, b.val); r != nil {
				return r, pan, true
			}
		}
	case token.OR:
		if a.isInt() && b.isInt() {
			return IB(new(big.Int).Or(a.val, b.val)), pan, true
		}
		if a.isInt() && a.val.Sign() == 0 {
			return b, pan, true
		}
		if b.isInt() && b.val.Sign() == 0 {
			return a, pan, true
		}
	}
	r := App("bit"+op.String()+fmt.Sprint(ii.bits), SInt, a, b)
	r.name = sanitizeOp(r.name)
	setRange(r, ii.min(), ii.max())
	return r, pan, true
}

func sanitizeOp(s string) string {
	return strings.NewReplacer("&", "and", "|", "or", "^", "xor").Replace(s)
}

func pow2Term(b *Term) *Term {
	t := App("pow2", SInt, b)
	addFact(t, Ge(t, I(1)))
	return t
}

func truncDiv(a, b *Term) *Term {
	if lo, _ := interval(a, 0); lo != nil && lo.Sign() >= 0 {
		if b.isInt() && b.val.Sign() > 0 {
			return Div(a, b)
		}
	}
	// truncated division via Euclidean
	return Ite(Le(I(0), a), Div(a, b), Neg(Div(Neg(a), b)))
}

// maskAnd computes a & m for a contiguous mask m
func maskAnd(a *Term, m *big.Int) *Term {
	if m.Sign() == 0 {
		return I(0)
	}
	if m.Sign() < 0 {
		return nil
	}
	s := int(m.TrailingZeroBits())
	q := new(big.Int).Rsh(m, uint(s))
	q1 := new(big.Int).Add(q, big.NewInt(1))
	n := q1.BitLen() - 1
	if q1.Cmp(pow2(n)) != 0 {
		return nil
	}
	return Mul(IB(pow2(s)), Mod(Div(a, IB(pow2(s))), IB(pow2(n))))
}

func bvArith(op token.Token, a, b *Term, ii intInfo) *Term {
	s := a.sort
	switch op {
	case token.ADD:
		return BVOp("bvadd", s, a, b)
	case token.SUB:
		return BVOp("bvsub", s, a, b)
	case token.MUL:
		return BVOp("bvmul", s, a, b)
	case token.QUO:
		if ii.signed {
			return BVOp("bvsdiv", s, a, b)
		}
		return BVOp("bvudiv", s, a, b)
	case token.REM:
		if ii.signed {
			return BVOp("bvsrem", s, a, b)
		}
		return BVOp("bvurem", s, a, b)
	case token.AND:
		return BVOp("bvand", s, a, b)
	case token.OR:
		return BVOp("bvor", s, a, b)
	case token.XOR:
		return BVOp("bvxor", s, a, b)
	case token.AND_NOT:
		return BVOp("bvand", s, a, BVOp("bvnot", s, b))
	case token.SHL, token.SHR:
		// bring the shift count to the operand width, saturating
		if b.sort.bv > s.bv {
			big_ := BVOp("bvult", SBool, BVc(big.NewInt(int64(s.bv)), b.sort.bv), b)
			b = Ite(big_, BVc(big.NewInt(int64(s.bv)), s.bv), BVOp("(_ extract)", s, b))
		} else {
			b = bvExtend(b, s.bv, false)
		}
		if op == token.SHL {
			return BVOp("bvshl", s, a, b)
		}
		if ii.signed {
			return BVOp("bvashr", s, a, b)
		}
		return BVOp("bvlshr", s, a, b)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR {
			return bvArith(token.LSS, b, a, ii)
		}
		if op == token.GEQ {
			return bvArith(token.LEQ, b, a, ii)
		}
		n := "bvu"
		if ii.signed {
			n = "bvs"
		}
		if op == token.LSS {
			return BVOp(n+"lt", SBool, a, b)
		}
		return BVOp(n+"le", SBool, a, b)
	}
	unsup("bv op %s", op)
	return nil
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, ins ssa.Instruction) (Val, []Outcome, bool) {
	fi, okf := intOf(from)
	ti, okt := intOf(to)
	ft, t1 := isFloat(from)
	tt, t2 := isFloat(to)
	switch {
	case okf && okt:
		if bvMode {
			return bvExtend(v.(*Term), ti.bits, fi.signed), nil, true
		}
		return x.inRange(st, v.(*Term), ti), nil, true
	case okf && t2:
		if bvMode {
			o := "(_ to_fp_unsigned"
			if fi.signed {
				o = "(_ to_fp"
			}
			if tt == 64 {
				return mk(o+" 11 53) RNE", SF64, "", nil, v.(*Term)), nil, true
			}
			return mk(o+" 8 24) RNE", SF32, "", nil, v.(*Term)), nil, true
		}
		if c := v.(*Term); c.isInt() {
			f, _ := new(big.Float).SetInt(c.val).Float64()
			if tt == 64 {
				return F64c(f), nil, true
			}
		}
		s := SF64
		if tt == 32 {
			s = SF32
		}
		return App(fmt.Sprintf("i2f%d", tt), s, v.(*Term)), nil, true
	case t1 && okt:
		r := App(fmt.Sprintf("f%d2i%d%v", ft, ti.bits, ti.signed), scalarSort(to), v.(*Term))
		if !bvMode {
			setRange(r, ti.min(), ti.max())
		}
		return r, nil, true
	case t1 && t2:
		if ft == tt {
			return v, nil, true
		}
		if tt == 32 {
			return F64to32(v.(*Term)), nil, true
		}
		return F32to64(v.(*Term)), nil, true
	case isString(from) && isString(to):
		return v, nil, true
	case isString(from):
		if s, ok := under(to).(*types.Slice); ok {
			if _, ok := intOf(s.Elem()); ok && x.w.sizeOf(s.Elem()) == 1 {
				str := v.(*Term)
				arr := st.alloc()
				k := elemKey(types.Typ[types.Uint8])
				m := st.h(k, SArr(SInt, SArr(SInt, SInt)))
				st.seth(k, Store(m, arr, StrArr(str)))
				n := Slen(str)
				return &SliceV{arr, I(0), n, n, s.Elem()}, nil, true
			}
		}
	case isString(to):
		if sv, ok := v.(*SliceV); ok && x.w.sizeOf(sv.elem) == 1 {
			m := st.h(elemKey(types.Typ[types.Uint8]), SArr(SInt, SArr(SInt, SInt)))
			return BytesToStr(st, ShiftArr(Select(m, sv.arr), sv.off), sv.len), nil, true
		}
		return freshVal("strconv", to, st), nil, true
	}
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v, nil, true
	}
	if b, ok := under(from).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if pt, ok := under(to).(*types.Pointer); ok {
			pv, ok := v.(*PtrV)
			if ok && pv.kind == "elem" && pv.key == "E:uint8" {
				lim, has := elemLimit[pv]
				if !has {
					unsup("overlay on a pointer of unknown extent")
				}
				n := x.w.sizeOf(pt.Elem())
				ok, pan := x.check(st, Le(Add(pv.idx, I(n)), lim), "overlay outside the buffer", ins)
				if !ok {
					return nil, pan, false
				}
				return Ovl(pv.ref, pv.idx), pan, true
			}
		}
		unsup("unsafe pointer conversion")
	}
	if types.Identical(under(from), under(to)) {
		return v, nil, true
	}
	unsup("conversion %s -> %s", from, to)
	return nil, nil, false
}

// StrArr is the byte array of a string
func StrArr(s *Term) *Term { return mk("strarr", SArr(SInt, SInt), "", nil, s) }

func BytesToStr(st *State, arr, n *Term) *Term {
	if arr.op == "strarr" && Slen(arr.args[0]) == n {
		return arr.args[0]
	}
	if n.isInt() && n.val.Sign() == 0 {
		return StrLit("")
	}
	if n.isInt() && n.val.IsInt64() && n.val.Int64() <= 16 {
		bs := make([]byte, n.val.Int64())
		ok := true
		for i := range bs {
			c := Select(arr, I(int64(i)))
			if !c.isInt() {
				ok = false
				break
			}
			bs[i] = byte(c.val.Int64())
		}
		if ok {
			return StrLit(string(bs))
		}
	}
	r := App("bytes2str", SStr, Fresh("bview", SInt), n)
	r = App("bytes2str", SStr, viewID(arr), n)
	if st != nil {
		st.assume(Eq(Slen(r), n))
		k := BoundVar("k", SInt)
		st.assume(Forall([]*Term{k}, Implies(And(Le(I(0), k), Lt(k, n)), Eq(Sbyte(r, k), Select(arr, k)))))
		if n.isInt() && n.val.IsInt64() && n.val.Int64() <= 16 {
			// extensionality against short literals
			for l, lt := range strLits {
				if len(l) == int(n.val.Int64()) {
					var cs []*Term
					for i := 0; i < len(l); i++ {
						cs = append(cs, Eq(Select(arr, I(int64(i))), I(int64(l[i]))))
					}
					st.assume(Eq(Eq(r, lt), And(cs...)))
				}
			}
		}
	}
	return r
}

var viewIDs = map[*Term]*Term{}

func viewID(arr *Term) *Term {
	if t, ok := viewIDs[arr]; ok {
		return t
	}
	t := Fresh("view", SInt)
	viewIDs[arr] = t
	return t
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
