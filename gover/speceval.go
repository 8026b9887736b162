package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// SV is a specification value: a value with its Go type (nil for purely mathematical sorts).
type SV struct {
	v Val
	t types.Type
}

type specError struct{ msg string }

func serr(f string, a ...interface{}) {
	panic(specError{fmt.Sprintf(f, a...)})
}

type evalCtx struct {
	x     *Exec
	st    *State
	old   *State
	entry *State
	pkg   string
	env   map[string]SV
	iter  *IterState
	iterV *IterV
	emit  bool // emit access events for ghost reads
	depth int
}

func (c *evalCtx) with(n string, v SV) *evalCtx {
	d := *c
	d.env = make(map[string]SV, len(c.env)+1)
	for k, x := range c.env {
		d.env[k] = x
	}
	d.env[n] = v
	return &d
}

func (c *evalCtx) boolean(e *Expr) *Term {
	v := c.eval(e)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		serr("%s: boolean expected", e.Pos)
	}
	return t
}

func (c *evalCtx) inState(st *State, f func(d *evalCtx) SV) SV {
	if st == nil {
		serr("no such state here")
	}
	d := *c
	s := st.clone()
	s.pc = c.st.pc
	s.dead = c.st.dead
	s.next = st.next
	d.st = s
	r := f(&d)
	c.st.pc = s.pc
	return r
}

var mintT types.Type // nil: mathematical

func isNilExpr(e *Expr) bool { return e.Op == "ident" && e.Name == "nil" }

func (c *evalCtx) sortOfType(s string) (*Sort, types.Type) {
	switch s {
	case "mint", "ref":
		return SInt, nil
	case "bseq":
		return SSeq, nil
	case "bytes": // mathematical byte array
		return SArr(SInt, SInt), nil
	case "strset":
		return SArr(SStr, SBool), nil
	case "strmap":
		return SArr(SStr, SIface), nil
	}
	if strings.HasPrefix(s, "set.") {
		k, _ := c.sortOfType(s[4:])
		return SArr(k, SBool), nil
	}
	t := c.x.w.lookupType(s, c.pkg)
	if t == nil {
		serr("unknown type %q in package %s", s, c.pkg)
	}
	so := scalarSort(t)
	if so == nil {
		return nil, t
	}
	return so, t
}

func (c *evalCtx) eval(e *Expr) SV {
	c.depth++
	x := c.x
	switch e.Op {
	case "int":
		n, ok := new(big.Int).SetString(e.Name, 0)
		if !ok {
			serr("%s: bad integer %s", e.Pos, e.Name)
		}
		return SV{IB(n), types.Typ[types.UntypedInt]}
	case "float":
		f, _ := strconv.ParseFloat(e.Name, 64)
		return SV{F64c(f), types.Typ[types.Float64]}
	case "str":
		s, err := strconv.Unquote(e.Name)
		if err != nil {
			serr("%s: bad string", e.Pos)
		}
		return SV{StrLit(s), types.Typ[types.String]}
	case "ident":
		return c.ident(e)
	case "sel":
		if e.Args[0].Op == "ident" {
			if _, ok := c.env[e.Args[0].Name]; !ok {
				if tp, ok := x.w.tpkgs[e.Args[0].Name]; ok {
					if o := tp.Scope().Lookup(e.Name); o != nil {
						return c.object(o, e)
					}
				}
			}
		}
		p, t := c.lval(e)
		x.quiet++
		v := x.load(c.st, p, t)
		x.quiet--
		return SV{v, t}
	case "index":
		b := c.eval(e.Args[0])
		i := c.eval(e.Args[1])
		switch bv := b.v.(type) {
		case *SliceV:
			x.quiet++
			v := x.loadElem(c.st, elemKey(bv.elem), bv.arr, Add(bv.off, c.intTerm(i)), bv.elem)
			x.quiet--
			return SV{v, bv.elem}
		case *Term:
			if b.t != nil {
				if mt, ok := under(b.t).(*types.Map); ok {
					x.quiet++
					v, _ := x.mapLookup(c.st, mt, bv, i.v.(*Term))
					x.quiet--
					return SV{v, mt.Elem()}
				}
				if isString(b.t) {
					return SV{Sbyte(bv, c.intTerm(i)), types.Typ[types.Uint8]}
				}
				if at, ok := under(b.t).(*types.Array); ok {
					return SV{Select(bv, c.intTerm(i)), at.Elem()}
				}
			}
			if bv.sort.k != nil {
				return SV{Select(bv, i.v.(*Term)), nil}
			}
		}
		serr("%s: cannot index", e.Pos)
	case "range":
		b := c.eval(e.Args[0])
		i, j := c.intTerm(c.eval(e.Args[1])), c.intTerm(c.eval(e.Args[2]))
		sv, ok := b.v.(*SliceV)
		if !ok {
			serr("%s: cannot slice", e.Pos)
		}
		return SV{&SliceV{sv.arr, Add(sv.off, i), Sub(j, i), Sub(j, i), sv.elem}, b.t}
	case "un":
		v := c.eval(e.Args[0])
		switch e.Name {
		case "!":
			return SV{Not(v.v.(*Term)), types.Typ[types.Bool]}
		case "-":
			t := v.v.(*Term)
			if t.sort == SF64 || t.sort == SF32 {
				return SV{FNeg(t), v.t}
			}
			if t.sort.bv > 0 {
				return SV{BVOp("bvneg", t.sort, t), v.t}
			}
			return SV{Neg(t), v.t}
		case "~":
			t := v.v.(*Term)
			if t.sort.bv > 0 {
				return SV{BVOp("bvnot", t.sort, t), v.t}
			}
		}
		serr("%s: unary %s", e.Pos, e.Name)
	case "bin":
		return c.bin(e)
	case "forall", "exists":
		d := c
		var vs []*Term
		guard := True
		for _, v := range e.Vars {
			so, t := c.sortOfType(v.Typ)
			if so == nil {
				serr("%s: cannot quantify over %s", e.Pos, v.Typ)
			}
			bv := BoundVar(v.Name, so)
			vs = append(vs, bv)
			d = d.with(v.Name, SV{bv, t})
			if t != nil && so == SInt {
				if ii, ok := intOf(t); ok && ii.bits < 64 {
					guard = And(guard, mk("<=", SBool, "", nil, IB(ii.min()), bv), mk("<=", SBool, "", nil, bv, IB(ii.max())))
				}
			}
		}
		b := d.boolean(e.Args[0])
		if e.Op == "forall" {
			return SV{Forall(vs, Implies(guard, b)), types.Typ[types.Bool]}
		}
		return SV{Exists(vs, And(guard, b)), types.Typ[types.Bool]}
	case "sum":
		set := c.eval(e.Args[0]).v.(*Term)
		so, t := c.sortOfType(e.Vars[0].Typ)
		if so == nil || set.sort != SArr(so, SBool) {
			serr("%s: sum over a set of the wrong type", e.Pos)
		}
		bv := BoundVar(e.Vars[0].Name, so)
		d := c.with(e.Vars[0].Name, SV{bv, t})
		return SV{Sum(set, bv, d.intTerm(d.eval(e.Args[1])), e.Pos), nil}
	case "let":
		return c.with(e.Name, c.eval(e.Args[0])).eval(e.Args[1])
	case "assert":
		v := c.eval(e.Args[0])
		t := x.w.lookupType(e.Typ, c.pkg)
		if t == nil {
			serr("%s: unknown type %s", e.Pos, e.Typ)
		}
		return SV{x.Unbox(c.st, v.v.(*Term), t), t}
	case "is":
		v := c.eval(e.Args[0])
		t := x.w.lookupType(e.Typ, c.pkg)
		if t == nil {
			serr("%s: unknown type %s", e.Pos, e.Typ)
		}
		if it, ok := under(t).(*types.Interface); ok {
			return SV{x.Implements(v.v.(*Term), it), types.Typ[types.Bool]}
		}
		return SV{HasType(v.v.(*Term), t), types.Typ[types.Bool]}
	case "call":
		return c.call(e)
	}
	serr("%s: cannot evaluate %s", e.Pos, e.Op)
	return SV{}
}

func (c *evalCtx) object(o types.Object, e *Expr) SV {
	switch ob := o.(type) {
	case *types.Const:
		if bvMode {
			if _, ok := intOf(ob.Type()); ok && ob.Type() == types.Typ[types.UntypedInt] {
				n, _ := constant.Val(constant.ToInt(ob.Val())).(*big.Int)
				if n == nil {
					i, _ := constant.Int64Val(ob.Val())
					n = big.NewInt(i)
				}
				return SV{IB(n), ob.Type()}
			}
		}
		return SV{constTerm(ob.Val(), ob.Type()), ob.Type()}
	case *types.Var:
		c.x.quiet++
		v := c.x.loadField(c.st, "G:"+ob.Pkg().Name()+"."+ob.Name(), I(1), ob.Type())
		c.x.quiet--
		return SV{v, ob.Type()}
	}
	serr("%s: cannot use %s here", e.Pos, e.Name)
	return SV{}
}

func (c *evalCtx) ident(e *Expr) SV {
	if v, ok := c.env[e.Name]; ok {
		return v
	}
	switch e.Name {
	case "true":
		return SV{True, types.Typ[types.Bool]}
	case "false":
		return SV{False, types.Typ[types.Bool]}
	case "nil":
		return SV{I(0), types.Typ[types.UntypedNil]}
	}
	if m, ok := c.x.w.specs.Macros[e.Name]; ok && len(m.Params) == 0 {
		return c.macro(m, nil)
	}
	if f, ok := c.x.w.specs.Funs[e.Name]; ok && len(f.Params) == 0 {
		so, t := c.sortOfType(f.Ret)
		return SV{Sym("uf$"+f.Name, so), t}
	}
	if g, ok := c.x.w.specs.Ghosts[e.Name]; ok && g.Key == "" {
		return c.ghostRead(g, I(1))
	}
	if tp, ok := c.x.w.tpkgs[c.pkg]; ok {
		if o := tp.Scope().Lookup(e.Name); o != nil {
			return c.object(o, e)
		}
	}
	serr("%s: undefined name %s", e.Pos, e.Name)
	return SV{}
}

func (c *evalCtx) ghostKey(g *GhostDef) (string, *Sort, *Sort, types.Type) {
	ks := SInt
	if g.Key != "" {
		ks, _ = c.sortOfType(g.Key)
	}
	vs, vt := c.sortOfType(g.Val)
	k := "GH:" + g.Name
	heapSorts[k] = SArr(ks, vs)
	return k, ks, vs, vt
}

func (c *evalCtx) ghostRead(g *GhostDef, k *Term) SV {
	if ov := c.x.ghostOv[g.Name]; ov != nil {
		_, _, _, vt := c.ghostKey(g)
		return SV{ov(c.st, []SV{{k, nil}}), vt}
	}
	key, ks, vs, vt := c.ghostKey(g)
	if c.emit {
		c.x.event(c.st, access{key, k, nil, false})
	}
	t := Select(c.st.h(key, SArr(ks, vs)), k)
	if vt != nil {
		for _, l := range leavesOf(vt) {
			c.x.noteLoaded(c.st, t, l)
		}
	}
	return SV{t, vt}
}

// lval gives the pointer value and element type designated by a selector expression
func (c *evalCtx) lval(e *Expr) (Val, types.Type) {
	x := c.x
	switch e.Op {
	case "sel":
		b := c.eval(e.Args[0])
		if b.t == nil {
			serr("%s: selector .%s on a mathematical value", e.Pos, e.Name)
		}
		path := x.w.findField(b.t, e.Name)
		if path == nil {
			serr("%s: no field %s in %s", e.Pos, e.Name, b.t)
		}
		cur, ct := b.v, b.t
		for n, i := range path {
			var st types.Type
			if pt, ok := under(ct).(*types.Pointer); ok {
				st = pt.Elem()
			} else {
				// struct value
				sv, ok := cur.(*StructV)
				if !ok {
					serr("%s: field of non-struct %T", e.Pos, cur)
				}
				ft := under(ct).(*types.Struct).Field(i).Type()
				cur, ct = sv.f[i], ft
				if n == len(path)-1 {
					// give back a temporary cell
					id := c.st.newCell(cur)
					return &PtrV{kind: "cell", cell: id, typ: ct}, ct
				}
				continue
			}
			f := under(st).(*types.Struct).Field(i)
			fp := x.fieldPtr(c.st, cur, st, i)
			if n == len(path)-1 {
				return fp, f.Type()
			}
			if _, ok := under(f.Type()).(*types.Struct); ok {
				cur, ct = fp, types.NewPointer(f.Type())
				continue
			}
			x.quiet++
			cur, ct = x.load(c.st, fp, f.Type()), f.Type()
			x.quiet--
		}
		serr("%s: empty selector", e.Pos)
	case "index":
		b := c.eval(e.Args[0])
		if sv, ok := b.v.(*SliceV); ok {
			i := c.intTerm(c.eval(e.Args[1]))
			return &PtrV{kind: "elem", key: elemKey(sv.elem), ref: sv.arr, idx: Add(sv.off, i), typ: sv.elem}, sv.elem
		}
	case "ident":
		if _, ok := c.env[e.Name]; !ok {
			if tp, ok := x.w.tpkgs[c.pkg]; ok {
				if o, ok := tp.Scope().Lookup(e.Name).(*types.Var); ok {
					return &PtrV{kind: "global", key: "G:" + o.Pkg().Name() + "." + o.Name(), typ: o.Type()}, o.Type()
				}
			}
		}
	case "call":
		if e.Args[0].Op == "ident" && e.Args[0].Name == "old" {
			var p Val
			var t types.Type
			c.inState(c.old, func(d *evalCtx) SV { p, t = d.lval(e.Args[1]); return SV{} })
			return p, t
		}
	}
	serr("%s: not a location", e.Pos)
	return nil, nil
}

func (c *evalCtx) intTerm(v SV) *Term {
	t, ok := v.v.(*Term)
	if !ok || t.sort != SInt && t.sort.bv == 0 {
		serr("integer expected, got %T", v.v)
	}
	return t
}

// bvLift adapts integer literals to the bit width of the other operand
func bvLift(a, b SV) (SV, SV) {
	ta, ok1 := a.v.(*Term)
	tb, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		return a, b
	}
	if ta.sort.bv > 0 && tb.isInt() {
		return a, SV{BVc(tb.val, ta.sort.bv), a.t}
	}
	if tb.sort.bv > 0 && ta.isInt() {
		return SV{BVc(ta.val, tb.sort.bv), b.t}, b
	}
	if ta.sort.bv > 0 && tb.sort.bv > 0 && ta.sort.bv != tb.sort.bv {
		sg := func(v SV) bool {
			if v.t != nil {
				if ii, ok := intOf(v.t); ok {
					return ii.signed
				}
			}
			return false
		}
		if ta.sort.bv < tb.sort.bv {
			return SV{bvExtend(ta, tb.sort.bv, sg(a)), b.t}, b
		}
		return a, SV{bvExtend(tb, ta.sort.bv, sg(b)), a.t}
	}
	return a, b
}

func signedT(t types.Type) bool {
	if t == nil {
		return true
	}
	ii, ok := intOf(t)
	return ok && ii.signed
}

func (c *evalCtx) bin(e *Expr) SV {
	x := c.x
	bt := types.Typ[types.Bool]
	switch e.Name {
	case "&&":
		a := c.boolean(e.Args[0])
		if a == False {
			return SV{False, bt}
		}
		return SV{And(a, c.boolean(e.Args[1])), bt}
	case "||":
		a := c.boolean(e.Args[0])
		if a == True {
			return SV{True, bt}
		}
		return SV{Or(a, c.boolean(e.Args[1])), bt}
	case "==>":
		a := c.boolean(e.Args[0])
		if a == False {
			return SV{True, bt}
		}
		return SV{Implies(a, c.boolean(e.Args[1])), bt}
	case "<==>":
		return SV{Eq(c.boolean(e.Args[0]), c.boolean(e.Args[1])), bt}
	}
	if e.Name == "in" {
		m := c.eval(e.Args[1])
		k := c.eval(e.Args[0]).v.(*Term)
		mt, ok := m.v.(*Term)
		if !ok {
			serr("%s: in", e.Pos)
		}
		if m.t == nil && mt.sort.v == SBool {
			return SV{Select(mt, k), bt}
		}
		mp, ok := under(m.t).(*types.Map)
		if !ok {
			serr("%s: in on a non-map", e.Pos)
		}
		x.quiet++
		x.mapFacts(c.st, mp, mt, k)
		r := And(Ne(mt, I(0)), Select(x.mapDom(c.st, mp, mt), k))
		x.quiet--
		return SV{r, bt}
	}
	if e.Name == "==" || e.Name == "!=" || e.Name == "===" || e.Name == "!==" {
		var r *Term
		switch {
		case isNilExpr(e.Args[1]):
			r = c.isNil(c.eval(e.Args[0]))
		case isNilExpr(e.Args[0]):
			r = c.isNil(c.eval(e.Args[1]))
		default:
			a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
			a, b = bvLift(a, b)
			r = c.equal(a, b, strings.HasPrefix(e.Name, "===") || strings.HasPrefix(e.Name, "!=="), e)
		}
		if e.Name[0] == '!' {
			r = Not(r)
		}
		return SV{r, bt}
	}
	a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
	a, b = bvLift(a, b)
	at, ok1 := a.v.(*Term)
	btm, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		serr("%s: operands of %s", e.Pos, e.Name)
	}
	rt := a.t
	if rt == types.Typ[types.UntypedInt] {
		rt = b.t
	}
	if at.sort.bv > 0 {
		ops := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul", "|": "bvor", "&": "bvand", "^": "bvxor", "<<": "bvshl", ">>": "bvlshr"}
		if o, ok := ops[e.Name]; ok {
			if o == "bvlshr" && signedT(rt) {
				o = "bvashr"
			}
			return SV{BVOp(o, at.sort, at, btm), rt}
		}
		p := "bvu"
		if signedT(rt) {
			p = "bvs"
		}
		switch e.Name {
		case "<":
			return SV{BVOp(p+"lt", SBool, at, btm), bt}
		case "<=":
			return SV{BVOp(p+"le", SBool, at, btm), bt}
		case ">":
			return SV{BVOp(p+"lt", SBool, btm, at), bt}
		case ">=":
			return SV{BVOp(p+"le", SBool, btm, at), bt}
		}
		serr("%s: bv op %s", e.Pos, e.Name)
	}
	if at.sort == SF64 || at.sort == SF32 {
		switch e.Name {
		case "+":
			return SV{FBin("fp.add", at, btm), rt}
		case "-":
			return SV{FBin("fp.sub", at, btm), rt}
		case "*":
			return SV{FBin("fp.mul", at, btm), rt}
		case "/":
			return SV{FBin("fp.div", at, btm), rt}
		case "<":
			return SV{FCmp("fp.lt", at, btm), bt}
		case "<=":
			return SV{FCmp("fp.leq", at, btm), bt}
		case ">":
			return SV{FCmp("fp.gt", at, btm), bt}
		case ">=":
			return SV{FCmp("fp.geq", at, btm), bt}
		}
		serr("%s: float op %s", e.Pos, e.Name)
	}
	if at.sort == SStr && e.Name == "+" {
		return SV{Sconcat(at, btm), rt}
	}
	if at.sort != SInt || btm.sort != SInt {
		serr("%s: operands of %s have sorts %s %s", e.Pos, e.Name, at.sort.name, btm.sort.name)
	}
	switch e.Name {
	case "+":
		return SV{Add(at, btm), rt}
	case "-":
		return SV{Sub(at, btm), rt}
	case "*":
		return SV{Mul(at, btm), rt}
	case "/":
		return SV{Div(at, btm), rt}
	case "%":
		return SV{Mod(at, btm), rt}
	case "<":
		return SV{Lt(at, btm), bt}
	case "<=":
		return SV{Le(at, btm), bt}
	case ">":
		return SV{Gt(at, btm), bt}
	case ">=":
		return SV{Ge(at, btm), bt}
	}
	serr("%s: operator %s", e.Pos, e.Name)
	return SV{}
}

func (c *evalCtx) isNil(v SV) *Term {
	switch a := v.v.(type) {
	case *SliceV:
		return Eq(a.arr, I(0))
	case *Term:
		if a.sort == SIface {
			return Eq(a, INil)
		}
		if a.sort == SInt {
			return Eq(a, I(0))
		}
	case *PtrV, *FuncV:
		return False
	}
	serr("nil comparison of %T", v.v)
	return nil
}

func (c *evalCtx) equal(a, b SV, ident bool, e *Expr) *Term {
	isI := func(v SV) bool {
		t, ok := v.v.(*Term)
		return ok && t.sort == SIface
	}
	if isI(a) != isI(b) {
		if isI(a) {
			b = SV{c.x.mkIface(c.st, b.t, b.v), a.t}
		} else {
			a = SV{c.x.mkIface(c.st, a.t, a.v), b.t}
		}
	}
	if isI(a) {
		if ident {
			return Eq(a.v.(*Term), b.v.(*Term))
		}
		return IfaceEq(a.v.(*Term), b.v.(*Term))
	}
	if !ident {
		if t, ok := a.v.(*Term); ok && (t.sort == SF64 || t.sort == SF32) {
			return FEq(t, b.v.(*Term))
		}
	}
	ta, ok1 := a.v.(*Term)
	tb, ok2 := b.v.(*Term)
	if ok1 && ok2 {
		if ta.sort != tb.sort {
			serr("%s: comparison of %s and %s: %s == %s", e.Pos, ta.sort.name, tb.sort.name, ta, tb)
		}
		return Eq(ta, tb)
	}
	t := a.t
	if t == nil {
		t = b.t
	}
	if t == nil {
		serr("%s: comparison of untyped composites", e.Pos)
	}
	fa, fb := flatten(t, a.v), flatten(t, b.v)
	if len(fa) != len(fb) {
		serr("%s: comparison of different shapes", e.Pos)
	}
	var cs []*Term
	for i := range fa {
		if !ident && fa[i].sort == SIface {
			cs = append(cs, IfaceEq(fa[i], fb[i]))
		} else {
			cs = append(cs, Eq(fa[i], fb[i]))
		}
	}
	return And(cs...)
}

func (c *evalCtx) macro(m *MacroDef, args []SV) SV {
	if len(args) != len(m.Params) {
		serr("macro %s: %d arguments", m.Name, len(args))
	}
	d := *c
	d.env = map[string]SV{}
	if m.Pkg != "" {
		d.pkg = m.Pkg
	}
	for i, p := range m.Params {
		a := args[i]
		if p.Typ != "_" {
			so, t := d.sortOfType(p.Typ)
			_ = so
			if t != nil {
				if tm, ok := a.v.(*Term); ok && bvMode && tm.isInt() {
					if ii, ok := intOf(t); ok {
						a.v = BVc(tm.val, ii.bits)
					}
				}
				a.t = t
			}
		}
		d.env[p.Name] = a
	}
	if m.Opaque && !bvMode {
		if v, ok := d.opaque(m, args); ok {
			return v
		}
	}
	return d.eval(m.Body)
}

// opaque definitions are uninterpreted functions with a defining axiom; an application to constructor
// terms or constants is expanded in place
func (c *evalCtx) opaque(m *MacroDef, args []SV) (SV, bool) {
	var ts []*Term
	for i := range m.Params {
		t, ok := c.env[m.Params[i].Name].v.(*Term)
		if !ok || t.isConst() || isCtor(t) || t.op == "ite" {
			return SV{}, false
		}
		ts = append(ts, t)
	}
	rs, rt := c.sortOfType(m.Ret)
	app := App("def$"+m.Name, rs, ts...)
	if m.ax == nil {
		d := *c
		d.env = map[string]SV{}
		var vs []*Term
		for _, p := range m.Params {
			so, t := c.sortOfType(p.Typ)
			v := BoundVar(p.Name, so)
			vs = append(vs, v)
			d.env[p.Name] = SV{v, t}
		}
		body := d.eval(m.Body).v.(*Term)
		m.ax = Forall(vs, Eq(App("def$"+m.Name, rs, vs...), body))
	}
	opaqueAx[app.name] = m.ax
	return SV{app, rt}, true
}

func (c *evalCtx) args(e *Expr) []SV {
	var as []SV
	for _, a := range e.Args[1:] {
		as = append(as, c.eval(a))
	}
	return as
}

func (c *evalCtx) call(e *Expr) SV {
	x := c.x
	bt := types.Typ[types.Bool]
	if e.Args[0].Op != "ident" {
		serr("%s: call of a non-identifier", e.Pos)
	}
	n := e.Args[0].Name
	switch n {
	case "old":
		return c.inState(c.old, func(d *evalCtx) SV { return d.eval(e.Args[1]) })
	case "entry":
		if e.Args[1].Op == "ident" {
			if v, ok := c.env["entry$"+e.Args[1].Name]; ok {
				return v
			}
		}
		return c.inState(c.entry, func(d *evalCtx) SV { return d.eval(e.Args[1]) })
	case "len", "cap":
		v := c.eval(e.Args[1])
		switch a := v.v.(type) {
		case *SliceV:
			if n == "cap" {
				return SV{a.cap, types.Typ[types.Int]}
			}
			return SV{a.len, types.Typ[types.Int]}
		case *Term:
			if a.sort == SStr {
				return SV{Slen(a), types.Typ[types.Int]}
			}
			if mt, ok := under(v.t).(*types.Map); ok {
				return SV{Ite(Eq(a, I(0)), I(0), x.mapCard(c.st, mt, a)), types.Typ[types.Int]}
			}
			if at, ok := under(v.t).(*types.Array); ok {
				return SV{I(at.Len()), types.Typ[types.Int]}
			}
		}
		serr("%s: len", e.Pos)
	case "fresh":
		v := c.eval(e.Args[1])
		var r *Term
		switch a := v.v.(type) {
		case *Term:
			r = a
			if a.sort == SIface {
				r = CtorSel("iptr", 1, a, SInt)
			}
		case *SliceV:
			r = a.arr
		default:
			return SV{True, bt}
		}
		return SV{And(Le(c.old.next, r), Lt(r, c.st.next)), bt}
	case "allocated":
		v := c.eval(e.Args[1]).v.(*Term)
		return SV{Lt(v, c.st.next), bt}
	case "visited":
		if c.iter == nil {
			serr("visited outside a loop")
		}
		return SV{Select(c.iter.visited, c.eval(e.Args[1]).v.(*Term)), bt}
	case "visitedset":
		if c.iter == nil {
			serr("visitedset outside a loop")
		}
		return SV{c.iter.visited, nil}
	case "nvisited":
		if c.iter == nil {
			serr("nvisited outside a loop")
		}
		return SV{c.iter.count, types.Typ[types.Int]}
	case "itermap":
		if c.iterV == nil {
			serr("itermap outside a loop")
		}
		return SV{c.iterV.m, c.iterV.mt}
	case "ite":
		cc := c.boolean(e.Args[1])
		a, b := c.eval(e.Args[2]), c.eval(e.Args[3])
		a, b = bvLift(a, b)
		t := a.t
		if t == types.Typ[types.UntypedInt] {
			t = b.t
		}
		if ta, ok := a.v.(*Term); ok {
			return SV{Ite(cc, ta, b.v.(*Term)), t}
		}
		return SV{iteVal(t, cc, a.v, b.v), t}
	case "byteat":
		k := c.intTerm(c.eval(e.Args[2]))
		return SV{byteK(c.intTerm(c.eval(e.Args[1])), int(k.val.Int64())), types.Typ[types.Uint8]}
	case "le":
		w := c.intTerm(c.eval(e.Args[1]))
		return SV{SeqLE(int(w.val.Int64()), c.intTerm(c.eval(e.Args[2]))), nil}
	case "strseq":
		return SV{SeqStr(c.eval(e.Args[1]).v.(*Term)), nil}
	case "freshref": // a newly allocated object (library contracts only)
		return SV{c.st.alloc(), nil}
	case "strof": // the string with the bytes of a slice
		v, ok := c.eval(e.Args[1]).v.(*SliceV)
		if !ok {
			serr("%s: strof", e.Pos)
		}
		m := c.st.h(elemKey(v.elem), SArr(SInt, SArr(SInt, leavesOf(v.elem)[0].sort)))
		return SV{BytesToStr(nil, ShiftArr(Select(m, v.arr), v.off), v.len), types.Typ[types.String]}
	case "zeros":
		return SV{SeqZero(), nil}
	case "captured": // what a closure built by this function has captured under a name
		fv, ok := c.eval(e.Args[1]).v.(*FuncV)
		if t, is := c.eval(e.Args[1]).v.(*Term); is {
			fv, ok = funcIDs[t]
		}
		if !ok || fv == nil || fv.fn == nil {
			serr("%s: captured: not a known closure", e.Pos)
		}
		name := e.Args[2].Name
		for i, v := range fv.fn.FreeVars {
			if v.Name() == name && i < len(fv.bind) {
				if pv, is := fv.bind[i].(*PtrV); is && pv.kind == "cell" {
					return SV{c.st.cells[pv.cell], v.Type().(*types.Pointer).Elem()}
				}
				if _, is := v.Type().(*types.Pointer); !is {
					return SV{fv.bind[i], v.Type()}
				}
			}
		}
		serr("%s: captured: the closure captures no %s", e.Pos, name)
	case "seqof": // bytes of a slice
		v, ok := c.eval(e.Args[1]).v.(*SliceV)
		if !ok {
			serr("%s: seqof", e.Pos)
		}
		m := c.st.h(elemKey(v.elem), SArr(SInt, SArr(SInt, leavesOf(v.elem)[0].sort)))
		return SV{SeqSub(Select(m, v.arr), v.off), nil}
	case "seqat":
		return SV{SeqAt(c.eval(e.Args[1]).v.(*Term), c.intTerm(c.eval(e.Args[2]))), types.Typ[types.Uint8]}
	case "view": // mathematical byte array of a slice
		v, ok := c.eval(e.Args[1]).v.(*SliceV)
		if !ok {
			serr("%s: view", e.Pos)
		}
		m := c.st.h(elemKey(v.elem), SArr(SInt, SArr(SInt, leavesOf(v.elem)[0].sort)))
		return SV{ShiftArr(Select(m, v.arr), v.off), nil}
	case "blit":
		as := c.args(e)
		return SV{Blit(as[0].v.(*Term), c.intTerm(as[1]), c.intTerm(as[2]), as[3].v.(*Term)), nil}
	case "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64":
		w, _ := strconv.Atoi(n[1:])
		v := c.eval(e.Args[1])
		t := map[string]types.Type{"u8": types.Typ[types.Uint8], "u16": types.Typ[types.Uint16], "u32": types.Typ[types.Uint32], "u64": types.Typ[types.Uint64], "i8": types.Typ[types.Int8], "i16": types.Typ[types.Int16], "i32": types.Typ[types.Int32], "i64": types.Typ[types.Int64]}[n]
		tm := v.v.(*Term)
		if bvMode {
			if tm.isInt() {
				return SV{BVc(tm.val, w), t}
			}
			return SV{bvExtend(tm, w, signedT(v.t)), t}
		}
		return SV{wrapTo(tm, intInfo{w, n[0] == 'i'}), t}
	case "f64bits":
		return SV{floatBits(c.eval(e.Args[1]).v.(*Term), 64), types.Typ[types.Uint64]}
	case "f32bits":
		return SV{floatBits(c.eval(e.Args[1]).v.(*Term), 32), types.Typ[types.Uint32]}
	case "f64from":
		return SV{floatFromBits(c.eval(e.Args[1]).v.(*Term), 64), types.Typ[types.Float64]}
	case "f32from":
		return SV{floatFromBits(c.eval(e.Args[1]).v.(*Term), 32), types.Typ[types.Float32]}
	case "tof32":
		t := c.eval(e.Args[1]).v.(*Term)
		if t.sort == SF32 {
			return SV{t, types.Typ[types.Float32]}
		}
		return SV{F64to32(t), types.Typ[types.Float32]}
	case "tof64":
		t := c.eval(e.Args[1]).v.(*Term)
		if t.sort == SF64 {
			return SV{t, types.Typ[types.Float64]}
		}
		return SV{F32to64(t), types.Typ[types.Float64]}
	case "i2f64":
		return SV{App("i2f64", SF64, c.intTerm(c.eval(e.Args[1]))), types.Typ[types.Float64]}
	case "f2i64":
		r := App("f642i64true", SInt, c.eval(e.Args[1]).v.(*Term))
		ii, _ := intOf(types.Typ[types.Int64])
		setRange(r, ii.min(), ii.max())
		return SV{r, types.Typ[types.Int64]}
	case "isnan":
		t := c.eval(e.Args[1]).v.(*Term)
		return SV{fop("fp.isNaN", SBool, t), bt}
	case "isinf":
		t := c.eval(e.Args[1]).v.(*Term)
		return SV{fop("fp.isInfinite", SBool, t), bt}
	case "boxed", "boxedp":
		// boxed(T, v)
		t := x.w.lookupType(typeText(e.Args[1]), c.pkg)
		if t == nil {
			serr("%s: boxed: unknown type", e.Pos)
		}
		if n == "boxedp" {
			t = types.NewPointer(t)
		}
		return SV{x.mkIface(c.st, t, c.eval(e.Args[2]).v), types.NewInterfaceType(nil, nil)}
	case "typetag":
		return SV{ITag(c.eval(e.Args[1]).v.(*Term)), nil}
	case "ptrof":
		return SV{CtorSel("iptr", 1, c.eval(e.Args[1]).v.(*Term), SInt), nil}
	case "inv":
		v := c.eval(e.Args[1])
		return SV{c.invOf(v, e), bt}
	case "unchanged":
		var cs []*Term
		for _, a := range e.Args[1:] {
			nv := c.eval(a)
			ov := c.inState(c.old, func(d *evalCtx) SV { return d.eval(a) })
			cs = append(cs, c.equal(nv, ov, true, e))
		}
		return SV{And(cs...), bt}
	case "unchangedmap": // domain, cardinality and values of a map
		var cs []*Term
		for _, a := range e.Args[1:] {
			cs = append(cs, c.sameMap(a, nil))
		}
		return SV{And(cs...), bt}
	case "unchangedmapexcept": // (m, k): only key k may differ
		return SV{c.sameMap(e.Args[1], c.eval(e.Args[2]).v.(*Term)), bt}
	case "dom":
		v := c.eval(e.Args[1])
		mt := under(v.t).(*types.Map)
		return SV{x.mapDom(c.st, mt, v.v.(*Term)), nil}
	case "lockmode":
		p, _ := c.lval(e.Args[1])
		l, _ := c.st.gh["lock:"+lockIdent(p)].(LockS)
		return SV{I(int64(l.mode)), nil}
	case "u64at": // u64at(slice, off): the little-endian number in eight bytes
		sv := c.eval(e.Args[1]).v.(*SliceV)
		off := c.intTerm(c.eval(e.Args[2]))
		arr := Select(c.st.h(elemKey(sv.elem), SArr(SInt, SArr(SInt, SInt))), sv.arr)
		var bs []*Term
		for k := int64(0); k < 8; k++ {
			b := Select(arr, Add(sv.off, off, I(k)))
			bs = append(bs, b)
		}
		return SV{U64LE(bs), nil}
	case "whole": // whole(slice): the slice starts its backing array
		sv := c.eval(e.Args[1]).v.(*SliceV)
		return SV{Eq(sv.off, I(0)), bt}
	case "seqeq": // seqeq(slice, off, n, seq)
		sv := c.eval(e.Args[1]).v.(*SliceV)
		off := c.intTerm(c.eval(e.Args[2]))
		cnt := c.intTerm(c.eval(e.Args[3]))
		sq := c.eval(e.Args[4]).v.(*Term)
		m := c.st.h(elemKey(sv.elem), SArr(SInt, SArr(SInt, SInt)))
		arr := Select(m, sv.arr)
		return SV{seqEq(arr, Add(sv.off, off), cnt, sq), bt}
	case "arreq": // arreq(array, off, n, seq)
		arr := c.eval(e.Args[1]).v.(*Term)
		return SV{seqEq(arr, c.intTerm(c.eval(e.Args[2])), c.intTerm(c.eval(e.Args[3])), c.eval(e.Args[4]).v.(*Term)), bt}
	case "dec": // dec(T, slice, off): decode a value of type T from the bytes of a slice
		t := x.w.lookupType(typeText(e.Args[1]), c.pkg)
		sv := c.eval(e.Args[2]).v.(*SliceV)
		off := c.intTerm(c.eval(e.Args[3]))
		x.quiet++
		v := x.decode(c.st, sv.arr, Add(sv.off, off), t)
		x.quiet--
		return SV{v, t}
	case "deref":
		v := c.eval(e.Args[1])
		pt := under(v.t).(*types.Pointer)
		x.quiet++
		r := x.load(c.st, v.v, pt.Elem())
		x.quiet--
		return SV{r, pt.Elem()}
	case "ovlat": // ovlat(p, slice, off): p is an overlay at that position
		p := c.eval(e.Args[1]).v.(*Term)
		sv := c.eval(e.Args[2]).v.(*SliceV)
		return SV{And(Eq(ovlProj("ovlArr", p), sv.arr), Eq(ovlProj("ovlIdx", p), Add(sv.off, c.intTerm(c.eval(e.Args[3]))))), bt}
	case "as": // as(T, v): view a mathematical value at a Go type
		t := x.w.lookupType(typeText(e.Args[1]), c.pkg)
		return SV{c.eval(e.Args[2]).v, t}
	case "onlychanged": // onlychanged(s[i..j], ...): elements of that type outside the ranges are as in the old state
		type rg struct{ arr, lo, hi *Term }
		var rs []rg
		var key string
		var lv []leaf
		for _, a := range e.Args[1:] {
			sv := c.eval(a).v.(*SliceV)
			key, lv = elemKey(sv.elem), leavesOf(sv.elem)
			rs = append(rs, rg{sv.arr, sv.off, Add(sv.off, sv.len)})
		}
		var cs []*Term
		for _, l := range lv {
			so := SArr(SInt, SArr(SInt, l.sort))
			a, b := c.st.h(key+l.suf, so), c.old.h(key+l.suf, so)
			if a == b {
				continue
			}
			base := map[*Term]bool{}
			if writesBetween(a, b, base) {
				// only the stored-to arrays can differ
				var refs []*Term
				for r := range base {
					refs = append(refs, r)
				}
				sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
				for _, r := range refs {
					k := BoundVar("k", SInt)
					g := Lt(r, c.old.next)
					for _, q := range rs {
						g = And(g, Or(Ne(r, q.arr), Lt(k, q.lo), Le(q.hi, k)))
					}
					cs = append(cs, Forall([]*Term{k}, Implies(g, Eq(Select(Select(a, r), k), Select(Select(b, r), k)))))
				}
				continue
			}
			r, k := BoundVar("r", SInt), BoundVar("k", SInt)
			g := And(Le(I(0), r), Lt(r, c.old.next))
			for _, q := range rs {
				g = And(g, Or(Ne(r, q.arr), Lt(k, q.lo), Le(q.hi, k)))
			}
			cs = append(cs, Forall([]*Term{r, k}, Implies(g, Eq(Select(Select(a, r), k), Select(Select(b, r), k)))))
		}
		return SV{And(cs...), bt}
	case "disjoint":
		a, b := c.eval(e.Args[1]).v.(*SliceV), c.eval(e.Args[2]).v.(*SliceV)
		return SV{Or(Ne(a.arr, b.arr), Le(Add(a.off, a.len), b.off), Le(Add(b.off, b.len), a.off)), bt}
	case "haspanic":
		return SV{B(c.st.gh["panicking"] != nil), bt}
	}
	if m, ok := x.w.specs.Macros[n]; ok {
		return c.macro(m, c.args(e))
	}
	if f, ok := x.w.specs.Funs[n]; ok {
		so, t := c.sortOfType(f.Ret)
		var ts []*Term
		as := c.args(e)
		if len(as) != len(f.Params) {
			serr("%s: %s takes %d arguments", e.Pos, n, len(f.Params))
		}
		for i, a := range as {
			tm, ok := a.v.(*Term)
			if fv, isf := a.v.(*FuncV); isf {
				tm, ok = fv.term(), true
			}
			if !ok {
				serr("%s: argument %d of %s", e.Pos, i, n)
			}
			ps, _ := c.sortOfType(f.Params[i].Typ)
			if ps != tm.sort {
				if ps == SIface && a.t != nil {
					tm = x.mkIface(c.st, a.t, tm).(*Term)
				} else {
					serr("%s: argument %d of %s has sort %s", e.Pos, i, n, tm.sort.name)
				}
			}
			ts = append(ts, tm)
		}
		r := App("uf$"+n, so, ts...)
		if t != nil && !r.hasB {
			for _, l := range leavesOf(t) {
				typeFacts(r, l)
			}
		} else if t != nil {
			if ii, ok := intOf(t); ok && !bvMode {
				rangeLo[r], rangeHi[r] = ii.min(), ii.max()
			}
		}
		return SV{r, t}
	}
	if g, ok := x.w.specs.Ghosts[n]; ok {
		if len(e.Args) == 1 {
			return c.ghostRead(g, I(1))
		}
		a := c.eval(e.Args[1])
		var k *Term
		switch v := a.v.(type) {
		case *Term:
			k = v
		case *FuncV:
			k = v.term()
		case *PtrV:
			k = v.asTerm()
		default:
			serr("%s: ghost key %T", e.Pos, a.v)
		}
		_, ks, _, _ := c.ghostKey(g)
		if ks == SIface && k.sort != SIface && a.t != nil {
			k = x.mkIface(c.st, a.t, k).(*Term)
		}
		if ks != k.sort {
			serr("%s: ghost %s key sort %s", e.Pos, n, k.sort.name)
		}
		return c.ghostRead(g, k)
	}
	serr("%s: unknown function %s", e.Pos, n)
	return SV{}
}

func seqEq(arr, off, cnt, sq *Term) *Term {
	if cnt.isInt() && cnt.val.Int64() <= 32 {
		var cs []*Term
		for k := int64(0); k < cnt.val.Int64(); k++ {
			cs = append(cs, Eq(Select(arr, Add(off, I(k))), SeqAt(sq, I(k))))
		}
		return And(cs...)
	}
	k := BoundVar("k", SInt)
	return Forall([]*Term{k}, Implies(And(Le(I(0), k), Lt(k, cnt)), Eq(Select(arr, Add(off, k)), SeqAt(sq, k))))
}

func (c *evalCtx) sameMap(e *Expr, except *Term) *Term {
	x := c.x
	nv := c.eval(e)
	ov := c.inState(c.old, func(d *evalCtx) SV { return d.eval(e) })
	mt := under(nv.t).(*types.Map)
	nm, om := nv.v.(*Term), ov.v.(*Term)
	_, _, vk, ks := mapKeys(mt)
	var dn, do *Term
	dn = x.mapDom(c.st, mt, nm)
	do = x.mapDom(c.old, mt, om)
	cs := []*Term{}
	k := Fresh("anykey", ks)
	k = BoundVar("k", ks)
	g := True
	if except != nil {
		g = Ne(k, except)
	} else {
		cs = append(cs, Eq(x.mapCard(c.st, mt, nm), x.mapCard(c.old, mt, om)))
	}
	if dn != do {
		cs = append(cs, Forall([]*Term{k}, Implies(g, Eq(Select(dn, k), Select(do, k)))))
	}
	for _, l := range leavesOf(mt.Elem()) {
		a := Select(c.st.h(vk+l.suf, SArr(SInt, SArr(ks, l.sort))), nm)
		b := Select(c.old.h(vk+l.suf, SArr(SInt, SArr(ks, l.sort))), om)
		if a != b {
			cs = append(cs, Forall([]*Term{k}, Implies(And(g, Select(do, k)), Eq(Select(a, k), Select(b, k)))))
		}
	}
	return And(cs...)
}

func typeText(e *Expr) string {
	switch e.Op {
	case "ident":
		return e.Name
	case "sel":
		return typeText(e.Args[0]) + "." + e.Name
	case "str":
		s, _ := strconv.Unquote(e.Name)
		return s
	}
	return ""
}

func (c *evalCtx) invOf(v SV, e *Expr) *Term {
	t := v.t
	if pt, ok := under(t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		serr("%s: inv of %s", e.Pos, v.t)
	}
	d, ok := c.x.w.specs.Invs[n.Obj().Name()]
	if !ok {
		serr("%s: no invariant for %s", e.Pos, n.Obj().Name())
	}
	var cs []*Term
	dd := *c
	dd.env = map[string]SV{d.Var: v}
	dd.pkg = d.Pkg
	for _, cl := range d.Clauses {
		if cl.active(c.x.prop) {
			cs = append(cs, dd.boolean(cl.E))
		}
	}
	return And(cs...)
}

// findField locates a (possibly promoted) field; unknown unexported names fall back to
// the field of the recorded type (see `set field`), so that a pure rename is tolerated.
func (w *World) findField(t types.Type, name string) []int {
	base := t
	if pt, ok := under(t).(*types.Pointer); ok {
		base = pt.Elem()
	}
	n, _ := types.Unalias(base).(*types.Named)
	var pkg *types.Package
	if n != nil {
		pkg = n.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(base, true, pkg, name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return path
	}
	// breadth-first search for a renamed field
	type cand struct {
		t    types.Type
		path []int
	}
	q := []cand{{base, nil}}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		cn, s, ok := isNamedStruct(c.t)
		if !ok {
			continue
		}
		for _, l := range w.specs.Lists["field"] {
			// set field Type name type-text
			if len(l) == 3 && l[0] == cn.Obj().Name() && l[1] == name {
				known := map[string]bool{}
				for _, m := range w.specs.Lists["field"] {
					if m[0] == l[0] {
						known[m[1]] = true
					}
				}
				var hits []int
				for i := 0; i < s.NumFields(); i++ {
					if typeKey(s.Field(i).Type()) == l[2] && !known[s.Field(i).Name()] {
						hits = append(hits, i)
					}
				}
				if len(hits) == 1 {
					return append(append([]int{}, c.path...), hits[0])
				}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				ft := s.Field(i).Type()
				if pt, ok := under(ft).(*types.Pointer); ok {
					ft = pt.Elem()
				}
				q = append(q, cand{ft, append(append([]int{}, c.path...), i)})
			}
		}
	}
	return nil
}
