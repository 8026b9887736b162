package main

import (
	"fmt"
	"go/types"
	"math/big"
)

var heapSorts = map[string]*Sort{}

func (st *State) h(key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := Sym("H0$"+key, s)
	st.heap[key] = t
	heapSorts[key] = s
	return t
}
func (st *State) seth(key string, t *Term) {
	st.heap[key] = t
	if heapSorts[key] == nil {
		heapSorts[key] = t.sort
	}
}

// event hook (guards, footprints)
type access struct {
	key   string
	ref   *Term
	idx   *Term
	write bool
}

func (x *Exec) event(st *State, a access) {
	if x.onAccess != nil && x.quiet == 0 {
		x.onAccess(st, a)
	}
}

func (x *Exec) noteLoaded(st *State, t *Term, l leaf) *Term {
	if t.isConst() || t.hasB {
		return t
	}
	if t.op == "ite" {
		x.noteLoaded(st, t.args[1], l)
		x.noteLoaded(st, t.args[2], l)
		if l.sort == SInt && l.typ != nil {
			return t
		}
		return t
	}
	if t.op != "select" && t.op != "sym" && t.op != "dsel" && t.op != "app" {
		return t
	}
	typeFacts(t, l)
	if isRefLeaf(l) && t.op != "sym" {
		if _, ok := refBound[t]; !ok {
			refBound[t] = st.next
		}
		st.assume(Lt(t, st.next))
	}
	return t
}

// ---- struct fields

func ownerKey(n types.Type) string { return "F:" + typeKey(n) }

func (x *Exec) loadField(st *State, key string, ref *Term, t types.Type) Val {
	x.event(st, access{key, ref, nil, false})
	x.heapRead(st, key)
	var ts []*Term
	for _, l := range leavesOf(t) {
		m := st.h(key+l.suf, SArr(SInt, l.sort))
		ts = append(ts, x.noteLoaded(st, Select(m, ref), l))
	}
	v, _ := pack(t, ts)
	if s, ok := v.(*SliceV); ok {
		if s.arr.op != "const" {
			assumeSlice(st, s)
		}
	}
	return v
}

func (x *Exec) storeField(st *State, key string, ref *Term, t types.Type, v Val) {
	x.event(st, access{key, ref, nil, true})
	ts := flatten(t, v)
	for i, l := range leavesOf(t) {
		k := key + l.suf
		m := st.h(k, SArr(SInt, l.sort))
		st.seth(k, Store(m, ref, ts[i]))
	}
}

// ---- elements

func elemKey(t types.Type) string { return "E:" + typeKey(under2(t)) }

// under2 canonicalises byte/uint8
func under2(t types.Type) types.Type {
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Uint8 {
		return types.Typ[types.Uint8]
	}
	return t
}

func (x *Exec) loadElem(st *State, key string, arr, idx *Term, t types.Type) Val {
	x.event(st, access{key, arr, idx, false})
	var ts []*Term
	for _, l := range leavesOf(t) {
		m := st.h(key+l.suf, SArr(SInt, SArr(SInt, l.sort)))
		ts = append(ts, x.noteLoaded(st, Select(Select(m, arr), idx), l))
	}
	v, _ := pack(t, ts)
	return v
}
func (x *Exec) storeElem(st *State, key string, arr, idx *Term, t types.Type, v Val) {
	x.event(st, access{key, arr, idx, true})
	ts := flatten(t, v)
	for i, l := range leavesOf(t) {
		k := key + l.suf
		m := st.h(k, SArr(SInt, SArr(SInt, l.sort)))
		st.seth(k, Store(m, arr, Store(Select(m, arr), idx, ts[i])))
	}
}

// ---- maps

func mapKeys(mt *types.Map) (dom, card, val string, ks *Sort) {
	n := typeKey(mt)
	return "MD:" + n, "MC:" + n, "MV:" + n, scalarSort(mt.Key())
}

func (x *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	d, _, _, ks := mapKeys(mt)
	if ks == nil {
		unsup("map key type %s", mt.Key())
	}
	return Select(st.h(d, SArr(SInt, SArr(ks, SBool))), m)
}
func (x *Exec) mapCard(st *State, mt *types.Map, m *Term) *Term {
	_, c, _, _ := mapKeys(mt)
	t := Select(st.h(c, SArr(SInt, SInt)), m)
	if !t.isConst() && t.op == "select" {
		if t.hasB {
			rangeLo[t], rangeHi[t] = new(big.Int), big.NewInt(1<<42)
		} else {
			setRange(t, new(big.Int), big.NewInt(1<<42))
		}
	}
	if x.cards == nil {
		x.cards = map[*Term]*Term{}
	}
	x.cards[t] = x.mapDom(st, mt, m)
	return t
}

// cardFacts: two finite sets with the same members have the same size, and a
// subset of the same size is the whole set
func (x *Exec) cardFacts(st *State, a, b *Term) {
	strip := func(t *Term) (*Term, *Term) {
		nilm := False
		if t.op == "ite" && t.args[1].isInt() {
			nilm, t = t.args[0], t.args[2]
		}
		d := x.cards[t]
		if d != nil {
			d = Ite(nilm, ConstArr(d.sort, False), d)
		}
		return t, d
	}
	ra, rb := a, b
	a, da := strip(a)
	b, db := strip(b)
	if da == nil || db == nil || da == db || da.sort != db.sort {
		return
	}
	a, b = ra, rb
	k := BoundVar("k", da.sort.k)
	in := func(d *Term) *Term { return mk("select", SBool, "", nil, d, k) }
	st.assume(Implies(Forall([]*Term{k}, Eq(in(da), in(db))), Eq(a, b)))
	for i := 0; i < 2; i++ {
		st.assume(Implies(And(Eq(a, b), Forall([]*Term{k}, Implies(in(da), in(db)))), Forall([]*Term{k}, Eq(in(da), in(db)))))
		da, db = db, da
	}
}

// mapFacts relates emptiness and cardinality for a map
func (x *Exec) mapFacts(st *State, mt *types.Map, m *Term, k *Term) {
	dom := x.mapDom(st, mt, m)
	card := x.mapCard(st, mt, m)
	in := Select(dom, k)
	if in != False {
		st.assume(Implies(in, Le(I(1), card)))
	}
	st.assume(Implies(Eq(m, I(0)), Eq(card, I(0))))
	st.assume(Implies(Eq(m, I(0)), Not(in)))
}
func (x *Exec) mapLookup(st *State, mt *types.Map, m, k *Term) (Val, *Term) {
	d, _, v, ks := mapKeys(mt)
	x.event(st, access{d, m, k, false})
	x.mapFacts(st, mt, m, k)
	in := And(Ne(m, I(0)), Select(x.mapDom(st, mt, m), k))
	var ts []*Term
	for _, l := range leavesOf(mt.Elem()) {
		h := st.h(v+l.suf, SArr(SInt, SArr(ks, l.sort)))
		ts = append(ts, x.noteLoaded(st, Select(Select(h, m), k), l))
	}
	val, _ := pack(mt.Elem(), ts)
	return val, in
}
func (x *Exec) mapStore(st *State, mt *types.Map, m, k *Term, v Val) {
	d, c, vk, ks := mapKeys(mt)
	x.event(st, access{d, m, k, true})
	dom := x.mapDom(st, mt, m)
	card := x.mapCard(st, mt, m)
	in := Select(dom, k)
	dh := st.h(d, SArr(SInt, SArr(ks, SBool)))
	st.seth(d, Store(dh, m, Store(dom, k, True)))
	ch := st.h(c, SArr(SInt, SInt))
	st.seth(c, Store(ch, m, Ite(in, card, Add(card, I(1)))))
	ts := flatten(mt.Elem(), v)
	for i, l := range leavesOf(mt.Elem()) {
		h := st.h(vk+l.suf, SArr(SInt, SArr(ks, l.sort)))
		st.seth(vk+l.suf, Store(h, m, Store(Select(h, m), k, ts[i])))
	}
	x.noteMapInsert(st, mt, m, k, dom, in)
}
func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	d, c, _, ks := mapKeys(mt)
	x.event(st, access{d, m, k, true})
	dom := x.mapDom(st, mt, m)
	card := x.mapCard(st, mt, m)
	in := Select(dom, k)
	st.seth(d, Store(st.h(d, SArr(SInt, SArr(ks, SBool))), m, Store(dom, k, False)))
	st.seth(c, Store(st.h(c, SArr(SInt, SInt)), m, Ite(in, Sub(card, I(1)), card)))
}
func (x *Exec) newMap(st *State, mt *types.Map) *Term {
	d, c, _, ks := mapKeys(mt)
	r := st.alloc()
	if ks == nil {
		unsup("map key type %s", mt.Key())
	}
	st.seth(d, Store(st.h(d, SArr(SInt, SArr(ks, SBool))), r, ConstArr(SArr(ks, SBool), False)))
	st.seth(c, Store(st.h(c, SArr(SInt, SInt)), r, I(0)))
	x.noteMapNew(st, mt, r)
	return r
}

func (st *State) alloc() *Term {
	r := st.next
	st.next = Add(st.next, I(1))
	return r
}

var cellCount int

func (st *State) newCell(v Val) int {
	cellCount++
	st.cells[cellCount] = v
	return cellCount
}

// ---- pointers

func (x *Exec) zeroAt(st *State, t types.Type, ref *Term) {
	n, s, ok := isNamedStruct(t)
	if !ok {
		unsup("zeroAt %s", t)
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if at, ok := under(f.Type()).(*types.Array); ok && scalarSort(f.Type()) == nil {
			_ = at
			continue
		}
		x.storeField(st, ownerKey(n)+"."+f.Name(), ref, f.Type(), zeroVal(f.Type()))
	}
}

// newStruct allocates a heap struct
func (x *Exec) newStruct(st *State, t types.Type) *Term {
	r := st.alloc()
	x.quiet++
	x.zeroAt(st, t, r)
	x.quiet--
	return r
}

// fieldPtr returns a pointer to field i of the struct pointed to by p
func (x *Exec) fieldPtr(st *State, p Val, structT types.Type, i int) Val {
	s := under(structT).(*types.Struct)
	f := s.Field(i)
	switch b := p.(type) {
	case *Term:
		if x.w.isOverlay(structT) {
			off := x.w.offsetOf(s, i)
			return &PtrV{kind: "ovl", ref: ovlProj("ovlArr", b), idx: Add(ovlProj("ovlIdx", b), I(off)), typ: f.Type()}
		}
		if c, ok := ptrIDs[b]; ok {
			return x.fieldPtr(st, c, structT, i)
		}
		return &PtrV{kind: "field", key: ownerKey(types.Unalias(structT)) + "." + f.Name(), ref: b, typ: f.Type()}
	case *PtrV:
		switch b.kind {
		case "field", "elem":
			q := *b
			q.key = b.key + "." + f.Name()
			q.typ = f.Type()
			return &q
		case "cell":
			q := *b
			q.path = append(append([]int{}, b.path...), i)
			q.typ = f.Type()
			return &q
		case "ovl":
			q := *b
			q.idx = Add(b.idx, I(x.w.offsetOf(s, i)))
			q.typ = f.Type()
			return &q
		case "arr":
		}
	}
	unsup("field address of %T", p)
	return nil
}

func cellGet(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(*StructV)
		if !ok {
			unsup("cell path into %T", v)
		}
		v = s.f[i]
	}
	return v
}
func cellSet(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	s, ok := v.(*StructV)
	if !ok {
		unsup("cell path into %T", v)
	}
	c := &StructV{f: append([]Val{}, s.f...)}
	c.f[path[0]] = cellSet(s.f[path[0]], path[1:], n)
	return c
}

// load reads *p where p has type *t
func (x *Exec) load(st *State, p Val, t types.Type) Val {
	switch b := p.(type) {
	case *Term:
		if c, ok := ptrIDs[b]; ok {
			return x.load(st, c, t)
		}
		if b.op == "ite" {
			a, c := x.load(st, b.args[1], t), x.load(st, b.args[2], t)
			return iteVal(t, b.args[0], a, c)
		}
		if n, s, ok := isNamedStruct(t); ok {
			if x.w.isOverlay(t) {
				return x.decode(st, ovlProj("ovlArr", b), ovlProj("ovlIdx", b), t)
			}
			sv := &StructV{}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				sv.f = append(sv.f, x.loadField(st, ownerKey(n)+"."+f.Name(), b, f.Type()))
			}
			return sv
		}
		// pointer to a non-struct stored as a plain reference: boxed cell heap
		return x.loadField(st, "B:"+typeKey(t), b, t)
	case *PtrV:
		switch b.kind {
		case "field":
			return x.loadField(st, b.key, b.ref, t)
		case "elem":
			return x.loadElem(st, b.key, b.ref, b.idx, t)
		case "cell":
			v, ok := st.cells[b.cell]
			if !ok {
				unsup("dangling cell")
			}
			x.event(st, access{fmt.Sprintf("C:%d", b.cell), I(0), nil, false})
			x.cellAccess(st, b.cell, false, "read of a shared variable")
			return cellGet(v, b.path)
		case "ovl":
			return x.decode(st, b.ref, b.idx, t)
		case "arr":
			at := under(t).(*types.Array)
			if s := scalarSort(at.Elem()); s != nil {
				m := Select(st.h(elemKey(at.Elem()), SArr(SInt, SArr(SInt, s))), b.ref)
				return ShiftArr(m, b.idx)
			}
		case "global":
			return x.loadField(st, b.key, I(1), t)
		}
	}
	unsup("load through %T", p)
	return nil
}

func (x *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch b := p.(type) {
	case *Term:
		if c, ok := ptrIDs[b]; ok {
			x.store(st, c, t, v)
			return
		}
		if n, s, ok := isNamedStruct(t); ok {
			if x.w.isOverlay(t) {
				unsup("store through overlay")
			}
			sv := v.(*StructV)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				x.storeField(st, ownerKey(n)+"."+f.Name(), b, f.Type(), sv.f[i])
			}
			return
		}
		x.storeField(st, "B:"+typeKey(t), b, t, v)
		return
	case *PtrV:
		switch b.kind {
		case "field":
			x.storeField(st, b.key, b.ref, t, v)
			return
		case "elem":
			x.storeElem(st, b.key, b.ref, b.idx, t, v)
			return
		case "cell":
			x.event(st, access{fmt.Sprintf("C:%d", b.cell), I(0), nil, true})
			x.cellAccess(st, b.cell, true, "write of a shared variable")
			st.cells[b.cell] = cellSet(st.cells[b.cell], b.path, v)
			return
		case "global":
			x.storeField(st, b.key, I(1), t, v)
			return
		case "arr":
			at := under(t).(*types.Array)
			if s := scalarSort(at.Elem()); s != nil {
				if tv, ok := v.(*Term); ok {
					k := elemKey(at.Elem())
					m := st.h(k, SArr(SInt, SArr(SInt, s)))
					st.seth(k, Store(m, b.ref, Blit(Select(m, b.ref), b.idx, I(at.Len()), SeqSub(tv, I(0)))))
					return
				}
			}
		}
	}
	unsup("store through %T", p)
}

// ShiftArr is the array i -> a[off+i]
func ShiftArr(a, off *Term) *Term {
	if off.isInt() && off.val.Sign() == 0 {
		return a
	}
	if a.op == "constarr" {
		return a
	}
	return mk("shiftarr", a.sort, "", nil, a, off)
}

// HSplit agrees with a below the frontier and with b from it on
func HSplit(a, b, frontier *Term) *Term { return mk("hsplit", a.sort, "", nil, a, b, frontier) }

// decode reads a value of type t from bytes arr[idx...]
func (x *Exec) decode(st *State, arr, idx *Term, t types.Type) Val {
	x.event(st, access{"E:uint8", arr, idx, false})
	bytes := Select(st.h("E:uint8", SArr(SInt, SArr(SInt, SInt))), arr)
	get := func(k int64) *Term {
		b := Select(bytes, Add(idx, I(k)))
		return x.noteLoaded(st, b, leaf{"", SInt, types.Typ[types.Uint8], ""})
	}
	if ii, ok := intOf(t); ok {
		n := ii.bits / 8
		// canonical: uninterpreted little-endian read, unless bytes are syntactically known
		var bs []*Term
		for k := 0; k < n; k++ {
			bs = append(bs, get(int64(k)))
		}
		return decodeInt(bs, ii)
	}
	if w, ok := isFloat(t); ok {
		var bs []*Term
		for k := 0; k < w/8; k++ {
			bs = append(bs, get(int64(k)))
		}
		return floatFromBits(decodeInt(bs, intInfo{w, false}), w)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.decode(st, arr, Add(idx, I(x.w.offsetOf(u, i))), u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if _, ok := intOf(u.Elem()); ok && x.w.sizeOf(u.Elem()) == 1 {
			return ShiftArr(bytes, idx)
		}
	}
	unsup("decode %s", t)
	return nil
}

func decodeInt(bs []*Term, ii intInfo) *Term {
	u := LEDecode(bs)
	if !ii.signed {
		return u
	}
	return wrapTo(u, ii)
}

func floatFromBits(b *Term, w int) *Term {
	if b.op == "app" && b.name == fmt.Sprintf("f%dbits", w) {
		return b.args[0]
	}
	s := SF64
	if w == 32 {
		s = SF32
	}
	if bvMode {
		if w == 32 {
			return mk("(_ to_fp 8 24)", s, "", nil, b)
		}
		return mk("(_ to_fp 11 53)", s, "", nil, b)
	}
	return App(fmt.Sprintf("f%dfrombits", w), s, b)
}
func floatBits(f *Term, w int) *Term {
	if f.op == "app" && f.name == fmt.Sprintf("f%dfrombits", w) {
		return f.args[0]
	}
	t := App(fmt.Sprintf("f%dbits", w), SInt, f)
	setRange(t, new(big.Int), new(big.Int).Sub(pow2(w), big.NewInt(1)))
	if !t.hasB {
		addFact(t, Eq(App(fmt.Sprintf("f%dfrombits", w), f.sort, t), f))
	}
	return t
}

// wrapTo reduces a mathematical integer to a machine type
func wrapTo(t *Term, ii intInfo) *Term {
	lo, hi := interval(t, 0)
	if lo != nil && hi != nil && lo.Cmp(ii.min()) >= 0 && hi.Cmp(ii.max()) <= 0 {
		return t
	}
	if !ii.signed {
		return Mod(t, IB(pow2(ii.bits)))
	}
	half := pow2(ii.bits - 1)
	// strip inner reductions
	t = stripWrap(t, ii.bits)
	lo, hi = interval(t, 0)
	if lo != nil && hi != nil && lo.Cmp(ii.min()) >= 0 && hi.Cmp(ii.max()) <= 0 {
		return t
	}
	return Sub(Mod(Add(t, IB(half)), IB(pow2(ii.bits))), IB(half))
}

func iteVal(t types.Type, c *Term, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	fa, fb := flatten(t, a), flatten(t, b)
	var out []*Term
	for i := range fa {
		out = append(out, Ite(c, fa[i], fb[i]))
	}
	v, _ := pack(t, out)
	return v
}
