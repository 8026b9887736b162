package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Val interface{}

type SliceV struct {
	arr, off, len, cap *Term
	elem               types.Type
}
type StructV struct {
	f []Val
}
type TupleV []Val

// PtrV is a pointer that is not a plain reference term.
type PtrV struct {
	kind string // cell, field, elem, global
	cell int
	path []int // struct/array path inside the cell
	key  string
	ref  *Term // field: owner ref; elem: array ref
	idx  *Term // elem index
	typ  types.Type
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	recv Val // bound receiver for method values
	id   *Term
}
type IterV struct {
	id   int // cell id of the iterator state
	m    *Term
	kt   types.Type
	vt   types.Type
	mt   *types.Map
	str  *Term
	isst bool
}

// IterState lives in cells
type IterState struct {
	visited *Term
	count   *Term
	dom0    *Term
}

// WG / chan ghost state live in cells too
type ChanV struct{ id int }

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type State struct {
	heap  map[string]*Term
	cells map[int]Val
	pc    *pcNode
	next  *Term
	gh    map[string]Val // executor-level ghost values (locks, tasks ...)
	dead  bool
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), cells: make(map[int]Val, len(s.cells)), pc: s.pc, next: s.next, gh: make(map[string]Val, len(s.gh)), dead: s.dead}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.gh {
		n.gh[k] = v
	}
	return n
}

func (s *State) assume(t *Term) {
	if t == True || t.hasB {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t == False {
		s.dead = true
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
		for p := s.pc; p != nil; p = p.prev {
			if p.t == t {
				return
			}
			if p.t == Not(t) {
				s.dead = true
			}
		}
	}
	s.pc = &pcNode{t, s.pc, n + 1}
}
func (s *State) pcList() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}
func (s *State) knows(t *Term) bool {
	if t == True {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !s.knows(a) {
				return false
			}
		}
		return true
	}
	for p := s.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
		if t.op == "or" && p.t.op != "or" {
			for _, a := range t.args {
				if a == p.t {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- Go types to sorts

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

type intInfo struct {
	bits   int
	signed bool
}

func intOf(t types.Type) (intInfo, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return intInfo{64, true}, true
	case types.Int32:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}
func (ii intInfo) min() *big.Int {
	if ii.signed {
		return new(big.Int).Neg(pow2(ii.bits - 1))
	}
	return new(big.Int)
}
func (ii intInfo) max() *big.Int {
	if ii.signed {
		return new(big.Int).Sub(pow2(ii.bits-1), big.NewInt(1))
	}
	return new(big.Int).Sub(pow2(ii.bits), big.NewInt(1))
}

func isFloat(t types.Type) (int, bool) {
	if b, ok := under(t).(*types.Basic); ok {
		switch b.Kind() {
		case types.Float64, types.UntypedFloat:
			return 64, true
		case types.Float32:
			return 32, true
		}
	}
	return 0, false
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// leaf is one flattened component of a Go type
type leaf struct {
	suf  string
	sort *Sort
	typ  types.Type
	role string // "", "ref", "len" ...
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func scalarSort(t types.Type) *Sort {
	if ii, ok := intOf(t); ok {
		if bvMode {
			return SBV(ii.bits)
		}
		return SInt
	}
	if w, ok := isFloat(t); ok {
		if w == 64 {
			return SF64
		}
		return SF32
	}
	if isString(t) {
		return SStr
	}
	if isBool(t) {
		return SBool
	}
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SIface
	case *types.Array:
		if s := scalarSort(u.Elem()); s != nil {
			return SArr(SInt, s)
		}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return SInt
		}
		if u.Kind() == types.UntypedNil {
			return SInt
		}
	}
	return nil
}

func leavesOf(t types.Type) []leaf {
	if s := scalarSort(t); s != nil {
		return []leaf{{"", s, t, ""}}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return []leaf{{".arr", SInt, t, "ref"}, {".off", SInt, t, "len"}, {".len", SInt, t, "len"}, {".cap", SInt, t, "len"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.suf, l.sort, l.typ, l.role})
			}
		}
		return out
	}
	unsup("type %s has no flattened representation", t)
	return nil
}

// pack builds a Val of type t from leaf terms
func pack(t types.Type, ls []*Term) (Val, []*Term) {
	if scalarSort(t) != nil {
		return ls[0], ls[1:]
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return &SliceV{ls[0], ls[1], ls[2], ls[3], u.Elem()}, ls[4:]
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ls = pack(u.Field(i).Type(), ls)
			sv.f = append(sv.f, v)
		}
		return sv, ls
	}
	unsup("pack %s", t)
	return nil, nil
}

// funcIDs maps closure id terms to concrete closures
var funcIDs = map[*Term]*FuncV{}

func (f *FuncV) term() *Term {
	if f.id == nil {
		if f.fn == nil {
			return I(0)
		}
		if len(f.bind) == 0 && f.recv == nil {
			f.id = Sym("fn$"+f.fn.String(), SInt)
		} else {
			f.id = Fresh("closure$"+f.fn.Name(), SInt)
		}
		addFact(f.id, Gt(f.id, I(0)))
		funcIDs[f.id] = f
	}
	return f.id
}

func flatten(t types.Type, v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.arr, x.off, x.len, x.cap}
	case *StructV:
		u := under(t).(*types.Struct)
		var out []*Term
		for i, f := range x.f {
			out = append(out, flatten(u.Field(i).Type(), f)...)
		}
		return out
	case *FuncV:
		return []*Term{x.term()}
	case *PtrV:
		return []*Term{x.asTerm()}
	}
	unsup("flatten %T of type %s", v, t)
	return nil
}

// pointers that escape into term positions
var ptrIDs = map[*Term]*PtrV{}
var ptrTerms = map[string]*Term{}

func (p *PtrV) ident() string {
	r, i := 0, 0
	if p.ref != nil {
		r = p.ref.id
	}
	if p.idx != nil {
		i = p.idx.id
	}
	return fmt.Sprintf("%s/%d/%v/%s/%d/%d", p.kind, p.cell, p.path, p.key, r, i)
}

func (p *PtrV) asTerm() *Term {
	k := p.ident()
	if t, ok := ptrTerms[k]; ok {
		return t
	}
	t := Fresh("ptr$"+p.kind, SInt)
	addFact(t, Gt(t, I(0)))
	ptrTerms[k] = t
	ptrIDs[t] = p
	return t
}

func zeroTerm(l leaf) *Term {
	switch {
	case l.sort == SInt:
		return I(0)
	case l.sort == SBool:
		return False
	case l.sort == SStr:
		return StrLit("")
	case l.sort == SIface:
		return INil
	case l.sort == SF64:
		return F64c(0)
	case l.sort == SF32:
		return F32c(0)
	case l.sort.bv > 0:
		return BVc(new(big.Int), l.sort.bv)
	case l.sort.k != nil:
		return ConstArr(l.sort, zeroTerm(leaf{"", l.sort.v, nil, ""}))
	}
	unsup("zero of sort %s", l.sort.name)
	return nil
}

func zeroVal(t types.Type) Val {
	if _, ok := under(t).(*types.Tuple); ok {
		unsup("zero of tuple")
	}
	if scalarSort(t) == nil {
		if u, ok := under(t).(*types.Struct); ok {
			sv := &StructV{}
			for i := 0; i < u.NumFields(); i++ {
				sv.f = append(sv.f, zeroVal(u.Field(i).Type()))
			}
			return sv
		}
		if u, ok := under(t).(*types.Slice); ok {
			return &SliceV{I(0), I(0), I(0), I(0), u.Elem()}
		}
		unsup("zero value of %s", t)
	}
	return zeroTerm(leavesOf(t)[0])
}

// rangeTerm attaches machine-type facts to a term
func typeFacts(t *Term, l leaf) {
	if t.isConst() {
		return
	}
	if l.role == "len" {
		if bvMode {
			return
		}
		setRange(t, new(big.Int), maxI64)
		return
	}
	if l.role == "ref" {
		addFact(t, rawLe0(t))
		return
	}
	if l.sort == SInt && l.typ != nil {
		if ii, ok := intOf(l.typ); ok {
			setRange(t, ii.min(), ii.max())
			return
		}
		addFact(t, rawLe0(t))
	}
	if l.sort.k == SInt && l.sort.v == SInt && l.typ != nil {
		// array of machine ints: facts added on select
	}
}
func rawLe0(t *Term) *Term { return mk("<=", SBool, "", nil, I(0), t) }

func freshLeaf(hint string, l leaf) *Term {
	t := Fresh(hint+l.suf, l.sort)
	typeFacts(t, l)
	return t
}

func freshVal(hint string, t types.Type, st *State) Val {
	if tt, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, freshVal(hint, tt.At(i).Type(), st))
		}
		return tv
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		x := freshLeaf(hint, l)
		if isRefLeaf(l) && st != nil {
			refBound[x] = st.next
			st.assume(Lt(x, st.next))
		}
		ts = append(ts, x)
	}
	v, _ := pack(t, ts)
	if s, ok := v.(*SliceV); ok && st != nil {
		assumeSlice(st, s)
	}
	return v
}

func assumeSlice(st *State, s *SliceV) {
	if bvMode {
		return
	}
	st.assume(Le(s.len, s.cap))
	st.assume(Le(Add(s.off, s.cap), IB(maxI64)))
	st.assume(Implies(Eq(s.arr, I(0)), Eq(s.cap, I(0))))
}

func isRefLeaf(l leaf) bool {
	if l.role == "ref" {
		return true
	}
	if l.sort != SInt || l.typ == nil {
		return false
	}
	switch under(l.typ).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

// refBound[t] = f means the reference t was allocated before frontier f
var refBound = map[*Term]*Term{}

func init() {
	distinctHook = func(a, b *Term) bool {
		chk := func(fresh, old *Term) bool {
			bd, ok := refBound[old]
			if !ok {
				return false
			}
			d := Sub(fresh, bd)
			lo, _ := interval(d, 0)
			return lo != nil && lo.Sign() >= 0
		}
		return chk(a, b) || chk(b, a)
	}
}

var distinctHook func(a, b *Term) bool

// ---------------------------------------------------------------- names

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func tagOf(t types.Type) *Term {
	t = types.Unalias(t)
	k := types.TypeString(t, nil)
	n, ok := typeTags[k]
	if !ok {
		n = int64(len(typeTags) + 1)
		typeTags[k] = n
		tagTypes[n] = t
	}
	return I(n)
}

func isNamedStruct(t types.Type) (*types.Named, *types.Struct, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, nil, false
	}
	s, ok := n.Underlying().(*types.Struct)
	return n, s, ok
}

func shortName(n string) string {
	if k := strings.LastIndex(n, "/"); k >= 0 {
		return n[k+1:]
	}
	return n
}
