package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort. Sorts are interned; compare by pointer.
type Sort struct {
	name string // SMT name
	k, v *Sort  // for arrays
	bv   int    // for bit vectors
}

var sortTab = map[string]*Sort{}

func mkSort(n string) *Sort {
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{name: n}
	sortTab[n] = s
	return s
}

var (
	SBool  = mkSort("Bool")
	SInt   = mkSort("Int")
	SStr   = mkSort("Str")
	SIface = mkSort("Iface")
	SF32   = mkSort("Float32")
	SF64   = mkSort("Float64")
	SSeq   = mkSort("BSeq")
)

func SBV(n int) *Sort {
	s := mkSort(fmt.Sprintf("(_ BitVec %d)", n))
	s.bv = n
	return s
}
func SArr(k, v *Sort) *Sort {
	s := mkSort("(Array " + k.name + " " + v.name + ")")
	s.k, s.v = k, v
	return s
}

// Term is a hash-consed SMT term.
type Term struct {
	op   string // "const" (value), "sym" (declared symbol), "var" (bound), "app:<f>" (uninterpreted), or an SMT op
	sort *Sort
	args []*Term
	name string
	val  *big.Int
	id   int
	hasQ bool // contains a quantifier
	hasB bool // contains a bound variable
}

var termTab = map[string]*Term{}
var termCount int

func (t *Term) String() string { return smtStr(t) }

func mk(op string, s *Sort, name string, val *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.name)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	if val != nil {
		b.WriteString(val.String())
	}
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	key := b.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, sort: s, args: args, name: name, val: val, id: termCount}
	t.hasQ = op == "forall" || op == "exists"
	t.hasB = op == "var"
	for _, a := range args {
		t.hasQ = t.hasQ || a.hasQ
		t.hasB = t.hasB || a.hasB
	}
	termTab[key] = t
	return t
}

var symCount = map[string]int{}

// Fresh makes a new uninterpreted constant.
func Fresh(hint string, s *Sort) *Term {
	hint = sanitize(hint)
	symCount[hint]++
	return mk("sym", s, fmt.Sprintf("%s!%d", hint, symCount[hint]), nil)
}

// Sym is a named uninterpreted constant.
func Sym(name string, s *Sort) *Term { return mk("sym", s, sanitize(name), nil) }

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

var (
	True  = mk("const", SBool, "true", nil)
	False = mk("const", SBool, "false", nil)
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func I(n int64) *Term     { return mk("const", SInt, "", big.NewInt(n)) }
func IB(n *big.Int) *Term { return mk("const", SInt, "", n) }
func BVc(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return mk("const", SBV(w), "", v)
}
func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isInt() bool   { return t.op == "const" && t.sort == SInt }

// ---------------------------------------------------------------- strings

var strLits = map[string]*Term{}
var strLitOrder []string

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mk("const", SStr, fmt.Sprintf("str!%d", len(strLitOrder)), nil)
	strLits[s] = t
	strLitOrder = append(strLitOrder, s)
	return t
}
func litOf(t *Term) (string, bool) {
	if t.op == "const" && t.sort == SStr {
		for s, x := range strLits {
			if x == t {
				return s, true
			}
		}
	}
	return "", false
}

// Slen is the byte length of a string term
func Slen(s *Term) *Term {
	if l, ok := litOf(s); ok {
		return I(int64(len(l)))
	}
	if s.op == "ite" {
		return Ite(s.args[0], Slen(s.args[1]), Slen(s.args[2]))
	}
	if s.op == "app" && s.name == "sconcat" {
		return Add(Slen(s.args[0]), Slen(s.args[1]))
	}
	t := App("slen", SInt, s)
	if !t.hasB {
		setRange(t, new(big.Int), maxI64)
	}
	addFact(t, Eq(Eq(t, I(0)), Eq(s, StrLit(""))))
	return t
}

// Sbyte is byte k of a string
func Sbyte(s, k *Term) *Term {
	if l, ok := litOf(s); ok && k.isInt() {
		if k.val.IsInt64() {
			i := k.val.Int64()
			if i >= 0 && i < int64(len(l)) {
				return I(int64(l[i]))
			}
		}
	}
	t := App("sbyte", SInt, s, k)
	if !t.hasB {
		addFact(t, And(Le(I(0), t), Le(t, I(255))))
		if l, ok := litOf(s); ok && len(l) < 16 {
			for i := 0; i < len(l); i++ {
				addFact(t, Implies(Eq(k, I(int64(i))), Eq(t, I(int64(l[i])))))
			}
		}
		if s.op == "app" && s.name == "sconcat" {
			a, b := s.args[0], s.args[1]
			la := Slen(a)
			addFact(t, Eq(t, Ite(Lt(k, la), Sbyte(a, k), Sbyte(b, Sub(k, la)))))
		}
		if s.op == "ite" {
			addFact(t, Eq(t, Ite(s.args[0], Sbyte(s.args[1], k), Sbyte(s.args[2], k))))
		}
	}
	return t
}

func Sconcat(a, b *Term) *Term {
	if l, ok := litOf(a); ok {
		if l == "" {
			return b
		}
		if m, ok := litOf(b); ok {
			return StrLit(l + m)
		}
	}
	if l, ok := litOf(b); ok && l == "" {
		return a
	}
	if b.op == "app" && b.name == "sconcat" {
		return Sconcat(Sconcat(a, b.args[0]), b.args[1])
	}
	t := App("sconcat", SStr, a, b)
	if !t.hasB {
		addFact(t, Implies(Eq(a, StrLit("")), Eq(t, b)))
		addFact(t, Implies(Eq(b, StrLit("")), Eq(t, a)))
	}
	return t
}

// ---------------------------------------------------------------- facts

// facts that hold of a term by construction; conjoined to every query that
// mentions the term.
var facts = map[*Term][]*Term{}

func addFact(t, f *Term) {
	if f == True || t.hasB {
		return
	}
	for _, g := range facts[t] {
		if g == f {
			return
		}
	}
	facts[t] = append(facts[t], f)
}

// ---------------------------------------------------------------- booleans

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	case a.op == "<=" && a.sort == SBool && a.args[0].sort == SInt:
		return Lt(a.args[1], a.args[0])
	}
	return mk("not", SBool, "", nil, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if a == nil {
			panic("nil term in And")
		}
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, "", nil, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False || seen[t] {
			return true
		}
		if t == True {
			return false
		}
		if t.op == "or" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, "", nil, out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort.name, b.sort.name))
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	return mk("ite", a.sort, "", nil, c, a, b)
}

// Eq is mathematical equality.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort.name, b.sort.name, a, b))
	}
	if a.isConst() && b.isConst() {
		return False // distinct interned constants
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.isInt() {
			return B(d.val.Sign() == 0)
		}
		if lo, hi := interval(d, 0); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return False
		}
		if distinctHook(a, b) {
			return False
		}
		// canonical orientation: compare linear forms
		a, b = splitLin(d)
	}
	if a.sort == SIface {
		if isCtor(a) && isCtor(b) {
			if a.op != b.op || a.name != b.name {
				return False
			}
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
	}
	if a.op == "ite" && (b.isConst() || isCtor(b)) && (a.args[1].isConst() || a.args[2].isConst() || isCtor(a.args[1]) || isCtor(a.args[2])) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && (a.isConst() || isCtor(a)) && (b.args[1].isConst() || b.args[2].isConst() || isCtor(b.args[1]) || isCtor(b.args[2])) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.op == "app" && b.op == "app" && a.name == b.name && a.name == "ovl" {
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", nil, a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------------------------------------------------------------- linear integer arithmetic

type lin struct {
	c  *big.Int
	ts map[*Term]*big.Int
}

func newLin() *lin { return &lin{new(big.Int), map[*Term]*big.Int{}} }

func (l *lin) addTerm(t *Term, k *big.Int) {
	switch {
	case t.isInt():
		l.c.Add(l.c, new(big.Int).Mul(k, t.val))
	case t.op == "+":
		for _, a := range t.args {
			l.addTerm(a, k)
		}
	case t.op == "*" && t.args[0].isInt():
		l.addTerm(t.args[1], new(big.Int).Mul(k, t.args[0].val))
	default:
		o := l.ts[t]
		if o == nil {
			o = new(big.Int)
		}
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.ts, t)
		} else {
			l.ts[t] = n
		}
	}
}

func (l *lin) term() *Term {
	if len(l.ts) == 0 {
		return IB(new(big.Int).Set(l.c))
	}
	var ks []*Term
	for t := range l.ts {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, t := range ks {
		k := l.ts[t]
		if k.IsInt64() && k.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk("*", SInt, "", nil, IB(new(big.Int).Set(k)), t))
		}
	}
	if l.c.Sign() != 0 {
		args = append(args, IB(new(big.Int).Set(l.c)))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", SInt, "", nil, args...)
}

// splitLin splits d==0 into two sides with positive coefficients
func splitLin(d *Term) (*Term, *Term) {
	l := newLin()
	l.addTerm(d, big.NewInt(1))
	p, n := newLin(), newLin()
	first := true
	flip := false
	var ks []*Term
	for t := range l.ts {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, t := range ks {
		k := l.ts[t]
		if first {
			flip = k.Sign() < 0
			first = false
		}
		kk := new(big.Int).Set(k)
		if flip {
			kk.Neg(kk)
		}
		if kk.Sign() > 0 {
			p.ts[t] = kk
		} else {
			n.ts[t] = kk.Neg(kk)
		}
	}
	c := new(big.Int).Set(l.c)
	if flip {
		c.Neg(c)
	}
	n.c = c.Neg(c)
	return p.term(), n.term()
}

func Add(as ...*Term) *Term {
	l := newLin()
	one := big.NewInt(1)
	for _, a := range as {
		if a.sort != SInt {
			panic("Add of " + a.sort.name)
		}
		l.addTerm(a, one)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := newLin()
	l.addTerm(a, big.NewInt(1))
	l.addTerm(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(I(0), a) }
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := newLin()
		l.addTerm(b, a.val)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("nmul", SInt, "", nil, a, b)
}

// Div and Mod are SMT (Euclidean) div/mod by a positive constant where possible
func Div(a, b *Term) *Term {
	if b.isInt() && b.val.Sign() > 0 {
		if a.isInt() {
			q, _ := new(big.Int).DivMod(a.val, b.val, new(big.Int))
			return IB(q)
		}
		if b.val.IsInt64() && b.val.Int64() == 1 {
			return a
		}
	}
	return mk("div", SInt, "", nil, a, b)
}
func Mod(a, b *Term) *Term {
	if b.isInt() && b.val.Sign() > 0 {
		if a.isInt() {
			return IB(new(big.Int).Mod(a.val, b.val))
		}
		if lo, hi := interval(a, 0); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.val) < 0 {
			return a
		}
		if a.op == "mod" && a.args[1].isInt() && a.args[1].val.Sign() > 0 && new(big.Int).Mod(a.args[1].val, b.val).Sign() == 0 {
			return Mod(a.args[0], b)
		}
	}
	return mk("mod", SInt, "", nil, a, b)
}

func Le(a, b *Term) *Term {
	d := Sub(a, b) // d <= 0
	if d.isInt() {
		return B(d.val.Sign() <= 0)
	}
	lo, hi := interval(d, 0)
	if hi != nil && hi.Sign() <= 0 {
		return True
	}
	if lo != nil && lo.Sign() > 0 {
		return False
	}
	p, n := splitPosNeg(d)
	return mk("<=", SBool, "", nil, p, n)
}
func Lt(a, b *Term) *Term { return Le(Add(a, I(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func splitPosNeg(d *Term) (*Term, *Term) {
	l := newLin()
	l.addTerm(d, big.NewInt(1))
	p, n := newLin(), newLin()
	for t, k := range l.ts {
		if k.Sign() > 0 {
			p.ts[t] = k
		} else {
			n.ts[t] = new(big.Int).Neg(k)
		}
	}
	if l.c.Sign() > 0 {
		p.c = new(big.Int).Set(l.c)
	} else {
		n.c = new(big.Int).Neg(l.c)
	}
	return p.term(), n.term()
}

// known intrinsic ranges of leaf terms (symbols of machine types etc.)
var rangeLo = map[*Term]*big.Int{}
var rangeHi = map[*Term]*big.Int{}

func setRange(t *Term, lo, hi *big.Int) {
	if t.isConst() || t.op == "+" || t.op == "*" {
		return
	}
	rangeLo[t], rangeHi[t] = lo, hi
	addFact(t, rawRange(t, lo, hi))
}
func rawRange(t *Term, lo, hi *big.Int) *Term {
	a := mk("<=", SBool, "", nil, IB(lo), t)
	b := mk("<=", SBool, "", nil, t, IB(hi))
	return mk("and", SBool, "", nil, a, b)
}

func interval(t *Term, depth int) (lo, hi *big.Int) {
	if depth > 8 {
		return nil, nil
	}
	if t.isInt() {
		return t.val, t.val
	}
	if l, ok := rangeLo[t]; ok {
		return l, rangeHi[t]
	}
	switch t.op {
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h := interval(a, depth+1)
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = new(big.Int).Add(lo, l)
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = new(big.Int).Add(hi, h)
				}
			}
		}
		return lo, hi
	case "*":
		l, h := interval(t.args[1], depth+1)
		k := t.args[0].val
		if k.Sign() < 0 {
			l, h = h, l
		}
		if l != nil {
			l = new(big.Int).Mul(l, k)
		}
		if h != nil {
			h = new(big.Int).Mul(h, k)
		}
		return l, h
	case "mod":
		if t.args[1].isInt() && t.args[1].val.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(t.args[1].val, big.NewInt(1))
		}
	case "div":
		if t.args[1].isInt() && t.args[1].val.Sign() > 0 {
			l, h := interval(t.args[0], depth+1)
			if l != nil {
				l = new(big.Int).Div(l, t.args[1].val)
			}
			if h != nil {
				h = new(big.Int).Div(h, t.args[1].val)
			}
			return l, h
		}
	case "ite":
		l1, h1 := interval(t.args[1], depth+1)
		l2, h2 := interval(t.args[2], depth+1)
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return lo, hi
	case "app":
		switch t.name {
		case "slen":
			return new(big.Int), maxI64
		case "sbyte":
			return new(big.Int), big.NewInt(255)
		}
	}
	return nil, nil
}

var (
	maxI64 = new(big.Int).SetInt64(1<<63 - 1)
	minI64 = new(big.Int).SetInt64(-1 << 63)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// ---------------------------------------------------------------- arrays

func Select(a, i *Term) *Term {
	if a.sort.k == nil {
		panic("select on " + a.sort.name)
	}
	if a.sort.k != i.sort {
		panic("select index sort " + i.sort.name + " on " + a.sort.name)
	}
	for n := 0; n < 4000; n++ {
		switch a.op {
		case "store":
			e := Eq(a.args[1], i)
			if e == True {
				return a.args[2]
			}
			if e == False || provDistinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
			if a.sort.v.k != nil {
				return Ite(e, a.args[2], Select(a.args[0], i))
			}
			return mk("select", a.sort.v, "", nil, a, i)
		case "constarr":
			return a.args[0]
		case "ite":
			x, y := Select(a.args[1], i), Select(a.args[2], i)
			return Ite(a.args[0], x, y)
		case "strarr":
			return Sbyte(a.args[0], i)
		case "shiftarr":
			return Select(a.args[0], Add(a.args[1], i))
		case "hsplit":
			e := Lt(i, a.args[2])
			if e == True || oldRef(i, a.args[2]) {
				a = a.args[0]
				continue
			}
			if e == False {
				a = a.args[1]
				continue
			}
			return Ite(e, Select(a.args[0], i), Select(a.args[1], i))
		case "blit":
			// blit(dst, at, n, seq)
			dst, at, cnt, seq := a.args[0], a.args[1], a.args[2], a.args[3]
			k := Sub(i, at)
			in := And(Le(I(0), k), Lt(k, cnt))
			if in == False {
				a = dst
				continue
			}
			return Ite(in, SeqAt(seq, k), Select(dst, i))
		}
		break
	}
	return mk("select", a.sort.v, "", nil, a, i)
}

// oldRef: i is known to be below the frontier
func oldRef(i, frontier *Term) bool {
	b, ok := refBound[i]
	if !ok {
		return false
	}
	lo, _ := interval(Sub(frontier, b), 0)
	return lo != nil && lo.Sign() >= 0
}

// provDistinct: cheap syntactic distinctness of refs (fresh allocations)
func provDistinct(a, b *Term) bool {
	if a.sort != SInt {
		return false
	}
	d := Sub(a, b)
	lo, hi := interval(d, 0)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return true
	}
	return distinctHook(a, b)
}

func Store(a, i, v *Term) *Term {
	if a.sort.v != v.sort {
		panic("store value sort " + v.sort.name + " into " + a.sort.name)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if Select(a, i) == v {
		return a
	}
	return mk("store", a.sort, "", nil, a, i, v)
}
func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", s, "", nil, v) }

// Blit writes n items of seq at position at.
func Blit(dst, at, n, seq *Term) *Term {
	if n.isInt() && n.val.Sign() <= 0 {
		return dst
	}
	return mk("blit", dst.sort, "", nil, dst, at, n, seq)
}

// byte sequences: "le" (width in val, value), "strseq"(s), "zeros", "sub"(arr, off)
func SeqLE(w int, v *Term) *Term { return mk("seq_le", SSeq, "", big.NewInt(int64(w)), v) }
func SeqStr(s *Term) *Term       { return mk("seq_str", SSeq, "", nil, s) }
func SeqZero() *Term             { return mk("seq_zero", SSeq, "", nil) }
func SeqSub(arr, off *Term) *Term {
	if arr.op == "constarr" {
		if arr.args[0].isInt() && arr.args[0].val.Sign() == 0 {
			return SeqZero()
		}
	}
	return mk("seq_sub", SSeq, "", nil, arr, off)
}
func SeqAt(seq, k *Term) *Term {
	switch seq.op {
	case "seq_le":
		w := int(seq.val.Int64())
		v := seq.args[0]
		if k.isInt() && k.val.IsInt64() && k.val.Int64() < int64(w) {
			return byteK(v, int(k.val.Int64()))
		}
		r := byteK(v, w-1)
		for j := w - 2; j >= 0; j-- {
			r = Ite(Eq(k, I(int64(j))), byteK(v, j), r)
		}
		return r
	case "seq_str":
		return Sbyte(seq.args[0], k)
	case "seq_zero":
		return I(0)
	case "seq_sub":
		return Select(seq.args[0], Add(seq.args[1], k))
	case "ite":
		return Ite(seq.args[0], SeqAt(seq.args[1], k), SeqAt(seq.args[2], k))
	}
	r := App("seqat", SInt, seq, k)
	if !r.hasB {
		setRange(r, new(big.Int), big.NewInt(255))
	}
	return r
}

// byteK is byte k (little endian) of the two's complement representation of v.
func byteK(v *Term, k int) *Term {
	if v.isInt() {
		x := new(big.Int).Mod(v.val, pow2(64))
		x.Rsh(x, uint(8*k))
		x.And(x, big.NewInt(255))
		return IB(x)
	}
	v = stripWrap(v, 8*(k+1))
	if v.op == "app" && v.name == "unle8" && k < 8 {
		return v.args[k]
	}
	t := mk("bytek", SInt, "", big.NewInt(int64(k)), v)
	if !t.hasB {
		setRange(t, new(big.Int), big.NewInt(255))
	}
	return t
}

func rawByteK(v *Term, k int) *Term {
	t := mk("bytek", SInt, "", big.NewInt(int64(k)), v)
	setRange(t, new(big.Int), big.NewInt(255))
	return t
}

// stripWrap removes reductions modulo 2^w (w >= bits) that cannot affect the low bits
func stripWrap(v *Term, bits int) *Term {
	for {
		if v.op == "mod" && isPow2AtLeast(v.args[1], bits) {
			v = v.args[0]
			continue
		}
		// (mod (x + 2^(w-1)) 2^w) - 2^(w-1)
		if v.op == "+" {
			l := newLin()
			l.addTerm(v, big.NewInt(1))
			if len(l.ts) == 1 {
				for t, k := range l.ts {
					if k.IsInt64() && k.Int64() == 1 && t.op == "mod" && isPow2AtLeast(t.args[1], bits) {
						return stripWrap(Add(t.args[0], IB(l.c)), bits)
					}
				}
			}
			// reduce the constant part modulo 2^bits when nothing else matches
			m := pow2(64)
			if l.c.Sign() < 0 || l.c.Cmp(m) >= 0 {
				if new(big.Int).Mod(l.c, m).Sign() == 0 {
					l.c = new(big.Int)
					v = l.term()
					continue
				}
			}
		}
		return v
	}
}
func isPow2AtLeast(t *Term, bits int) bool {
	if !t.isInt() || t.val.Sign() <= 0 {
		return false
	}
	n := t.val.BitLen() - 1
	return n >= bits && t.val.Cmp(pow2(n)) == 0
}

// LEDecode: the unsigned little-endian number formed by bytes bs
func LEDecode(bs []*Term) *Term {
	n := len(bs)
	all := true
	for i, b := range bs {
		if b.op != "bytek" || b.val.Int64() != int64(i) || b.args[0] != bs[0].args[0] {
			all = false
			break
		}
	}
	if all {
		return Mod(bs[0].args[0], IB(pow2(8*n)))
	}
	cst := true
	for _, b := range bs {
		cst = cst && b.isInt()
	}
	if cst {
		x := new(big.Int)
		for i := n - 1; i >= 0; i-- {
			x.Lsh(x, 8)
			x.Add(x, bs[i].val)
		}
		return IB(x)
	}
	l := newLin()
	for i, b := range bs {
		l.addTerm(b, pow2(8*i))
	}
	return l.term()
}

// U64LE: the same for eight bytes, as an opaque function with its defining facts (see queryText)
func U64LE(bs []*Term) *Term {
	if t := LEDecode(bs); t.isInt() || t.op == "mod" || bs[0].op == "bytek" && t == bs[0].args[0] {
		return t
	}
	u := App("unle8", SInt, bs...)
	if !u.hasB {
		setRange(u, new(big.Int), new(big.Int).Sub(pow2(64), big.NewInt(1)))
		var in, eq []*Term
		for k, b := range bs {
			in = append(in, Le(I(0), b), Le(b, I(255)))
			eq = append(eq, Eq(rawByteK(u, k), b))
		}
		addFact(u, Implies(And(in...), And(eq...)))
	}
	return u
}

// ---------------------------------------------------------------- uninterpreted application and misc

func App(f string, s *Sort, args ...*Term) *Term { return mk("app", s, f, nil, args...) }

func Op(op string, s *Sort, args ...*Term) *Term { return mk(op, s, "", nil, args...) }

// interface datatype -------------------------------------------------

var ctorFields = map[string][]string{
	"inil": nil, "inum": {"num_t", "num_v"}, "istr": {"str_t", "str_v"}, "if64": {"f64_t", "f64_v"},
	"if32": {"f32_t", "f32_v"}, "ibool": {"bool_t", "bool_v"}, "iptr": {"ptr_t", "ptr_v"}, "ioth": {"oth_t", "oth_v"},
}

func isCtor(t *Term) bool { return t.op == "ctor" }
func Ctor(c string, args ...*Term) *Term {
	return mk("ctor", SIface, c, nil, args...)
}

var INil = Ctor("inil")

func IsCtor(c string, t *Term) *Term {
	if isCtor(t) {
		return B(t.name == c)
	}
	if t.op == "ite" {
		return Ite(t.args[0], IsCtor(c, t.args[1]), IsCtor(c, t.args[2]))
	}
	return mk("is", SBool, c, nil, t)
}

// CtorSel selects field j of constructor c
func CtorSel(c string, j int, t *Term, s *Sort) *Term {
	if isCtor(t) && t.name == c {
		return t.args[j]
	}
	if t.op == "ite" && (isCtor(t.args[1]) || isCtor(t.args[2])) {
		return Ite(t.args[0], CtorSel(c, j, t.args[1], s), CtorSel(c, j, t.args[2], s))
	}
	return mk("dsel", s, ctorFields[c][j], nil, t)
}

// quantifiers ---------------------------------------------------------

func BoundVar(hint string, s *Sort) *Term {
	symCount["bv$"]++
	return mk("var", s, fmt.Sprintf("%s?%d", sanitize(hint), symCount["bv$"]), nil)
}
func Forall(vs []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if body.op == "and" {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, Forall(vs, a))
		}
		return And(cs...)
	}
	var used []*Term
	for _, v := range vs {
		if occurs(v, body) {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	for _, v := range used {
		if v.sort == SInt && !bvMode {
			if c := indexOffset(v, body); c != nil {
				return Forall(used, Subst(body, map[*Term]*Term{v: Sub(v, c)}))
			}
		}
	}
	t := mk("forall", SBool, fmt.Sprint(len(used)), nil, append(append([]*Term{}, used...), body)...)
	t.hasB = freeBound(t)
	return t
}

// indexOffset: when a quantified variable is used only at array positions c + v (never at v itself),
// the variable is better the position itself: the instantiation pattern is then select(a, v)
func indexOffset(v, body *Term) *Term {
	seen := map[*Term]bool{}
	inner := map[*Term]bool{}
	var offs []*Term
	plain := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || plain {
			return
		}
		seen[t] = true
		if t.op == "forall" {
			for _, w := range t.args[:len(t.args)-1] {
				inner[w] = true
			}
		}
		if t.op == "select" && t.args[0].sort.k == SInt {
			d := Sub(t.args[1], v)
			if d != t.args[1] && occurs(v, t.args[1]) && !occurs(v, d) {
				if d.isInt() && d.val.Sign() == 0 {
					plain = true
					return
				}
				offs = append(offs, d)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if plain || len(offs) == 0 {
		return nil
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i].id < offs[j].id })
	for _, c := range offs {
		ok := !c.isInt()
		for w := range inner {
			if occurs(w, c) {
				ok = false
			}
		}
		if ok {
			return c
		}
	}
	return nil
}
func Exists(vs []*Term, body *Term) *Term { return Not(Forall(vs, Not(body))) }

func freeBound(t *Term) bool {
	var walk func(t *Term, bound map[*Term]bool) bool
	walk = func(t *Term, bound map[*Term]bool) bool {
		if t.op == "var" {
			return !bound[t]
		}
		if !t.hasB && !t.hasQ {
			return false
		}
		if t.op == "forall" {
			nb := map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.args[:len(t.args)-1] {
				nb[v] = true
			}
			return walk(t.args[len(t.args)-1], nb)
		}
		for _, a := range t.args {
			if walk(a, bound) {
				return true
			}
		}
		return false
	}
	return walk(t, map[*Term]bool{})
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// Subst replaces terms (symbols or bound variables), rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var s func(t *Term) *Term
	s = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = s(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return s(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*", "nmul":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		r := Select(a[0], a[1])
		if r.op == "select" {
			copyRange(t, r)
		}
		return r
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.sort, a[0])
	case "blit":
		return Blit(a[0], a[1], a[2], a[3])
	case "shiftarr":
		return ShiftArr(a[0], a[1])
	case "strarr":
		return StrArr(a[0])
	case "hsplit":
		return HSplit(a[0], a[1], a[2])
	case "is":
		return IsCtor(t.name, a[0])
	case "dsel":
		for c, fs := range ctorFields {
			for j, f := range fs {
				if f == t.name {
					return CtorSel(c, j, a[0], t.sort)
				}
			}
		}
	case "bytek":
		return byteK(a[0], int(t.val.Int64()))
	case "app":
		switch t.name {
		case "slen":
			return Slen(a[0])
		case "sbyte":
			return Sbyte(a[0], a[1])
		case "sconcat":
			return Sconcat(a[0], a[1])
		case "unle8":
			return U64LE(a)
		case "ovlArr", "ovlIdx":
			return ovlProj(t.name, a[0])
		}
		r := App(t.name, t.sort, a...)
		copyRange(t, r)
		return r
	case "forall":
		n := len(a) - 1
		return Forall(a[:n], a[n])
	case "seq_sub":
		return SeqSub(a[0], a[1])
	}
	if strings.HasPrefix(t.op, "bv") || t.op == "concat" || strings.HasPrefix(t.op, "(_") {
		return BVOp(t.op, t.sort, a...)
	}
	return mk(t.op, t.sort, t.name, t.val, a...)
}

func copyRange(t, r *Term) {
	if l, ok := rangeLo[t]; ok && !r.isConst() {
		if _, has := rangeLo[r]; !has {
			if r.hasB {
				rangeLo[r], rangeHi[r] = l, rangeHi[t]
			} else {
				setRange(r, l, rangeHi[t])
			}
		}
	}
}

// overlay references: a pointer to a struct laid over bytes arr[idx...]
func Ovl(arr, idx *Term) *Term {
	t := App("ovl", SInt, arr, idx)
	addFact(t, Gt(t, I(0)))
	return t
}
func ovlProj(p string, r *Term) *Term {
	if r.op == "app" && r.name == "ovl" {
		if p == "ovlArr" {
			return r.args[0]
		}
		return r.args[1]
	}
	if r.op == "ite" {
		return Ite(r.args[0], ovlProj(p, r.args[1]), ovlProj(p, r.args[2]))
	}
	return App(p, SInt, r)
}

// ---------------------------------------------------------------- bit vectors

func BVOp(op string, s *Sort, a ...*Term) *Term {
	cst := true
	for _, x := range a {
		cst = cst && x.isConst()
	}
	if cst && len(a) >= 1 {
		if r := foldBV(op, s, a); r != nil {
			return r
		}
	}
	if s == SBool && len(a) == 2 && a[0] == a[1] {
		switch op {
		case "bvule", "bvsle", "bvuge", "bvsge":
			return True
		case "bvult", "bvslt", "bvugt", "bvsgt":
			return False
		}
	}
	if len(a) == 2 && (op == "bvor" || op == "bvadd" || op == "bvxor") {
		if a[1].isConst() && a[1].val.Sign() == 0 {
			return a[0]
		}
		if a[0].isConst() && a[0].val.Sign() == 0 {
			return a[1]
		}
	}
	return mk(op, s, "", nil, a...)
}

func signed(x *big.Int, w int) *big.Int {
	if x.Bit(w-1) == 1 {
		return new(big.Int).Sub(x, pow2(w))
	}
	return x
}

func foldBV(op string, s *Sort, a []*Term) *Term {
	w := a[0].sort.bv
	if w == 0 {
		return nil
	}
	x := a[0].val
	var y *big.Int
	if len(a) > 1 {
		y = a[1].val
	}
	n := new(big.Int)
	switch op {
	case "bvadd":
		return BVc(n.Add(x, y), w)
	case "bvsub":
		return BVc(n.Sub(x, y), w)
	case "bvmul":
		return BVc(n.Mul(x, y), w)
	case "bvand":
		return BVc(n.And(x, y), w)
	case "bvor":
		return BVc(n.Or(x, y), w)
	case "bvxor":
		return BVc(n.Xor(x, y), w)
	case "bvnot":
		return BVc(n.Sub(n.Sub(pow2(w), big.NewInt(1)), x), w)
	case "bvneg":
		return BVc(n.Neg(x), w)
	case "bvshl":
		if y.Cmp(big.NewInt(int64(w))) >= 0 {
			return BVc(n, w)
		}
		return BVc(n.Lsh(x, uint(y.Int64())), w)
	case "bvlshr":
		if y.Cmp(big.NewInt(int64(w))) >= 0 {
			return BVc(n, w)
		}
		return BVc(n.Rsh(x, uint(y.Int64())), w)
	case "bvule":
		return B(x.Cmp(y) <= 0)
	case "bvult":
		return B(x.Cmp(y) < 0)
	case "bvsle":
		return B(signed(x, w).Cmp(signed(y, w)) <= 0)
	case "bvslt":
		return B(signed(x, w).Cmp(signed(y, w)) < 0)
	case "(_ sign_extend)":
		return BVc(signed(x, w), s.bv)
	case "(_ zero_extend)", "(_ extract)":
		return BVc(x, s.bv)
	}
	return nil
}

// ---------------------------------------------------------------- printing

func intStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func quote(n string) string { return "|" + n + "|" }

// head prints the operator head of an n-ary application
func smtStr(t *Term) string {
	var b strings.Builder
	memo := map[*Term]string{}
	_ = memo
	var p func(t *Term)
	p = func(t *Term) { printTerm(&b, t, func(x *Term) { p(x) }) }
	p(t)
	return b.String()
}

func printTerm(b *strings.Builder, t *Term, sub func(*Term)) {
	list := func(h string, as ...*Term) {
		b.WriteString("(" + h)
		for _, a := range as {
			b.WriteByte(' ')
			sub(a)
		}
		b.WriteByte(')')
	}
	switch t.op {
	case "const":
		switch {
		case t.sort == SInt:
			b.WriteString(intStr(t.val))
		case t.sort.bv > 0:
			fmt.Fprintf(b, "(_ bv%s %d)", t.val.String(), t.sort.bv)
		case t.sort == SBool:
			b.WriteString(t.name)
		case t.sort == SF64, t.sort == SF32:
			b.WriteString(t.name)
		default:
			b.WriteString(quote(t.name))
		}
	case "sym", "var":
		b.WriteString(quote(t.name))
	case "app":
		if len(t.args) == 0 {
			b.WriteString(quote(t.name))
		} else {
			list(quote(t.name), t.args...)
		}
	case "ctor":
		if len(t.args) == 0 {
			b.WriteString(t.name)
		} else {
			list(t.name, t.args...)
		}
	case "is":
		list("(_ is "+t.name+")", t.args...)
	case "dsel":
		list(t.name, t.args...)
	case "nmul":
		list("*", t.args...)
	case "constarr":
		b.WriteString("((as const " + t.sort.name + ") ")
		sub(t.args[0])
		b.WriteByte(')')
	case "bytek":
		list(fmt.Sprintf("bytek%d", t.val.Int64()), t.args...)
	case "forall":
		n := len(t.args) - 1
		b.WriteString("(forall (")
		for _, v := range t.args[:n] {
			b.WriteString("(" + quote(v.name) + " " + v.sort.name + ")")
		}
		b.WriteString(") ")
		sub(t.args[n])
		b.WriteString(")")
	case "(_ sign_extend)", "(_ zero_extend)":
		op := strings.TrimSuffix(t.op, ")")
		list(fmt.Sprintf("%s %d)", op, t.sort.bv-t.args[0].sort.bv), t.args...)
	case "(_ extract)": // low bits
		list(fmt.Sprintf("(_ extract %d 0)", t.sort.bv-1), t.args...)
	case "blit", "seq_le", "seq_str", "seq_sub", "seq_zero":
		list(t.op, t.args...)
	default:
		list(t.op, t.args...)
	}
}
