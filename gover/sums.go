package main

import (
	"fmt"
	"strings"
)

// Sums over finite sets: sum(S, body) is an application of an uninterpreted function of S and of
// the maximal subterms of body that do not mention the summation variable.  Its axioms (empty set,
// adding one member, extensionality, monotonicity) are instantiated on the terms of a query.

type sumDef struct {
	v    *Term           // bound variable
	body *Term           // over v and params
	ps   []*Term         // parameters
	from map[string]bool // specification clauses it comes from
}

var sumDefs = map[string]*sumDef{}
var sumNames = map[string]string{}

func Sum(set, v, body *Term, from string) *Term {
	if body.isConst() && body.val.Sign() == 0 {
		return I(0)
	}
	var ps, args []*Term
	rep := map[*Term]*Term{}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] || t.isConst() {
			return
		}
		seen[t] = true
		if !occurs(v, t) {
			p := mk("var", t.sort, fmt.Sprintf("sp?%d?%s", len(ps), t.sort.name), nil)
			rep[t] = p
			ps = append(ps, p)
			args = append(args, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	cv := mk("var", v.sort, "sumk?"+v.sort.name, nil)
	rep[v] = cv
	b := rawSubst(body, rep)
	key := smtStr(b)
	n, ok := sumNames[key]
	if !ok {
		n = fmt.Sprintf("sum$%d", len(sumNames))
		sumNames[key] = n
		sumDefs[n] = &sumDef{cv, b, ps, map[string]bool{}}
	}
	sumDefs[n].from[from] = true
	return App(n, SInt, append([]*Term{set}, args...)...)
}

// rawSubst rebuilds without simplification, so that the structure stays comparable
func rawSubst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var s func(t *Term) *Term
	s = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		a := make([]*Term, len(t.args))
		ch := false
		for i := range t.args {
			a[i] = s(t.args[i])
			ch = ch || a[i] != t.args[i]
		}
		r := t
		if ch {
			r = mk(t.op, t.sort, t.name, t.val, a...)
			if t.op == "select" || t.op == "app" {
				copyRange(t, r)
			}
		}
		memo[t] = r
		return r
	}
	return s(t)
}

func isSum(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.name, "sum$") }

// sumAt: the summand at k
func sumAt(t, k *Term) *Term {
	d := sumDefs[t.name]
	m := map[*Term]*Term{d.v: k}
	for i, p := range d.ps {
		m[p] = t.args[i+1]
	}
	return Subst(d.body, m)
}

func sumWith(t, set *Term) *Term {
	return App(t.name, SInt, append([]*Term{set}, t.args[1:]...)...)
}

// sumAxioms for one term
func sumAxioms(t *Term) []*Term {
	s := t.args[0]
	switch {
	case s.op == "constarr" && s.args[0] == False:
		return []*Term{Eq(t, I(0))}
	case s.op == "store" && s.args[2] == True:
		r := sumWith(t, s.args[0])
		return []*Term{Eq(t, Add(r, Ite(Select(s.args[0], s.args[1]), I(0), sumAt(t, s.args[1]))))}
	case s.op == "ite":
		return []*Term{Eq(t, Ite(s.args[0], sumWith(t, s.args[1]), sumWith(t, s.args[2])))}
	}
	return nil
}

// sumPair: equality and order of two sums, each by a witness k
func sumPair(a, b *Term) []*Term {
	if a.args[0].sort != b.args[0].sort {
		return nil
	}
	if a.name != b.name {
		// sums from unrelated clauses are not compared
		rel := false
		for f := range sumDefs[a.name].from {
			rel = rel || sumDefs[b.name].from[f]
		}
		if !rel {
			return nil
		}
	}
	n := fmt.Sprintf("sumw!%d!%d", a.id, b.id)
	ks := a.args[0].sort.k
	var out []*Term
	k := Sym(n, ks)
	sa, sb := Select(a.args[0], k), Select(b.args[0], k)
	va, vb := sumAt(a, k), sumAt(b, k)
	out = append(out, Implies(And(Eq(sa, sb), Implies(sa, Eq(va, vb))), Eq(a, b)))
	if a.args[0] != b.args[0] {
		le := func(a, b *Term, k *Term) *Term {
			sa, sb := Select(a.args[0], k), Select(b.args[0], k)
			va, vb := sumAt(a, k), sumAt(b, k)
			return Implies(And(Implies(sa, And(sb, Le(va, vb))), Implies(And(sb, Not(sa)), Le(I(0), vb))), Le(a, b))
		}
		out = append(out, le(a, b, Sym(n+"le", ks)), le(b, a, Sym(n+"ge", ks)))
	}
	return out
}

// sumMember: a sum of nonnegative summands is at least each of them
func sumMember(t, k *Term) []*Term {
	s := t.args[0]
	if s.sort.k != k.sort {
		return nil
	}
	w := Sym(fmt.Sprintf("sumw!neg!%d", t.id), k.sort)
	return []*Term{Implies(And(Select(s, k), Implies(Select(s, w), Le(I(0), sumAt(t, w)))), Le(sumAt(t, k), t))}
}
