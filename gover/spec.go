package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- AST

type Expr struct {
	Op   string // ident, int, str, float, call, sel, index, bin, un, forall, exists, assert(x.(T)), is, let
	Name string
	Args []*Expr
	Typ  string
	Vars []SVar
	Pos  string
}
type SVar struct{ Name, Typ string }

type Clause struct {
	Kind  string // requires ensures modifies panics loop ...
	Label string
	Props []string
	E     *Expr
	Lk    []*Expr // further locks of a guard
	Es    []*Expr
	Text  string
	Vars  []SVar
	Pos   string
	Opt   string
	Hints []*Expr
	HV    []*Expr // hint variables (parallel to Hints)
}

func (fs *FuncSpec) hasReads() bool {
	for _, c := range fs.Clauses {
		if c.Kind == "reads" {
			return true
		}
	}
	return false
}

func (c *Clause) active(prop string) bool {
	if len(c.Props) == 0 || prop == "" {
		return true
	}
	for _, p := range c.Props {
		if p == prop {
			return true
		}
	}
	return false
}

type FuncSpec struct {
	Pkg     string
	Recv    string // receiver type text e.g. *PCPCounter, or interface name
	Name    string
	Key     string // pkg.Recv.Name
	Params  []string
	Results []string
	PTypes  []string
	Clauses []*Clause
	Props   []string // property ids whose check uses this as a root
	Trusted bool     // extern: assumed
	Inline  bool     // never use the contract at call sites
	Lemma   bool     // helper contract: falls back to inlining when it does not bind or verify
	Iface   bool     // contract on an interface method
	Theorem bool     // a statement over specification functions only
	FType   string   // functype contract name
	Pos     string
	Flags   map[string]bool
	Mode    string
	Binds   []SVar
	Guarded bool            // template: every exported method of the receiver type becomes a root
	Multi   map[string]bool // methods with one critical section per loop iteration
	Skip    map[string]bool
	Atomic  map[string]bool // methods that are one critical section of their own, verified apart
	Fn      interface{}     // the function of a generated root
}

type MacroDef struct {
	Name   string
	Params []SVar
	Ret    string
	Body   *Expr
	Pkg    string
	Opaque bool
	ax     *Term
}
type GhostDef struct {
	Auto bool
	Name string
	Key  string // key sort text
	Val  string
	Keys []string
}
type InvDef struct {
	Pkg, Typ, Var string
	Clauses       []*Clause
}
type AxiomDef struct {
	Name string
	E    *Expr
	Pkg  string
}

type Specs struct {
	Funcs    map[string]*FuncSpec
	Order    []*FuncSpec
	Guarded  []*FuncSpec
	Macros   map[string]*MacroDef
	Ghosts   map[string]*GhostDef
	Funs     map[string]*MacroDef // uninterpreted
	Invs     map[string]*InvDef
	Axioms   []*AxiomDef
	Scalars  map[string]string // misc settings
	Lists    map[string][][]string
	LoopInvs map[string][]*Clause
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k, s string
}

type parser struct {
	toks []tok
	i    int
	src  string
	pos  string
}

func lex(s, pos string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := rune(s[i])
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case unicode.IsDigit(c):
			j := i
			isf := false
			for j < len(s) && (unicode.IsDigit(rune(s[j])) || s[j] == 'x' || (s[j] >= 'a' && s[j] <= 'f') || (s[j] >= 'A' && s[j] <= 'F') || (s[j] == '.' && j+1 < len(s) && unicode.IsDigit(rune(s[j+1]))) || ((s[j] == '-' || s[j] == '+') && (s[j-1] == 'e') && !strings.HasPrefix(s[i:], "0x"))) {
				if s[j] == '.' || ((s[j] == 'e') && !strings.HasPrefix(s[i:], "0x")) {
					isf = true
				}
				j++
			}
			if isf {
				out = append(out, tok{"float", s[i:j]})
			} else {
				out = append(out, tok{"int", s[i:j]})
			}
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, tok{"str", s[i : j+1]})
			i = j + 1
		default:
			found := false
			for _, op := range []string{"<==>", "==>", "===", "!==", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "&^", ".."} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(s[i])})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""})
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.toks[p.i]
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		fatal("%s: spec syntax: expected %q, found %q in %q", p.pos, s, p.peek().s, p.src)
	}
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "===": 5, "!==": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "is": 5,
	"+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7,
}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" && !(t.k == "id" && (t.s == "in" || t.s == "is")) {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		if t.s == "is" {
			l = &Expr{Op: "is", Typ: p.typ(), Args: []*Expr{l}, Pos: p.pos}
			continue
		}
		np := pr + 1
		if t.s == "==>" {
			np = pr
		}
		r := p.expr(np)
		l = &Expr{Op: "bin", Name: t.s, Args: []*Expr{l, r}, Pos: p.pos}
	}
}

func (p *parser) unary() *Expr {
	if p.is("!") || p.is("-") || p.is("~") {
		o := p.next().s
		return &Expr{Op: "un", Name: o, Args: []*Expr{p.unary()}, Pos: p.pos}
	}
	if p.is("forall") || p.is("exists") {
		o := p.next().s
		var vs []SVar
		for {
			n := p.next().s
			vs = append(vs, SVar{n, p.typ()})
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		b := p.expr(0)
		return &Expr{Op: o, Vars: vs, Args: []*Expr{b}, Pos: p.pos}
	}
	if p.is("sum") && p.i+1 < len(p.toks) && p.toks[p.i+1].s != "(" {
		// sum k T in SET :: term
		p.next()
		n := p.next().s
		v := SVar{n, p.typ()}
		p.expect("in")
		set := p.postfix()
		p.expect("::")
		return &Expr{Op: "sum", Vars: []SVar{v}, Args: []*Expr{set, p.expr(0)}, Pos: p.pos}
	}
	if p.is("let") {
		p.next()
		n := p.next().s
		p.expect(":=")
		v := p.expr(0)
		p.expect(";")
		b := p.expr(0)
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}, Pos: p.pos}
	}
	return p.postfix()
}

// typ parses a Go-like type as text
func (p *parser) typ() string {
	var b strings.Builder
	for {
		if p.accept("*") {
			b.WriteString("*")
			continue
		}
		if p.is("[") {
			p.next()
			if p.peek().k == "int" {
				b.WriteString("[" + p.next().s + "]")
				p.expect("]")
			} else {
				p.expect("]")
				b.WriteString("[]")
			}
			continue
		}
		if p.is("map") {
			p.next()
			p.expect("[")
			k := p.typ()
			p.expect("]")
			b.WriteString("map[" + k + "]")
			continue
		}
		if p.is("chan") {
			p.next()
			b.WriteString("chan ")
			continue
		}
		break
	}
	t := p.next()
	if t.k != "id" {
		fatal("%s: spec syntax: type expected, found %q in %q", p.pos, t.s, p.src)
	}
	b.WriteString(t.s)
	if t.s == "interface" {
		p.expect("{")
		p.expect("}")
		b.WriteString("{}")
	}
	for p.is(".") {
		p.next()
		b.WriteString("." + p.next().s)
	}
	return b.String()
}

func (p *parser) postfix() *Expr {
	t := p.next()
	var e *Expr
	switch {
	case t.k == "int":
		e = &Expr{Op: "int", Name: t.s}
	case t.k == "float":
		e = &Expr{Op: "float", Name: t.s}
	case t.k == "str":
		e = &Expr{Op: "str", Name: t.s}
	case t.k == "op" && t.s == "(":
		e = p.expr(0)
		p.expect(")")
	case t.k == "id":
		e = &Expr{Op: "ident", Name: t.s}
	default:
		fatal("%s: spec syntax: unexpected %q in %q", p.pos, t.s, p.src)
	}
	e.Pos = p.pos
	for {
		switch {
		case p.is(".") && p.toks[p.i+1].k == "op" && p.toks[p.i+1].s == "(":
			p.next()
			p.next()
			ty := p.typ()
			p.expect(")")
			e = &Expr{Op: "assert", Typ: ty, Args: []*Expr{e}, Pos: p.pos}
		case p.accept("."):
			n := p.next()
			e = &Expr{Op: "sel", Name: n.s, Args: []*Expr{e}, Pos: p.pos}
		case p.accept("["):
			i := p.expr(0)
			if p.accept("..") {
				j := p.expr(0)
				p.expect("]")
				e = &Expr{Op: "range", Args: []*Expr{e, i, j}, Pos: p.pos}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}, Pos: p.pos}
		case p.is("("):
			p.next()
			var as []*Expr
			for !p.is(")") {
				as = append(as, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = &Expr{Op: "call", Args: append([]*Expr{e}, as...), Pos: p.pos}
		default:
			return e
		}
	}
}

func parseExpr(s, pos string) *Expr {
	p := &parser{toks: lex(s, pos), src: s, pos: pos}
	e := p.expr(0)
	if p.peek().k != "eof" {
		fatal("%s: spec syntax: trailing %q in %q", pos, p.peek().s, s)
	}
	return e
}

func parseExprList(s, pos string) []*Expr {
	p := &parser{toks: lex(s, pos), src: s, pos: pos}
	var es []*Expr
	for {
		es = append(es, p.expr(0))
		if !p.accept(",") {
			break
		}
	}
	if p.peek().k != "eof" {
		fatal("%s: spec syntax: trailing %q in %q", pos, p.peek().s, s)
	}
	return es
}

// ---------------------------------------------------------------- file parser

func loadSpecs(dir string) *Specs {
	sp := &Specs{Funcs: map[string]*FuncSpec{}, Macros: map[string]*MacroDef{}, Ghosts: map[string]*GhostDef{}, Funs: map[string]*MacroDef{}, Invs: map[string]*InvDef{}, Scalars: map[string]string{}, Lists: map[string][][]string{}, LoopInvs: map[string][]*Clause{}}
	files, _ := filepath.Glob(dir + "/*.spec")
	sort.Strings(files)
	for _, f := range files {
		parseSpecFile(sp, f)
	}
	return sp
}

type pline struct {
	text string
	pos  string
	ind  bool
}

func parseSpecFile(sp *Specs, file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var lines []pline
	for i, l := range strings.Split(string(data), "\n") {
		// strip comments
		if k := strings.Index(l, "#"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := l[0] == ' ' || l[0] == '\t'
		pos := fmt.Sprintf("%s:%d", filepath.Base(file), i+1)
		depth := len(l) - len(strings.TrimLeft(l, " \t"))
		if ind && depth >= 6 && len(lines) > 0 { // continuation
			lines[len(lines)-1].text += " " + strings.TrimSpace(l)
			continue
		}
		lines = append(lines, pline{strings.TrimSpace(l), pos, ind})
	}
	pkg := ""
	var cur *FuncSpec
	var curInv *InvDef
	for _, l := range lines {
		word, rest := l.text, ""
		if k := strings.IndexAny(l.text, " \t"); k >= 0 {
			word, rest = l.text[:k], strings.TrimSpace(l.text[k:])
		}
		if !l.ind {
			cur, curInv = nil, nil
			switch word {
			case "package":
				pkg = rest
			case "func", "extern", "lemma", "ifacemethod", "functype", "theorem":
				fs := parseFuncHead(rest, pkg, l.pos)
				fs.Trusted = word == "extern"
				fs.Lemma = word == "lemma"
				fs.Iface = word == "ifacemethod"
				if word == "theorem" {
					fs.Theorem = true
					fs.Key = "theorem:" + fs.Name
				}
				if word == "functype" {
					fs.FType = fs.Name
					fs.Key = "functype:" + fs.Key
				}
				if _, dup := sp.Funcs[fs.Key]; dup {
					fatal("%s: duplicate contract for %s", l.pos, fs.Key)
				}
				sp.Funcs[fs.Key] = fs
				sp.Order = append(sp.Order, fs)
				cur = fs
			case "guarded":
				// guarded (v *T): lock discipline of every exported method of *T
				p := &parser{toks: lex(rest, l.pos), src: rest, pos: l.pos}
				p.expect("(")
				n := p.next().s
				t := p.typ()
				cur = &FuncSpec{Pkg: pkg, Pos: l.pos, Flags: map[string]bool{"inlineall": true, "noframe": true, "guarded": true}, Params: []string{n}, Recv: t, PTypes: []string{t}, Guarded: true, Multi: map[string]bool{}, Skip: map[string]bool{}, Atomic: map[string]bool{}}
				sp.Guarded = append(sp.Guarded, cur)
			case "invariant":
				// invariant T(v)
				p := &parser{toks: lex(rest, l.pos), src: rest, pos: l.pos}
				tn := p.next().s
				p.expect("(")
				v := p.next().s
				p.expect(")")
				curInv = &InvDef{Pkg: pkg, Typ: tn, Var: v}
				sp.Invs[tn] = curInv
			case "define", "defopaque", "fun":
				// define name(x T, y T) R = expr
				p := &parser{toks: lex(rest, l.pos), src: rest, pos: l.pos}
				m := &MacroDef{Name: p.next().s, Pkg: pkg}
				p.expect("(")
				for !p.is(")") {
					n := p.next().s
					m.Params = append(m.Params, SVar{n, p.typ()})
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
				m.Ret = p.typ()
				if word != "fun" {
					m.Opaque = word == "defopaque"
					p.expect("=")
					m.Body = p.expr(0)
					sp.Macros[m.Name] = m
				} else {
					sp.Funs[m.Name] = m
				}
				if p.peek().k != "eof" {
					fatal("%s: trailing tokens in %q", l.pos, rest)
				}
			case "ghost":
				// ghost name(K) V
				p := &parser{toks: lex(rest, l.pos), src: rest, pos: l.pos}
				g := &GhostDef{Name: p.next().s}
				if g.Name == "auto" && !p.is("(") {
					// set by the specification at the exit of a function
					g.Name, g.Auto = p.next().s, true
				}
				p.expect("(")
				if !p.is(")") {
					g.Key = p.typ()
				}
				p.expect(")")
				g.Val = p.typ()
				sp.Ghosts[g.Name] = g
			case "axiom":
				sp.Axioms = append(sp.Axioms, &AxiomDef{Name: l.pos + " " + rest, E: parseExpr(rest, l.pos), Pkg: pkg})
			case "set":
				f := strings.Fields(rest)
				sp.Lists[f[0]] = append(sp.Lists[f[0]], f[1:])
			default:
				fatal("%s: unknown declaration %q", l.pos, word)
			}
			continue
		}
		// clause
		c := &Clause{Kind: word, Pos: l.pos, Text: rest}
		if strings.HasPrefix(rest, "[") {
			// [P1,P2 label] body
			k := strings.Index(rest, "]")
			hd := strings.TrimSpace(rest[1:k])
			rest = strings.TrimSpace(rest[k+1:])
			for _, w := range strings.FieldsFunc(hd, func(r rune) bool { return r == ' ' || r == ',' }) {
				if len(w) >= 3 && w[0] >= 'A' && w[0] <= 'Z' && unicode.IsDigit(rune(w[1])) {
					c.Props = append(c.Props, w)
				} else {
					if c.Label != "" {
						c.Label += "-"
					}
					c.Label += w
				}
			}
			c.Text = rest
		}
		if curInv != nil {
			if word != "inv" {
				fatal("%s: expected 'inv' clause", l.pos)
			}
			c.E = parseExpr(rest, l.pos)
			curInv.Clauses = append(curInv.Clauses, c)
			continue
		}
		if cur == nil {
			fatal("%s: clause outside a contract", l.pos)
		}
		switch word {
		case "props":
			cur.Props = append(cur.Props, strings.Fields(rest)...)
			continue
		case "flags":
			for _, f := range strings.Fields(rest) {
				cur.Flags[f] = true
			}
			continue
		case "mode":
			cur.Mode = rest
			continue
		case "multi", "skip", "atomic":
			for _, f := range strings.Fields(rest) {
				if word == "atomic" {
					cur.Atomic[f] = true
				} else if word == "multi" {
					cur.Multi[f] = true
				} else {
					cur.Skip[f] = true
				}
			}
			continue
		case "requires", "ensures", "assumes", "defines", "loopinv", "onpanic", "assertat", "blocking", "finally":
			if word == "loopinv" && strings.HasPrefix(rest, "{") {
				// {i int, m map[string]T} expr
				k := strings.Index(rest, "}")
				p := &parser{toks: lex(rest[1:k], l.pos), src: rest, pos: l.pos}
				for p.peek().k != "eof" {
					n := p.next().s
					c.Vars = append(c.Vars, SVar{n, p.typ()})
					if !p.accept(",") {
						break
					}
				}
				rest = strings.TrimSpace(rest[k+1:])
			}
			c.E = parseExpr(rest, l.pos)
		case "guard", "guardmulti":
			// guard LOCK, LOCK : loc, loc (a reader holds any of the locks, a writer all of them)
			k := strings.Index(rest, ":")
			if k < 0 {
				fatal("%s: guard LOCK : locations", l.pos)
			}
			ls := parseExprList(strings.TrimSpace(rest[:k]), l.pos)
			c.E, c.Lk = ls[0], ls[1:]
			c.Es = parseExprList(strings.TrimSpace(rest[k+1:]), l.pos)
			if word == "guardmulti" {
				c.Kind, c.Opt = "guard", "multi"
			}
		case "panics":
			if rest == "never" || rest == "may" {
				c.Opt = rest
			} else if strings.HasPrefix(rest, "when ") {
				c.Opt = "when"
				c.E = parseExpr(strings.TrimPrefix(rest, "when "), l.pos)
			} else {
				fatal("%s: panics never|may|when E", l.pos)
			}
		case "modifies", "reads":
			if rest != "nothing" {
				c.Es = parseExprList(rest, l.pos)
			}
		case "let":
			// let x := e ; available in the following clauses (evaluated in the pre state)
			p := &parser{toks: lex(rest, l.pos), src: rest, pos: l.pos}
			c.Label = p.next().s
			p.expect(":=")
			c.E = p.expr(0)
		case "assign", "limit":
			// limit channel := end of the allocator's section
			// assign loc := expr (functional effect)
			p := &parser{toks: lex(rest, l.pos), src: rest, pos: l.pos}
			loc := p.expr(0)
			p.expect(":=")
			v := p.expr(0)
			if p.peek().k != "eof" {
				fatal("%s: trailing tokens in %q", l.pos, rest)
			}
			c.Es = []*Expr{loc, v}
		default:
			fatal("%s: unknown clause %q", l.pos, word)
		}
		cur.Clauses = append(cur.Clauses, c)
	}
}

func parseFuncHead(s, pkg, pos string) *FuncSpec {
	p := &parser{toks: lex(s, pos), src: s, pos: pos}
	fs := &FuncSpec{Pkg: pkg, Pos: pos, Flags: map[string]bool{}}
	if p.accept("(") {
		n := p.next().s
		fs.Params = append(fs.Params, n)
		fs.Recv = p.typ()
		fs.PTypes = append(fs.PTypes, fs.Recv)
		p.expect(")")
	}
	fs.Name = p.next().s
	for p.accept(".") {
		fs.Name += "." + p.next().s
	}
	// slashes in package paths of externs: use quoted string
	p.expect("(")
	list := func() (ns, ts []string) {
		for !p.is(")") {
			n := p.next().s
			ns = append(ns, n)
			if p.is(",") || p.is(")") {
				ts = append(ts, "")
			} else {
				if p.accept(".") { // variadic ...
					p.accept(".")
					p.accept(".")
				} else if p.accept("..") {
					p.accept(".")
				}
				ts = append(ts, p.typ())
			}
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		// group types: "a, b int"
		for i := len(ts) - 2; i >= 0; i-- {
			if ts[i] == "" {
				ts[i] = ts[i+1]
			}
		}
		return
	}
	ns, ts := list()
	fs.Params = append(fs.Params, ns...)
	fs.PTypes = append(fs.PTypes, ts...)
	if p.accept("(") {
		rs, _ := list()
		fs.Results = rs
	}
	if p.peek().k != "eof" {
		fatal("%s: trailing tokens in contract head %q", pos, s)
	}
	r := strings.TrimPrefix(fs.Recv, "*")
	if r != "" {
		fs.Key = pkg + "." + r + "." + fs.Name
	} else {
		fs.Key = pkg + "." + fs.Name
	}
	return fs
}

func (fs *FuncSpec) hasProp(p string) bool {
	for _, q := range fs.Props {
		if q == p {
			return true
		}
	}
	return false
}
