package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// byteDefined gives the byte-extraction functions their arithmetic definition (theorems only;
// everywhere else they stay opaque, which is weaker and so sound)
var byteDefined bool

var noSums bool // leave out the axioms of sums (feasibility checks only)

var bvMode bool // machine integers are bit vectors

// dropZeroOffsets substitutes slice offsets that are asserted to be zero
func dropZeroOffsets(asserts []*Term) []*Term {
	m := map[*Term]*Term{}
	var find func(t *Term)
	find = func(t *Term) {
		if t.op == "and" {
			for _, a := range t.args {
				find(a)
			}
		}
		if t.op == "=" && len(t.args) == 2 {
			for i := 0; i < 2; i++ {
				z, o := t.args[i], t.args[1-i]
				if z.isInt() && z.val.Sign() == 0 && o.op == "select" && o.args[0].op == "sym" && strings.HasSuffix(o.args[0].name, ".off") {
					m[o] = z
				}
			}
		}
	}
	for _, a := range asserts {
		find(a)
	}
	if len(m) == 0 {
		return asserts
	}
	r := make([]*Term, len(asserts))
	for i, a := range asserts {
		r[i] = Subst(a, m)
	}
	return r
}

// Query renders the conjunction of asserts as an SMT-LIB script (without check-sat).
func queryText(asserts []*Term) string {
	asserts = dropZeroOffsets(asserts)
	// closure over facts
	var all []*Term
	seenA := map[*Term]bool{}
	seen := map[*Term]bool{}
	uses := map[*Term]int{}
	var order []*Term // post-order
	syms := map[string]*Term{}
	apps := map[string]*Term{}
	blits := []*Term{}
	lits := []*Term{}
	needByte := map[int]bool{}
	seqs := []*Term{}
	sums := []*Term{}
	sumsDone := 0
	var keys []*Term
	var le8 []*Term
	le8Done := 0
	var visit func(t *Term)
	var queue []*Term
	push := func(t *Term) {
		if !seenA[t] {
			seenA[t] = true
			queue = append(queue, t)
		}
	}
	visit = func(t *Term) {
		uses[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		switch t.op {
		case "sym":
			syms[t.name] = t
			if strings.HasPrefix(t.name, "skm!") {
				keys = append(keys, t)
			}
		case "app":
			key := t.name
			if o, ok := apps[key]; ok {
				if o.sort != t.sort || len(o.args) != len(t.args) {
					panic("app overloaded: " + key)
				}
			} else {
				apps[key] = t
			}
		case "const":
			if t.sort == SStr {
				lits = append(lits, t)
			}
		case "blit", "shiftarr", "hsplit", "strarr":
			blits = append(blits, t)
		case "bytek":
			needByte[int(t.val.Int64())] = true
			if t.val.Int64() == 7 && !t.hasB {
				le8 = append(le8, t.args[0])
			}
		case "seq_le", "seq_str", "seq_sub", "seq_zero":
			if !t.hasB {
				seqs = append(seqs, t)
			}
		}
		for _, f := range facts[t] {
			push(f)
		}
		if t.op == "app" && strings.HasPrefix(t.name, "def$") {
			push(opaqueAx[t.name])
		}
		if isSum(t) && !t.hasB {
			sums = append(sums, t)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		push(a)
	}
	blitDone := map[*Term]bool{}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		if t.op == "and" {
			for _, x := range t.args {
				push(x)
			}
			continue
		}
		all = append(all, t)
		visit(t)
		if len(queue) == 0 && apps["seqat"] != nil {
			for _, q := range seqs {
				if !blitDone[q] {
					blitDone[q] = true
					v := BoundVar("k", SInt)
					push(Forall([]*Term{v}, Eq(mk("app", SInt, "seqat", nil, q, v), SeqAt(q, v))))
				}
			}
		}
		if apps["unle8"] != nil && len(queue) == 0 {
			for ; le8Done < len(le8); le8Done++ {
				v := le8[le8Done]
				if v.op == "app" && v.name == "unle8" {
					continue
				}
				bs := make([]*Term, 8)
				for k := range bs {
					bs[k] = byteK(v, k)
				}
				push(Eq(mk("app", SInt, "unle8", nil, bs...), Mod(v, IB(pow2(64)))))
			}
		}
		for ; !noSums && sumsDone < len(sums) && len(queue) == 0; sumsDone++ {
			a := sums[sumsDone]
			for _, f := range sumAxioms(a) {
				push(f)
			}
			for _, k := range keys {
				for _, f := range sumMember(a, k) {
					push(f)
				}
			}
			for _, b := range sums[:sumsDone] {
				for _, f := range sumPair(a, b) {
					push(f)
				}
			}
		}
		for _, b := range blits {
			if !blitDone[b] && !b.hasB {
				blitDone[b] = true
				v := BoundVar("k", SInt)
				push(Forall([]*Term{v}, Eq(mk("select", b.sort.v, "", nil, b, v), Select(b, v))))
			}
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString("(declare-sort Str 0)\n(declare-sort BSeq 0)\n")
	num := "Int"
	if bvMode {
		num = "(_ BitVec 64)"
	}
	fmt.Fprintf(&b, "(declare-datatypes ((Iface 0)) (((inil) (inum (num_t Int) (num_v %s)) (istr (str_t Int) (str_v Str)) (if64 (f64_t Int) (f64_v Float64)) (if32 (f32_t Int) (f32_v Float32)) (ibool (bool_t Int) (bool_v Bool)) (iptr (ptr_t Int) (ptr_v Int)) (ioth (oth_t Int) (oth_v Int)))))\n", num)
	var names []string
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", quote(n), syms[n].sort.name)
	}
	names = nil
	for n := range apps {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := apps[n]
		var as []string
		for _, a := range t.args {
			as = append(as, a.sort.name)
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", quote(n), strings.Join(as, " "), t.sort.name)
	}
	needDiv := map[int]bool{}
	for k := range needByte {
		if byteDefined {
			q := func(k int) string {
				if k == 0 {
					return "v"
				}
				if !needDiv[k] {
					needDiv[k] = true
					fmt.Fprintf(&b, "(declare-fun divp%d (Int) Int)\n", k)
				}
				return fmt.Sprintf("(divp%d v)", k)
			}
			// divpK(v) is floor(v / 256^K)
			d := fmt.Sprintf("(- %s (* 256 %s))", q(k), q(k+1))
			fmt.Fprintf(&b, "(define-fun bytek%d ((v Int)) Int %s)\n", k, d)
			continue
		}
		fmt.Fprintf(&b, "(declare-fun bytek%d (Int) Int)\n", k)
	}
	if len(lits) > 0 {
		sort.Slice(lits, func(i, j int) bool { return lits[i].id < lits[j].id })
		var ns []string
		for _, l := range lits {
			fmt.Fprintf(&b, "(declare-const %s Str)\n", quote(l.name))
			ns = append(ns, quote(l.name))
		}
		if len(ns) > 1 {
			fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	for _, bl := range blits {
		if !bl.hasB {
			fmt.Fprintf(&b, "(declare-const blit!%d %s)\n", bl.id, bl.sort.name)
		}
	}
	for _, q := range seqs {
		fmt.Fprintf(&b, "(declare-const seq!%d BSeq)\n", q.id)
	}
	// shared subterms
	named := map[*Term]string{}
	var sub func(w *strings.Builder, t *Term)
	sub = func(w *strings.Builder, t *Term) {
		if (t.op == "blit" || t.op == "strarr" || t.op == "shiftarr" || t.op == "hsplit") && !t.hasB {
			fmt.Fprintf(w, "blit!%d", t.id)
			return
		}
		if n, ok := named[t]; ok {
			w.WriteString(n)
			return
		}
		if t.sort == SSeq && strings.HasPrefix(t.op, "seq_") && !t.hasB {
			fmt.Fprintf(w, "seq!%d", t.id)
			return
		}
		printTerm(w, t, func(x *Term) { sub(w, x) })
	}
	for _, t := range order {
		if uses[t] > 1 && len(t.args) > 0 && !t.hasB && t.op != "blit" && t.op != "strarr" && t.op != "shiftarr" && t.op != "hsplit" && t.sort != SSeq {
			var w strings.Builder
			sub(&w, t)
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.sort.name, w.String())
			named[t] = n
		}
	}
	for _, t := range all {
		var w strings.Builder
		sub(&w, t)
		fmt.Fprintf(&b, "(assert %s)\n", w.String())
	}
	return b.String()
}

// ---------------------------------------------------------------- interactive pruning solver

type pruner struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	n     int
	time  time.Duration
	cache map[string]string
}

func newPruner() *pruner {
	p := &pruner{cache: map[string]string{}}
	p.start()
	return p
}
func (p *pruner) start() {
	p.cmd = exec.Command("z3-new", "-in")
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReader(o)
	if err := p.cmd.Start(); err != nil {
		fatal("cannot start z3-new: %v", err)
	}
}

// check returns sat, unsat or unknown
func (p *pruner) check(asserts []*Term) string { return p.checkT(asserts, 400) }
func (p *pruner) checkT(asserts []*Term, ms int) string {
	for _, a := range asserts {
		if a == False {
			return "unsat"
		}
	}
	noSums = true
	q := queryText(asserts)
	noSums = false
	if r, ok := p.cache[q]; ok && (r != "unknown" || ms <= 400) {
		return r
	}
	st := time.Now()
	p.n++
	if d := os.Getenv("GOVER_DUMP_PRUNE"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/p%d.smt2", d, p.n), []byte(q+"(check-sat)\n"), 0644)
	}
	io.WriteString(p.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", ms)+q+"(check-sat)\n(echo \"<done>\")\n")
	res := "unknown"
	proc := p.cmd.Process
	watch := time.AfterFunc(time.Duration(3*ms+2000)*time.Millisecond, func() { proc.Kill() })
	defer watch.Stop()
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			p.cmd.Wait()
			p.start()
			break
		}
		l = strings.TrimSpace(l)
		if l == "<done>" {
			break
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		} else if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "PRUNER ERROR", l)
			os.WriteFile("/tmp/gover_err.smt2", []byte(q), 0644)
			res = "unknown"
		}
	}
	p.time += time.Since(st)
	p.cache[q] = res
	return res
}
func (p *pruner) close() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

// ---------------------------------------------------------------- batch discharge

type Oblig struct {
	Name    string   // root/kind/label
	Props   []string // properties it serves
	Root    string
	Kind    string
	Where   string
	goal    *Term
	hyps    []*Term
	text    string
	Status  string // proved, failed, unknown
	Backend string
	Secs    float64
	Model   string
	Trace   string
	Sub     int // paths merged under this name
}

type backend struct {
	name string
	argv func(file string, secs int) []string
}

var backends = []backend{
	{"z3-5.3.2", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
	{"cvc5-1.1.2", func(f string, s int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", s*1000), "--produce-models", f}
	}},
	{"z3-4.8.12", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), f} }},
}

func runBackend(be backend, file string, secs int) (string, string) {
	a := be.argv(file, secs)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+5)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, a[0], a[1:]...)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	c.Run()
	s := out.String()
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	if first != "sat" && first != "unsat" {
		if first != "unknown" && first != "timeout" && !strings.Contains(s, "interrupted") && !strings.Contains(s, "timeout") {
			return "error", s
		}
		return "unknown", s
	}
	return first, s
}

// discharge runs all obligations with a worker pool.
func discharge(obs []*Oblig, dir string, secs int) {
	jobs := make(chan *Oblig)
	var wg sync.WaitGroup
	// texts must be built single-threaded (hash-consing is not concurrent)
	for _, o := range obs {
		if o.goal == True {
			o.Status, o.Backend = "proved", "simplifier"
			continue
		}
		if f := os.Getenv("GOVER_OB"); f != "" && o.Name != "loop invariant" && !strings.Contains(o.Name, f) { // development: only some obligations
			o.Status = "skipped"
			continue
		}
		for _, h := range o.hyps {
			if h == False {
				o.Status, o.Backend = "proved", "simplifier"
			}
		}
		if o.Status == "" {
			byteDefined = strings.HasPrefix(o.Root, "theorem:")
			o.text = queryText(append(append([]*Term{}, o.hyps...), Not(o.goal)))
		}
	}
	byText := map[string]*Oblig{}
	type dup struct{ a, b *Oblig }
	var dups []dup
	var todo []*Oblig
	for _, o := range obs {
		if o.Status != "" {
			continue
		}
		if f, ok := byText[o.text]; ok {
			dups = append(dups, dup{o, f})
			continue
		}
		byText[o.text] = o
		todo = append(todo, o)
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			f := fmt.Sprintf("%s/vc%d.smt2", dir, w)
			for o := range jobs {
				os.WriteFile(f, []byte(o.text+"(check-sat)\n"), 0644)
				st := time.Now()
				o.Status = "unknown"
				tries := []struct {
					b, s int
				}{{0, 2}, {1, secs}, {0, secs}, {2, secs}}
				if d := os.Getenv("GOVER_SECS"); d != "" { // development: one short try
					fmt.Sscan(d, &tries[0].s)
					tries = tries[:1]
				}
				if abs := absFloat(o.text); abs != "" {
					fa := f + ".abs.smt2"
					os.WriteFile(fa, []byte(abs+"(check-sat)\n"), 0644)
					if r, _ := runBackend(backends[0], fa, 5); r == "unsat" {
						o.Status, o.Backend = "proved", backends[0].name
						tries = nil
					}
				}
				for _, t := range tries {
					if pastDeadline() {
						break
					}
					r, msg := runBackend(backends[t.b], f, t.s)
					if r == "unsat" {
						o.Status, o.Backend = "proved", backends[t.b].name
						break
					}
					if r == "sat" {
						o.Status, o.Backend = "failed", backends[t.b].name
						break
					}
					if r == "error" && o.Model == "" {
						o.Model = msg
						if len(o.Model) > 2000 {
							o.Model = o.Model[:2000]
						}
					}
				}
				if o.Status != "proved" {
					os.WriteFile(f, []byte("(set-option :produce-models true)\n"+o.text+"(check-sat)\n(get-model)\n"), 0644)
					_, msg := runBackend(backends[0], f, 5)
					if len(msg) > 20000 {
						msg = msg[:20000]
					}
					o.Model += msg
				}
				o.Secs = time.Since(st).Seconds()
			}
		}(w)
	}
	for _, o := range todo {
		jobs <- o
	}
	close(jobs)
	wg.Wait()
	for _, d := range dups {
		d.a.Status, d.a.Backend, d.a.Model = d.b.Status, d.b.Backend, d.b.Model
	}
}

// absFloat replaces floating-point arithmetic by uninterpreted functions (sound for a proof)
func absFloat(q string) string {
	if !strings.Contains(q, "(fp.mul RNE ") && !strings.Contains(q, "(fp.div RNE ") && !strings.Contains(q, "(fp.add RNE ") {
		return ""
	}
	decl := ""
	for _, op := range []string{"add", "sub", "mul", "div"} {
		decl += "(declare-fun uf.f64." + op + " (Float64 Float64) Float64)\n"
		q = strings.ReplaceAll(q, "(fp."+op+" RNE ", "(uf.f64."+op+" ")
	}
	for _, op := range []string{"add", "mul"} {
		f := "uf.f64." + op
		if strings.Contains(q, "("+f+" ") {
			decl += "(assert (forall ((a Float64) (b Float64)) (! (= (" + f + " a b) (" + f + " b a)) :pattern ((" + f + " a b)))))\n"
		}
	}
	return strings.Replace(q, "(set-logic ALL)\n", "(set-logic ALL)\n"+decl, 1)
}

var opaqueAx = map[string]*Term{}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}
