package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// deadline bounds the whole verification; obligations not decided by then count as undischarged
var deadline time.Time

func pastDeadline() bool { return !deadline.IsZero() && time.Now().After(deadline) }

type finding struct {
	obligation string
	what       string
}

func loadFindings(file, prop string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		if !strings.HasPrefix(rest, "obligation=\"") {
			continue
		}
		rest = rest[len("obligation=\""):]
		i := strings.Index(rest, "\"")
		if i < 0 {
			continue
		}
		fs = append(fs, finding{rest[:i], strings.TrimSpace(rest[i+1:])})
	}
	return fs
}

// runCheck is the registered check of one property: verify, compare with the recorded findings,
// replay failures against the real code, write the evidence.
func runCheck(repo, verif, prop, tier string) int {
	start := time.Now()
	budget := 480 * time.Second
	if tier == "thorough" {
		budget = 1500 * time.Second
	}
	deadline = start.Add(budget)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0755)
	evFile := filepath.Join(evDir, prop+".json")
	replayFile := filepath.Join(evDir, prop+"-violation.txt")
	os.Remove(replayFile)
	var rep strings.Builder
	var bad, known []string
	type ev = map[string]interface{}
	cov := ev{"checker_cmd": "bash /verif/check.sh " + prop + " " + tier}
	var assumptions []string
	w, err := loadWorld(repo, filepath.Join(verif, "specs"))
	if err != nil {
		bad = append(bad, "load")
		fmt.Fprintf(&rep, "the source does not load: %v\n", err)
	} else {
		pr := verifyProp(w, prop, "")
		if tier == "thorough" {
			crossCheck(pr, cov)
		}
		fs := loadFindings(filepath.Join(verif, "known_findings.txt"), prop)
		isKnown := func(n string) *finding {
			for i := range fs {
				if fs[i].obligation == n {
					return &fs[i]
				}
			}
			return nil
		}
		total, disch := 0, 0
		byBack := map[string]int{}
		secsBack := map[string]float64{}
		kinds := map[string]int{}
		var funcs, failed []string
		inl, ext, notes := map[string]bool{}, map[string]bool{}, map[string]bool{}
		pruneN, genS := 0, 0.0
		knownSeen := map[string]bool{}
		for _, r := range pr.roots {
			nf := 0
			for _, o := range r.obs {
				total++
				kinds[o.Kind]++
				if o.Status == "proved" {
					disch++
					byBack[o.Backend]++
					secsBack[o.Backend] += o.Secs
					continue
				}
				nf++
				if k := isKnown(o.Name); k != nil {
					if !knownSeen[o.Name] {
						knownSeen[o.Name] = true
						known = append(known, o.Name+": "+k.what)
					}
					continue
				}
				bad = append(bad, o.Name)
				fmt.Fprintf(&rep, "FAILED OBLIGATION %s\n  contract at %s\n  verdict: %s by %s (%.2fs)\n", o.Name, o.Where, o.Status, o.Backend, o.Secs)
				if o.Trace != "" {
					fmt.Fprintf(&rep, "  path: %s\n", o.Trace)
				}
				if len(bad) <= 3 && o.Model != "" {
					fmt.Fprintf(&rep, "  solver output:\n%s\n", o.Model)
				}
			}
			if r.failed != "" {
				nf++
				n := r.spec.Key + "/generation"
				if k := isKnown(n); k != nil {
					known = append(known, n+": "+k.what)
				} else {
					bad = append(bad, n)
					fmt.Fprintf(&rep, "FAILED OBLIGATION %s\n  the obligations of this function could not be generated: %s\n", n, r.failed)
				}
			}
			d := fmt.Sprintf("%s (%d obligations)", r.spec.Key, len(r.obs))
			if nf > 0 {
				failed = append(failed, d)
			} else {
				funcs = append(funcs, d)
			}
			for k := range r.inl {
				inl[k] = true
			}
			for k := range r.ext {
				ext[k] = true
			}
			for k := range r.notes {
				notes[k] = true
			}
			pruneN += r.pruneN
			genS += r.secs
		}
		for _, m := range pr.missing {
			bad = append(bad, m+"/missing")
			fmt.Fprintf(&rep, "FAILED OBLIGATION %s/missing\n  the function under contract does not exist with the contracted signature\n", m)
		}
		if total == 0 {
			bad = append(bad, "vacuous")
			fmt.Fprintf(&rep, "no obligations were generated\n")
		}
		cov["obligations"] = total
		cov["discharged"] = disch
		cov["functions_under_contract"] = funcs
		cov["functions_not_proved"] = failed
		cov["bodies_inlined_into_roots"] = sortedKeys(inl)
		cov["discharged_by_back_end"] = byBack
		for k := range secsBack {
			secsBack[k] = float64(int(secsBack[k]*100)) / 100
		}
		cov["solver_seconds_by_back_end"] = secsBack
		cov["obligations_by_kind"] = kinds
		cov["path_feasibility_queries"] = pruneN
		cov["generation_seconds"] = float64(int(genS*100)) / 100
		tb := []string{
			"gover (/verif/gover): SSA of /repo's current source -> verification conditions",
			"golang.org/x/tools go/packages, go/types, go/ssa",
			"z3 5.3.2, cvc5 1.1.2, z3 4.8.12 (first to answer unsat decides)",
		}
		for k := range ext {
			tb = append(tb, "assumed: "+k)
		}
		sort.Strings(tb[3:])
		cov["trusted_base"] = tb
		var ax []string
		for _, a := range w.specs.Axioms {
			ax = append(ax, a.Name)
		}
		cov["axioms_in_scope"] = ax
		assumptions = append(assumptions, sortedKeys(notes)...)
	}
	assumptions = append(assumptions,
		"machine integers are mathematical integers with explicit wrap-around (or bit vectors where the contract says mode bv); amd64 layout",
		"IEEE floats follow SMT-LIB FloatingPoint, except that all NaNs are one value (payload bits are not modelled)",
		"the garbage collector, stack growth and allocation failure (out of memory) are not modelled",
		"a contract speaks about one call whose inputs satisfy its precondition; data races are covered by M09 and R04 only")
	viol := 0
	code := 0
	if len(bad) > 0 {
		viol = len(bad)
		code = 1
		head := fmt.Sprintf("property %s: %d obligation(s) failed\n", prop, len(bad))
		input, out := replay(repo, verif, prop)
		tail := " no-failing-input-found"
		if input != "" {
			tail = ""
			head += "failing input on the real code: " + input + "\n"
		} else {
			head += "no failing input found by the replay driver\n"
		}
		os.WriteFile(replayFile, []byte(head+"\n"+rep.String()+"\n--- replay driver output ---\n"+out), 0644)
		seen := map[string]bool{}
		for _, b := range bad {
			if !seen[b] {
				seen[b] = true
				fmt.Printf("failed obligation: %s\n", b)
			}
		}
		if input != "" {
			fmt.Printf("failing input: %s\n", input)
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, replayFile, tail)
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	j := ev{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": viol}
	b, _ := json.MarshalIndent(j, "", " ")
	if err := os.WriteFile(evFile, b, 0644); err != nil {
		fmt.Printf("cannot write evidence: %v\n", err)
	}
	if code == 0 {
		fmt.Printf("property %s: %v of %v obligations discharged\n", prop, cov["discharged"], cov["obligations"])
	}
	return code
}

// crossCheck (thorough tier): every obligation discharged by an SMT solver is decided a second time by another one
func crossCheck(pr *propResult, cov map[string]interface{}) {
	dir, err := os.MkdirTemp("", "gover")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	seen := map[string]string{}
	agree, undecided, disagree := 0, 0, 0
	for _, r := range pr.roots {
		for _, o := range r.obs {
			if o.Status != "proved" || o.text == "" || pastDeadline() {
				continue
			}
			if _, ok := seen[o.text]; ok {
				continue
			}
			f := filepath.Join(dir, "x.smt2")
			os.WriteFile(f, []byte(o.text+"(check-sat)\n"), 0644)
			res := "unknown"
			for i := range backends {
				if backends[i].name == o.Backend {
					continue
				}
				if r, _ := runBackend(backends[i], f, 5); r == "sat" || r == "unsat" {
					res = r
					break
				}
			}
			seen[o.text] = res
			switch res {
			case "unsat":
				agree++
			case "sat":
				disagree++
				o.Status = "failed"
				o.Model = "solvers disagree"
			default:
				undecided++
			}
		}
	}
	cov["cross_checked_by_second_solver"] = map[string]int{"agree": agree, "second_solver_undecided": undecided, "disagree": disagree}
}

// replay runs the property's executable oracle against the real code, looking for a failing input
func replay(repo, verif, prop string) (string, string) {
	files, _ := filepath.Glob(filepath.Join(verif, "replay", prop, "*", "*_test.go"))
	if len(files) == 0 {
		return "", "no replay driver for this property"
	}
	tmp, err := os.MkdirTemp("", "replay")
	if err != nil {
		return "", err.Error()
	}
	defer os.RemoveAll(tmp)
	pkgs := map[string]bool{}
	ov := map[string]string{}
	for _, f := range files {
		d := filepath.Base(filepath.Dir(f)) // root, bytewriter, mmvdump
		pkg := "."
		if d != "root" {
			pkg = "./" + d
		}
		pkgs[pkg] = true
		ov[filepath.Join(repo, pkg, "verifreplay_"+filepath.Base(f))] = f
		com := filepath.Join(verif, "replay", "common", d+"_test.go")
		if _, err := os.Stat(com); err == nil {
			ov[filepath.Join(repo, pkg, "verifreplay_common_test.go")] = com
		}
	}
	// the repository's own tests stay out of the build
	for pkg := range pkgs {
		own, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
		for _, o := range own {
			if _, ok := ov[o]; !ok {
				ov[o] = ""
			}
		}
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0644)
	var log bytes.Buffer
	for _, pkg := range sortedKeys(pkgs) {
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
		race := "-race=false"
		if prop == "M09" || prop == "R04" {
			race = "-race"
		}
		c := exec.CommandContext(ctx, "go", "test", race, "-overlay", of, "-vet=off", "-count=1", "-timeout=150s", "-run", "^TestReplay", pkg)
		c.Dir = repo
		os.Mkdir(filepath.Join(tmp, "t"), 0755)
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "TMPDIR="+filepath.Join(tmp, "t"), "PCP_TMP_DIR="+filepath.Join(tmp, "t"))
		var out bytes.Buffer
		c.Stdout, c.Stderr = &out, &out
		c.WaitDelay = 5 * time.Second
		c.Run()
		cancel()
		s := out.String()
		if len(s) > 20000 {
			s = s[:20000]
		}
		log.WriteString(s)
		for _, l := range strings.Split(s, "\n") {
			if i := strings.Index(l, "FAILING-INPUT: "); i >= 0 {
				return strings.TrimSpace(l[i+len("FAILING-INPUT: "):]), log.String()
			}
		}
		if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
			r := s[i:]
			if len(r) > 1500 {
				r = r[:1500]
			}
			return "data race observed by the race detector:\n" + r, log.String()
		}
	}
	return "", log.String()
}
