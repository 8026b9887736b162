package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "contract files")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "only this root")
	verbose := flag.Bool("v", false, "print obligations")
	dump := flag.String("dump", "", "dump failed queries to this directory")
	evid := flag.String("evidence", "", "evidence file")
	rep := flag.String("report", "", "report file for failed obligations")
	verif := flag.String("verif", "/verif", "directory of specs, replay drivers, evidence")
	check := flag.String("check", "", "run the registered check of this property")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.BoolVar(&debugLoop, "debugloop", false, "loops")
	rp := flag.String("replay", "", "only run the replay driver of this property")
	flag.Parse()
	if *rp != "" {
		in, out := replay(*repo, *verif, *rp)
		fmt.Printf("%s\nfailing input: %q\n", out, in)
		return
	}
	if *check != "" {
		os.Exit(runCheck(*repo, *verif, *check, *tier))
	}
	w, err := loadWorld(*repo, *specs)
	if err != nil {
		fatal("cannot load %s: %v", *repo, err)
	}
	pr := verifyProp(w, *prop, *only)
	os.Exit(report(w, *prop, pr, *verbose, *dump, *evid, *rep))
}

func report(w *World, prop string, pr *propResult, verbose bool, dump, evid, rep string) int {
	bad := 0
	n := 0
	for _, r := range pr.roots {
		if r.failed != "" {
			bad++
			fmt.Printf("FAILED %s: %s\n", r.spec.Key, r.failed)
		}
		seen := map[string]bool{}
		for _, o := range r.obs {
			n++
			if o.Status != "proved" {
				bad++
				if !seen[o.Name] || verbose {
					fmt.Printf("%s %s [%s] %s\n", o.Status, o.Name, o.Where, o.Backend)
				}
				seen[o.Name] = true
				if dump != "" {
					os.WriteFile(fmt.Sprintf("%s/ob%d.smt2", dump, bad), []byte("; "+o.Name+"\n"+o.text+"(check-sat)\n(get-model)\n"), 0644)
					os.WriteFile(fmt.Sprintf("%s/ob%d.txt", dump, bad), []byte(o.Name+"\n"+o.Model), 0644)
				}
			} else if verbose {
				fmt.Printf("ok %s %s %.2fs\n", o.Name, o.Backend, o.Secs)
			}
		}
	}
	for _, m := range pr.missing {
		fmt.Printf("MISSING %s\n", m)
		bad++
	}
	fmt.Printf("property %s: %d roots, %d obligations, %d bad\n", prop, len(pr.roots), n, bad)
	if bad > 0 {
		return 1
	}
	return 0
}
