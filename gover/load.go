package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/performancecopilot/speed/v4"

type World struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // repo packages by name
	tpkgs   map[string]*types.Package
	sizes   types.Sizes
	overlay map[string]bool
	specs   *Specs
	fspec   map[*ssa.Function]*FuncSpec
	named   []*types.Named // all named types of the repo packages
	allFns  map[*ssa.Function]bool
	repo    string
	byKey   map[string]*ssa.Function
}

func loadWorld(repo, specDir string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOARCH=amd64", "GOOS=linux"),
	}
	ps, err := packages.Load(cfg, ".", "./bytewriter", "./mmvdump")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, overlay: map[string]bool{}, fspec: map[*ssa.Function]*FuncSpec{}, repo: repo, byKey: map[string]*ssa.Function{}}
	w.sizes = types.SizesFor("gc", "amd64")
	for _, sp := range spkgs {
		w.pkgs[sp.Pkg.Name()] = sp
	}
	for _, p := range prog.AllPackages() {
		if _, ok := w.tpkgs[p.Pkg.Name()]; !ok {
			w.tpkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	for n, sp := range w.pkgs {
		w.tpkgs[n] = sp.Pkg
	}
	w.allFns = ssautil.AllFunctions(prog)
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if n, ok := t.Type().(*types.Named); ok {
					w.named = append(w.named, n)
				}
			}
		}
	}
	sort.Slice(w.named, func(i, j int) bool { return w.named[i].String() < w.named[j].String() })
	for f := range w.allFns {
		if f.Pkg == nil || !w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Convert); ok {
					if bt, ok := under(c.X.Type()).(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						if pt, ok := under(c.Type()).(*types.Pointer); ok {
							w.overlay[typeKey(pt.Elem())] = true
						}
					}
				}
			}
		}
	}
	// struct types embedded by value in overlays are overlays too
	for ch := true; ch; {
		ch = false
		for _, n := range w.named {
			if w.overlay[typeKey(n)] {
				if s, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if fn, _, ok := isNamedStruct(s.Field(i).Type()); ok && !w.overlay[typeKey(fn)] {
							w.overlay[typeKey(fn)] = true
							ch = true
						}
					}
				}
			}
		}
	}
	w.specs = loadSpecs(specDir)
	w.bindSpecs()
	return w, nil
}

func (w *World) inRepo(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil {
		if f.Origin() != nil && f.Origin().Pkg != nil {
			p = f.Origin().Pkg
		} else if f.Parent() != nil {
			return w.inRepo(f.Parent())
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		} else {
			return false
		}
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (w *World) isOverlay(t types.Type) bool { return w.overlay[typeKey(types.Unalias(t))] }

func (w *World) offsetOf(s *types.Struct, i int) int64 {
	var fs []*types.Var
	for j := 0; j < s.NumFields(); j++ {
		fs = append(fs, s.Field(j))
	}
	return w.sizes.Offsetsof(fs)[i]
}
func (w *World) sizeOf(t types.Type) int64 { return w.sizes.Sizeof(t) }

// fnKey gives the contract key of a function
func fnKey(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f.Object() != nil {
		return objKey(f.Object().(*types.Func))
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	return f.String()
}

func objKey(o *types.Func) string {
	pk := ""
	if o.Pkg() != nil {
		pk = o.Pkg().Name()
	}
	sig := o.Type().(*types.Signature)
	if sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name()
			}
			return pk + "." + n.Obj().Name() + "." + o.Name()
		}
		return pk + ".?." + o.Name()
	}
	return pk + "." + o.Name()
}

// bindSpecs attaches contracts to functions
func (w *World) bindSpecs() {
	for f := range w.allFns {
		if f.Synthetic != "" && f.Object() != nil && f.Syntax() == nil && f.Pkg == nil {
			continue // wrappers
		}
		k := fnKey(f)
		if o, ok := w.byKey[k]; ok && o.Synthetic == "" {
			continue
		}
		if f.Synthetic != "" && !strings.Contains(k, "init") && f.Object() == nil {
			continue
		}
		w.byKey[k] = f
	}
	for k, fs := range w.specs.Funcs {
		if fs.Iface || fs.FType != "" {
			continue
		}
		f, ok := w.byKey[k]
		if !ok {
			continue
		}
		if len(f.Params) == len(fs.Params) && f.Signature.Results().Len() == len(fs.Results) {
			w.fspec[f] = fs
		} else if fs.Trusted {
			fmt.Fprintf(os.Stderr, "warning: extern contract %s has wrong arity\n", k)
		}
	}
}

// lookupType resolves type text in the scope of a package
func (w *World) lookupType(s, pkg string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(w.lookupType(s[1:], pkg))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(w.lookupType(s[2:], pkg))
	case strings.HasPrefix(s, "map["):
		d, i := 0, 3
		for ; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		return types.NewMap(w.lookupType(s[4:i], pkg), w.lookupType(s[i+1:], pkg))
	case strings.HasPrefix(s, "chan "):
		return types.NewChan(types.SendRecv, w.lookupType(s[5:], pkg))
	case s == "iface", s == "any", s == "interface{}":
		return types.NewInterfaceType(nil, nil)
	case s == "f64":
		return types.Typ[types.Float64]
	case s == "f32":
		return types.Typ[types.Float32]
	case s == "str":
		return types.Typ[types.String]
	case s == "mint", s == "ref":
		return nil
	}
	if k := strings.Index(s, "."); k >= 0 {
		p, n := s[:k], s[k+1:]
		if tp, ok := w.tpkgs[p]; ok {
			if o := tp.Scope().Lookup(n); o != nil {
				return o.Type()
			}
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if _, ok := o.(*types.TypeName); ok {
			return o.Type()
		}
	}
	if tp, ok := w.tpkgs[pkg]; ok {
		if o := tp.Scope().Lookup(s); o != nil {
			if _, ok := o.(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

// implementers lists repo types (T or *T) that implement an interface
func (w *World) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, n := range w.named {
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(n, it) {
			out = append(out, n)
		}
		if p := types.NewPointer(n); types.Implements(p, it) {
			out = append(out, p)
		}
	}
	return out
}
