package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	prog   *ssa.Program
	pkgs   []*packages.Package
	ssa    []*ssa.Package
	byName map[string]*types.Package // short name and path -> package
	funcs  map[string]*ssa.Function  // key -> function
	repo   map[*types.Package]bool
	keys   []string
}

const loadMode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
	packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: loadMode,
		Dir:  dir,
		Env:  append(os.Environ(), "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	nerr := 0
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			nerr++
		}
	}
	if nerr > 0 {
		return nil, fmt.Errorf("%d errors loading %s", nerr, dir)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	p := &Program{
		prog: prog, pkgs: pkgs,
		byName: map[string]*types.Package{},
		funcs:  map[string]*ssa.Function{},
		repo:   map[*types.Package]bool{},
	}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		sp.Build()
		p.ssa = append(p.ssa, sp)
		p.repo[sp.Pkg] = true
	}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		p.byName[path] = sp.Pkg
		if _, ok := p.byName[sp.Pkg.Name()]; !ok || p.repo[sp.Pkg] || len(path) < len(p.byName[sp.Pkg.Name()].Path()) && !p.repo[p.byName[sp.Pkg.Name()]] {
			p.byName[sp.Pkg.Name()] = sp.Pkg
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && p.repo[fn.Pkg.Pkg] || fn.Origin() != nil && fn.Origin().Pkg != nil && p.repo[fn.Origin().Pkg.Pkg] {
			k := funcKey(fn)
			if fn.Synthetic != "" && fn.Origin() == nil && fn.Name() != "init" {
				continue
			}
			p.funcs[k] = fn
		}
	}
	// generic functions that are not reached by AllFunctions
	for _, sp := range p.ssa {
		for _, m := range sp.Members {
			if fn, ok := m.(*ssa.Function); ok {
				if _, have := p.funcs[funcKey(fn)]; !have {
					p.funcs[funcKey(fn)] = fn
				}
			}
		}
	}
	for k := range p.funcs {
		p.keys = append(p.keys, k)
	}
	sort.Strings(p.keys)
	return p, nil
}

func qualifier(p *types.Package) string { return p.Name() }

// funcKey names a function: pkg.F, pkg.(*T).M, pkg.T.M, pkg.F[inst], pkg.F$1
func funcKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return funcKey(fn.Parent()) + n
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	}
	pn := "?"
	if pkg != nil {
		pn = pkg.Name()
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		ptr := false
		if pt, ok := t.(*types.Pointer); ok {
			ptr = true
			t = pt.Elem()
		}
		name := types.TypeString(t, func(*types.Package) string { return "" })
		if ptr {
			return fmt.Sprintf("%s.(*%s).%s", pn, name, fn.Name())
		}
		return fmt.Sprintf("%s.%s.%s", pn, name, fn.Name())
	}
	if len(fn.TypeArgs()) > 0 {
		var as []string
		for _, a := range fn.TypeArgs() {
			as = append(as, types.TypeString(a, qualifier))
		}
		base := fn.Name()
		if i := strings.Index(base, "["); i >= 0 {
			base = base[:i]
		}
		return fmt.Sprintf("%s.%s[%s]", pn, base, strings.Join(as, ","))
	}
	return pn + "." + fn.Name()
}
