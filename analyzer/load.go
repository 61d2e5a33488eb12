package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-form program under analysis.
type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  []*packages.Package
	ssa   map[string]*ssa.Package // by path
	root  string
	harn  *ssa.Package
	repo  map[*ssa.Package]bool
	byPkg map[string]*packages.Package
}

const harnessDir = "zz_jv_harness"

func loadProgram(root string, overlayDir string) (*Program, error) {
	overlay := map[string][]byte{}
	ents, err := os.ReadDir(overlayDir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(overlayDir, e.Name()))
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(root, harnessDir, e.Name())] = b
	}
	fset := token.NewFileSet()
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	// work on copies of go.mod and go.sum, so that nothing is ever written to the repository
	tmp, err := os.MkdirTemp("", "jvmod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule | packages.NeedTypesSizes,
		Dir: root, Fset: fset, Overlay: overlay, Env: env,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
	}
	pkgs, err := packages.Load(cfg, "./...", "./"+harnessDir)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{fset: fset, prog: prog, pkgs: pkgs, ssa: map[string]*ssa.Package{}, root: root,
		repo: map[*ssa.Package]bool{}, byPkg: map[string]*packages.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ssa[pkgs[i].PkgPath] = sp
		p.byPkg[pkgs[i].PkgPath] = pkgs[i]
		p.repo[sp] = true
		if strings.HasSuffix(pkgs[i].PkgPath, "/"+harnessDir) {
			p.harn = sp
		}
	}
	for _, sp := range prog.AllPackages() {
		if p.ssa[sp.Pkg.Path()] == nil {
			p.ssa[sp.Pkg.Path()] = sp
		}
	}
	for sp := range p.repo {
		sp.Build()
	}
	if p.harn == nil {
		return nil, fmt.Errorf("harness package not loaded")
	}
	return p, nil
}

// pos formats a position relative to the repository.
func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f, err := filepath.Rel(p.root, q.Filename)
	if err != nil || strings.HasPrefix(f, "..") {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) isHarness(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f.Pkg == nil {
		if f.Parent() != nil {
			return p.isHarness(f.Parent())
		}
		return strings.Contains(f.String(), harnessDir)
	}
	return f.Pkg == p.harn
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	typeKeys[t] = k
	return k
}

func sortedPkgs(m map[*ssa.Package]bool) []*ssa.Package {
	var r []*ssa.Package
	for p := range m {
		r = append(r, p)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pkg.Path() < r[j].Pkg.Path() })
	return r
}
