package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// repoDir is the analysed tree; only development runs on scratch copies override it.
var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

const modPath = "github.com/phoreproject/bls"

// Prog is one build configuration of the repository in SSA form.
type Prog struct {
	arch  string
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package
	tpk   []*packages.Package
	sizes types.Sizes
	loops map[*ssa.Function]*LoopInfo
	mu    sync.Mutex          // guards loops
	files map[string][]string // package path -> other (assembly) files
}

func loadProg(arch string) (*Prog, error) {
	env := append(os.Environ(), "CGO_ENABLED=0", "GOOS=linux", "GOARCH="+arch, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir,
		Env: env,
	}
	pk, err := packages.Load(cfg, "./", "./g1pubs", "./g2pubs")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("loading: %v", errs)
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	P := &Prog{arch: arch, prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, tpk: pk,
		sizes: types.SizesFor("gc", arch), loops: map[*ssa.Function]*LoopInfo{}, files: map[string][]string{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	for _, p := range pk {
		P.files[p.PkgPath] = p.OtherFiles
		if sp := P.pkgs[p.PkgPath]; sp != nil {
			sp.Build()
		}
	}
	return P, nil
}

// fn finds a function or method by short name: "MillerLoop", "(FQ).Exp",
// "(*FQ).MulAssign"; methods are found on either receiver form.
func (P *Prog) fn(pkg, name string) *ssa.Function {
	sp := P.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method finds the declared method of a named type (value or pointer receiver).
func (P *Prog) method(pkg, typ, name string) *ssa.Function {
	sp := P.pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	nt := t.Type().(*types.Named)
	for i := 0; i < nt.NumMethods(); i++ {
		if m := nt.Method(i); m.Name() == name {
			return P.prog.FuncValue(m)
		}
	}
	return nil
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if len(f) > len(repoDir) && f[:len(repoDir)+1] == repoDir+"/" {
		f = f[len(repoDir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
