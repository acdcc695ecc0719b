package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program: every non-test package of the module at -repo.
type Prog struct {
	invokedMemo map[*ssa.Function]bool
	keyPlace    map[string][2]int
	repo        string
	pkgs        []*packages.Package
	prog        *ssa.Program
	fset        *token.FileSet
	ssapkgs     []*ssa.Package
	mod         string
	fns         []*ssa.Function // all module functions with bodies, incl. anonymous
	inMod       map[*ssa.Function]bool
	sizes       types.Sizes
	root        *ssa.Package // package skiplistmap
	rmap        *ssa.Package
}

func repoEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.Index(e+"=", "=")]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GOOS", "GOARCH", "GO111MODULE", "PATH", "GOEXPERIMENT":
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.23.12/bin/go"); err == nil {
		path = "/opt/veriftools/go1.23.12/bin:" + path
	}
	env = append(env, "PATH="+path, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

func load(repo string) (*Prog, error) {
	env := repoEnv()
	for _, e := range env {
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", e[5:])
		}
	}
	if _, err := exec.LookPath("go"); err != nil {
		return nil, fmt.Errorf("no go command: %v", err)
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Env:  env,
		Fset: fset,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Types == nil || p.TypesInfo == nil || len(p.Syntax) == 0 {
			errs = append(errs, "package "+p.PkgPath+" has no syntax or types")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	P := &Prog{repo: repo, pkgs: pkgs, fset: fset, inMod: map[*ssa.Function]bool{}}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P.prog = prog
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		s.Build()
		P.ssapkgs = append(P.ssapkgs, s)
		if pkgs[i].Module != nil {
			P.mod = pkgs[i].Module.Path
		}
		if P.sizes == nil {
			P.sizes = pkgs[i].TypesSizes
		}
	}
	if P.mod == "" {
		return nil, fmt.Errorf("no module path")
	}
	for _, s := range P.ssapkgs {
		if s.Pkg.Path() == P.mod {
			P.root = s
		}
		if s.Pkg.Path() == P.mod+"/rmap" {
			P.rmap = s
		}
	}
	if P.root == nil {
		return nil, fmt.Errorf("root package %s not found", P.mod)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if P.isModFn(fn) && len(fn.Blocks) > 0 {
			P.inMod[fn] = true
			P.fns = append(P.fns, fn)
		}
	}
	// AllFunctions only follows reachable ones: add every declared member and method
	for _, s := range P.ssapkgs {
		for _, m := range s.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.addFn(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							P.addFn(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(P.fns, func(i, j int) bool {
		a, b := P.fns[i], P.fns[j]
		if a.Pos() != b.Pos() {
			pa, pb := fset.Position(a.Pos()), fset.Position(b.Pos())
			if pa.Filename != pb.Filename {
				return pa.Filename < pb.Filename
			}
			if pa.Offset != pb.Offset {
				return pa.Offset < pb.Offset
			}
		}
		return a.String() < b.String()
	})
	return P, nil
}

func (P *Prog) addFn(fn *ssa.Function) {
	if fn == nil || P.inMod[fn] || len(fn.Blocks) == 0 || !P.isModFn(fn) {
		return
	}
	P.inMod[fn] = true
	P.fns = append(P.fns, fn)
	for _, a := range fn.AnonFuncs {
		P.addFn(a)
	}
}

func (P *Prog) isModFn(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return P.isModPkg(fn.Pkg.Pkg)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return P.isModPkg(fn.Object().Pkg())
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return P.isModFn(fn.Origin())
	}
	return false
}

func (P *Prog) isModPkg(p *types.Package) bool {
	return p != nil && (p.Path() == P.mod || strings.HasPrefix(p.Path(), P.mod+"/"))
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	rel, err := filepath.Rel(P.repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (P *Prog) instrPos(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		// nearest instruction of the block with a position
		for _, j := range i.Block().Instrs {
			if j.Pos().IsValid() {
				p = j.Pos()
			}
			if j == i && p.IsValid() {
				break
			}
		}
	}
	if !p.IsValid() {
		return fname(i.Parent())
	}
	return P.pos(p)
}

func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/kazu/skiplistmap/", "")
	s = strings.ReplaceAll(s, "github.com/kazu/skiplistmap.", "")
	s = strings.ReplaceAll(s, "github.com/kazu/skiplistmap", "skiplistmap")
	return s
}

// method looks up a method (declared or promoted) of named type in pkg.
func (P *Prog) method(pkg *ssa.Package, typ, name string) *ssa.Function {
	t := pkg.Type(typ)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		sel := P.prog.MethodSets.MethodSet(tt).Lookup(pkg.Pkg, name)
		if sel != nil {
			return P.prog.MethodValue(sel)
		}
	}
	return nil
}
