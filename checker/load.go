package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is one analysed module of the repository: its type-checked package and its SSA form.
type Module struct {
	Name   string // "v1" or "v2"
	Dir    string
	Pkg    *packages.Package
	SSA    *ssa.Package
	Prog   *ssa.Program
	nnf    map[string]bool // map fields that are never nil
	regs   map[string]*ssa.Const
	derefs map[*ssa.Function][]bool
	names  map[string]*ssa.Function
}

func repoDir() string {
	if d := os.Getenv("XVERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// loadModule type-checks the package in dir from its current source and builds its SSA form.
// The go command works on copies of go.mod and go.sum, so that the tracked files are never rewritten.
func loadModule(name, dir string, scratch string) (*Module, error) {
	mod, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	var sums []string
	for _, f := range []string{filepath.Join(dir, "go.sum"), filepath.Join(repoDir(), "go.sum"), filepath.Join(repoDir(), "v2", "go.sum")} {
		b, err := os.ReadFile(f)
		if err == nil {
			sums = append(sums, strings.Split(strings.TrimSpace(string(b)), "\n")...)
		}
	}
	sort.Strings(sums)
	uniq := sums[:0]
	for i, s := range sums {
		if s != "" && (i == 0 || s != sums[i-1]) {
			uniq = append(uniq, s)
		}
	}
	mf := filepath.Join(scratch, name+".mod")
	if err := os.WriteFile(mf, mod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(scratch, name+".sum"), []byte(strings.Join(uniq, "\n")+"\n"), 0o644); err != nil {
		return nil, err
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GOFLAGS=-mod=mod -modfile="+mf)
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  env,
		Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, fmt.Errorf("load %s: %v", dir, err)
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("load %s: %d packages", dir, len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("load %s: %v", dir, pkgs[0].Errors[0])
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if spkgs[0] == nil {
		return nil, fmt.Errorf("load %s: no SSA", dir)
	}
	spkgs[0].Build()
	return &Module{Name: name, Dir: dir, Pkg: pkgs[0], SSA: spkgs[0], Prog: prog}, nil
}

// Named returns the named type of the package, or nil.
func (m *Module) Named(name string) *types.Named {
	o := m.Pkg.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method returns the SSA function of method name of *T, or nil.
func (m *Module) Method(typ, name string) *ssa.Function {
	n := m.Named(typ)
	if n == nil {
		return nil
	}
	sel := types.NewMethodSet(types.NewPointer(n)).Lookup(m.Pkg.Types, name)
	if sel == nil {
		return nil
	}
	return m.Prog.MethodValue(sel)
}

// Func returns a package level function, or nil.
func (m *Module) Func(name string) *ssa.Function { return m.SSA.Func(name) }

// ExportedMethods lists the exported methods of *T in name order.
func (m *Module) ExportedMethods(typ string) []*ssa.Function {
	var out []*ssa.Function
	n := m.Named(typ)
	if n == nil {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			if f := m.Prog.MethodValue(ms.At(i)); f != nil && f.Blocks != nil {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// Pos renders a position relative to the repository.
func (m *Module) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := m.Prog.Fset.Position(p)
	if r, err := filepath.Rel(repoDir(), q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}
