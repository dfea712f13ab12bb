package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// EntryPoints lists every exported function and every exported method of an exported type.
func (m *Module) EntryPoints() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	sc := m.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		switch x := o.(type) {
		case *types.Func:
			add(m.SSA.Func(n))
		case *types.TypeName:
			if _, ok := x.Type().Underlying().(*types.Interface); ok {
				continue
			}
			for _, f := range m.ExportedMethods(n) {
				add(f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(m.Pkg.Types) < out[j].RelString(m.Pkg.Types) })
	return out
}
