package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// nonNilFields: map fields of package structs that every constructor fills with a new map and nobody resets to nil.
// Objects built by the user without the constructor are outside the contract of the types that have one.
func nonNilFields(m *Module) map[string]bool {
	ok := map[string]bool{}
	bad := map[string]bool{}
	key := func(t types.Type, f int) string { return fmt.Sprintf("%s.%d", shortType(t), f) }
	mapFields := func(t types.Type) []int {
		var out []int
		if n, isN := t.(*types.Named); isN && n.Obj().Pkg() == m.Pkg.Types {
			if u, isS := t.Underlying().(*types.Struct); isS {
				for i := 0; i < u.NumFields(); i++ {
					if _, isM := u.Field(i).Type().Underlying().(*types.Map); isM {
						out = append(out, i)
					}
				}
			}
		}
		return out
	}
	var fns []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil {
			return
		}
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, mem := range m.SSA.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			walk(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := m.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == m.SSA {
						walk(f)
					}
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					t := elemType(x.Type())
					for _, i := range mapFields(t) {
						set := false
						for _, ref := range *x.Referrers() {
							if fa, isF := ref.(*ssa.FieldAddr); isF && fa.Field == i {
								for _, r2 := range *fa.Referrers() {
									if st, isS := r2.(*ssa.Store); isS && st.Addr == fa {
										set = true
									}
								}
							}
							set = set || filledBy(ref, x, i, 0)
						}
						if set {
							ok[key(t, i)] = true
						} else {
							bad[key(t, i)] = true
						}
					}
				case *ssa.Store:
					if fa, isF := x.Addr.(*ssa.FieldAddr); isF {
						t := elemType(fa.X.Type())
						for _, i := range mapFields(t) {
							if i == fa.Field && maybeNilMap(x.Val) {
								bad[key(t, i)] = true
							}
						}
					}
				}
			}
		}
	}
	for k := range bad {
		delete(ok, k)
	}
	return ok
}

// filledBy: the instruction calls a function that fills the field of the object on every way
func filledBy(in ssa.Instruction, x ssa.Value, field, depth int) bool {
	c, ok := in.(*ssa.Call)
	if !ok || depth > 3 {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	for n, a := range c.Call.Args {
		if a != x || n >= len(f.Params) {
			continue
		}
		for _, ref := range *f.Params[n].Referrers() {
			if everyWay(ref.Block()) && filledBy(ref, f.Params[n], field, depth+1) {
				return true
			}
			fa, ok := ref.(*ssa.FieldAddr)
			if !ok || fa.Field != field {
				continue
			}
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa && everyWay(st.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// everyWay: every return of the function comes after the block
func everyWay(b *ssa.BasicBlock) bool {
	for _, x := range b.Parent().Blocks {
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && x != b && !b.Dominates(x) && x != b.Parent().Recover {
			return false
		}
	}
	return true
}

func maybeNilMap(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap:
		return false
	case *ssa.ChangeType:
		return maybeNilMap(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if maybeNilMap(e) {
				return true
			}
		}
		return false
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(r.Results) != 1 || maybeNilMap(r.Results[0]) {
						return true
					}
				}
			}
			return false
		}
	case *ssa.UnOp:
		// the same field of another object, or a local that is only filled with new maps
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a && maybeNilMap(st.Val) {
					return true
				}
			}
			return false
		}
	}
	return true
}

func (m *Module) nonNil(t types.Type, f int) bool {
	if m.nnf == nil {
		m.nnf = nonNilFields(m)
	}
	return m.nnf[fmt.Sprintf("%s.%d", shortType(t), f)]
}
