package main

import (
	"fmt"
	"go/types"
)

// elemPred is a property shared by all elements of a slice
type elemPred struct {
	kind  int        // 0 not nil, 1 at least 0, 2 less than ub
	ub    *Term      // bound
	field int        // of elements that are structs, 0 for the element itself, otherwise 1 more than the field
	typ   types.Type // of the field
}

func (p elemPred) String() string {
	switch p.kind {
	case 0:
		return "not nil"
	case 1:
		return ">= 0"
	}
	return fmt.Sprintf("< %s", p.ub.str(3))
}

// pointerLike: values of the type can be nil
func pointerLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return true
	}
	return false
}

func resultTerms(r *Term) []*Term {
	if r == nil {
		return nil
	}
	if r.Op == OTuple {
		return r.A
	}
	return []*Term{r}
}

func (e *Engine) predCond(p elemPred, v *Term) (*Term, bool) {
	if p.field > 0 {
		v = e.tt.Field(v, p.field-1, p.typ)
	}
	switch p.kind {
	case 0:
		return e.tt.Eq(v, e.tt.Nil()), false
	case 1:
		return e.tt.LeT(e.tt.Int(0), v), true
	}
	return e.tt.LtT(v, p.ub), true
}

func (e *Engine) predHolds(st *State, p elemPred, v *Term) bool {
	v = st.f.norm(v)
	c, val := e.predCond(p, v)
	if p.kind == 0 {
		if p.field > 0 {
			v = e.tt.Field(v, p.field-1, p.typ)
		}
		if st.f.nonNil(st.f.norm(v)) {
			return true
		}
	}
	return st.f.known(c, val)
}

// allElems: each element of the slice has the property
func (e *Engine) allElems(st *State, s *Term, p elemPred) bool {
	s = st.f.norm(s)
	if cc, ok := st.content[s]; ok {
		return e.allElems(st, cc, p)
	}
	switch s.Op {
	case ONil:
		return true
	case OZero:
		return true
	case OElem:
		return e.predHolds(st, p, s.A[0])
	case OSub:
		return e.allElems(st, s.A[0], p)
	case OCat:
		for _, x := range s.A {
			if !e.allElems(st, x, p) {
				return false
			}
		}
		return true
	case OPure:
		if s.S == "copyof" {
			return e.allElems(st, s.A[0], p)
		}
	}
	for _, q := range st.elems[s] {
		if q == p || q.kind == 2 && p.kind == 2 && q.field == p.field && st.f.known(e.tt.LeT(q.ub, p.ub), true) {
			return true
		}
	}
	return false
}

// elemFacts: r was read from the slice b
func (e *Engine) elemFacts(st *State, b, r *Term) {
	use := func(ps []elemPred) {
		for _, p := range ps {
			c, v := e.predCond(p, r)
			st.f.assume(c, v)
		}
	}
	if ps := st.elems[b]; len(ps) > 0 {
		use(ps)
		return
	}
	if b.Op == OCat && len(st.elems) > 0 {
		for _, x := range b.A {
			base := seqBase(x)
			for _, p := range st.elems[base] {
				if e.allElems(st, b, p) {
					use([]elemPred{p})
				}
			}
		}
	}
}

// elemStore: an element of the slice is overwritten in place
func (e *Engine) elemStore(st *State, ia, a, v *Term) {
	ps := st.elems[ia.A[0]]
	if len(ps) == 0 {
		return
	}
	var keep []elemPred
	for _, p := range ps {
		if a == ia && e.predHolds(st, p, v) {
			keep = append(keep, p)
		}
	}
	st.elems[ia.A[0]] = keep
}

// candidates of properties of the elements of a slice of this type
func elemCandidates(t types.Type, bounds []*Term) []elemPred {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	of := func(t types.Type, field int) []elemPred {
		if pointerLike(t) {
			return []elemPred{{kind: 0, field: field, typ: t}}
		}
		if isIntType(t) {
			out := []elemPred{{kind: 1, field: field, typ: t}}
			for _, b := range bounds {
				out = append(out, elemPred{kind: 2, ub: b, field: field, typ: t})
			}
			return out
		}
		return nil
	}
	if u, ok := s.Elem().Underlying().(*types.Struct); ok {
		var out []elemPred
		for i := 0; i < u.NumFields() && i < 6; i++ {
			out = append(out, of(u.Field(i).Type(), i+1)...)
		}
		return out
	}
	return of(s.Elem(), 0)
}
