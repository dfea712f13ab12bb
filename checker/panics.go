package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C21, C22: operations that can panic must be guarded ----

// panicRule names the rule an event is an instance of, and tells whether the operation is shown to be safe
func panicRule(ev *Ev) (rule, what string, safe, ok bool) {
	switch ev.Kind {
	case "index":
		return "index-in-range", "an index that can be out of range", ev.Mode == 1, true
	case "slicing":
		return "slice-in-range", "a slice expression that can be out of range", ev.Mode == 1, true
	case "assert":
		return "assertion-holds", "a type assertion that can fail", ev.Mode == 1, true
	case "mayniL":
		return "not-nil", ev.Name, false, true
	case "deref":
		return "not-nil", "", true, true
	case "maynilmap":
		return "map-not-nil", "a write to a map that can be nil", false, true
	case "mapput":
		return "map-not-nil", "", true, true
	case "div":
		return "divisor-not-zero", "a division by a value that can be zero", ev.Mode == 1, true
	case "makeneg":
		return "length-not-negative", "a slice made with a length that can be negative", ev.Mode == 1, true
	case "compare":
		return "comparable", "a comparison of two values of which both can be of a type that can not be compared", ev.Mode == 1, true
	case "panic":
		return "no-explicit-panic", "an explicit panic", false, true
	}
	return "", "", false, false
}

// needsNotNil tells which pointers given to a function it uses without asking whether they are nil
func (m *Module) needsNotNil(r *Report, f *ssa.Function) []bool {
	if m.derefs == nil {
		m.derefs = map[*ssa.Function][]bool{}
	}
	if x, ok := m.derefs[f]; ok {
		return x
	}
	x := make([]bool, len(f.Params))
	m.derefs[f] = x
	var args []*Term
	tmp := newReport(r.ID)
	tmp.analyse(m, f, Config{NilRecv: true, Opaque: func(g *ssa.Function) bool { return g != f && lookupFn(m, g) }, Record: func(st *State, ev *Ev) {
		var bad []*Term
		switch ev.Kind {
		case "mayniL":
			bad = ev.A[:1]
		case "call", "reccall":
			if g := m.byName(ev.Name); g != nil && g != f {
				for i, n := range m.needsNotNil(r, g) {
					if n && i < len(ev.A) && !st.f.nonNil(ev.A[i]) {
						bad = append(bad, ev.A[i])
					}
				}
			}
		}
		for _, b := range bad {
			for i, a := range args {
				if st.f.norm(b) == st.f.norm(a) && isPointer(f.Params[i].Type()) {
					x[i] = true
				}
			}
		}
	}}, func(st *State, as []*Term) { args = as })
	r.errs = append(r.errs, tmp.errs...)
	return x
}

// byName: the function of the package with a relative name
func (m *Module) byName(name string) *ssa.Function {
	if m.names == nil {
		m.names = map[string]*ssa.Function{}
		for _, f := range allFuncs(m) {
			m.names[f.RelString(m.Pkg.Types)] = f
		}
	}
	return m.names[name]
}

// panicFree examines every operation reachable from the functions. Pointers passed by callers are not nil, interfaces can be.
func panicFree(m *Module, r *Report, fns []*ssa.Function) {
	cm := newCacheModel(m, &Report{})
	tmpl := m.Named("XTemplate")
	ofTemplates := func(t types.Type) bool {
		if t == nil || tmpl == nil {
			return false
		}
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		p, ok := mt.Elem().Underlying().(*types.Pointer)
		return ok && types.Identical(p.Elem(), tmpl)
	}
	for _, fn := range fns {
		rec := func(st *State, ev *Ev) {
			if ev.Kind == "mapput" && ofTemplates(ev.A[0].T) {
				// what loops over sub-templates rely on
				r.ob("sub-template-not-nil")
				if !st.f.nonNil(ev.A[2]) {
					r.fail(m, "sub-template-not-nil", ev.Fn, ev.Pos, st, "a sub-template that can be nil is stored")
				}
			}
			if ev.Kind == "call" || ev.Kind == "reccall" {
				if f := m.byName(ev.Name); f != nil {
					for i, n := range m.needsNotNil(r, f) {
						if !n || i >= len(ev.A) {
							continue
						}
						r.ob("argument-not-nil")
						if !st.f.nonNil(ev.A[i]) {
							r.fail(m, "argument-not-nil", ev.Fn, ev.Pos, st, "%s is called with %s, which can be nil", f.Name(), ev.A[i].str(4))
						}
					}
				}
			}
			rule, what, safe, ok := panicRule(ev)
			if !ok {
				return
			}
			r.ob(rule)
			if ev.Kind == "mayniL" && len(ev.A) > 0 && listedEntry(ev.A[0]) {
				// the entry of a listed key: decided with the agreement of table and list
				return
			}
			if !safe {
				r.fail(m, rule, ev.Fn, ev.Pos, st, "%s", what)
			}
		}
		hook := func(st *State, ev *Ev) {
			if ev.Kind == "mapnext" && ofTemplates(ev.A[0].T) {
				e := st.e
				v := e.lookupTerm(st, ev.A[2], ev.A[1], ev.A[0].T.Underlying().(*types.Map).Elem())
				st.f.assume(e.tt.Eq(v, e.tt.Nil()), false)
			}
		}
		if cm != nil && recvName(fn) == "XCache" {
			// the agreement of table and order list excludes some panics
			run := &cacheRun{cm: cm, r: r, fn: fn, onEvent: rec}
			run.run(nil)
			continue
		}
		r.analyse(m, fn, Config{Record: rec, Hook: hook, Derefs: true, Opaque: func(f *ssa.Function) bool { return f != fn && lookupFn(m, f) }}, func(st *State, args []*Term) {
			for i, a := range args {
				if _, ok := fn.Params[i].Type().Underlying().(*types.Pointer); ok {
					st.f.assume(st.e.tt.Eq(a, st.e.tt.Nil()), false)
				}
			}
		})
	}
}

func init() {
	register("C21", "data access does not panic", "Every operation that can panic (index, slice expression, unchecked type assertion, dereference, call of a method of a nil interface, write to a nil map, division, explicit panic) reachable from an entry point of the data types is an obligation: on every abstract path that reaches it, the conditions of the path must exclude the panic.", func(c *Ctx, r *Report) {
		for _, m := range c.each() {
			var fns []*ssa.Function
			for _, fn := range m.EntryPoints() {
				if !templateEntry(fn) {
					fns = append(fns, fn)
				}
			}
			panicFree(m, r, fns)
		}
		r.need("index-in-range", 10)
		r.need("not-nil", 10)
	})
	register("C22", "templates do not panic", "As C21, for compiling, loading, executing, cloning and printing templates.", func(c *Ctx, r *Report) {
		for _, m := range c.each() {
			var fns []*ssa.Function
			for _, fn := range m.EntryPoints() {
				if templateEntry(fn) {
					fns = append(fns, fn)
				}
			}
			if len(fns) < 4 {
				r.errf("%s: only %d entry points of templates found", m.Name, len(fns))
			}
			panicFree(m, r, fns)
		}
		r.need("index-in-range", 10)
		r.need("slice-in-range", 3)
	})
}

// templateEntry: a method or a constructor of the template types
func templateEntry(fn *ssa.Function) bool {
	is := func(s string) bool { return s == "XTemplate" || s == "XTemplateParam" || s == "XTemplateData" }
	if is(recvName(fn)) {
		return true
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if fn.Signature.Recv() == nil && is(typeName(fn.Signature.Results().At(i).Type())) {
			return true
		}
	}
	return false
}
