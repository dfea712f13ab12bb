package main

import (
	"go/types"
)

// ---- C25: the containers of shared objects stay inside ----

// containerType: a value through which the content can be changed
func containerType(t types.Type) bool {
	if t == nil || isMutex(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Map, *types.Slice:
			return true
		case *types.Struct:
			return len(structMutexes(u.Elem())) > 0
		}
	case *types.Interface:
		for i := 0; i < u.NumMethods(); i++ {
			if mutators[u.Method(i).Name()] {
				return true
			}
		}
	}
	return false
}

func structMutexes(t types.Type) []int {
	var out []int
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if isMutex(u.Field(i).Type()) {
				out = append(out, i)
			}
		}
	}
	return out
}

// ownPart: the value is a container of the object, a part of its storage, or something that holds it
func ownPart(st *State, recv *Term, t types.Type, v *Term, depth int) *types.Var {
	if v == nil || depth > 6 {
		return nil
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	v = st.f.norm(v)
	switch v.Op {
	case OIface, OConv, OAssert, OSub:
		return ownPart(st, recv, t, v.A[0], depth+1)
	case OTuple, OStruct:
		for _, a := range v.A {
			if f := ownPart(st, recv, t, a, depth+1); f != nil {
				return f
			}
		}
	case OCat:
		// what is appended to shares the storage
		if len(v.A) > 0 && v.A[0].Op != OElem {
			return ownPart(st, recv, t, v.A[0], depth+1)
		}
	case OFieldAddr:
		if v.A[0] == recv && int(v.N) < u.NumFields() {
			if f := u.Field(int(v.N)); containerType(f.Type()) && !f.Exported() {
				return f
			}
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Exported() || !containerType(f.Type()) {
			continue
		}
		for _, s := range []*State{st} {
			if w := s.f.norm(s.e.loadField(s, recv, t, i)); w == v && w.Op != ONil && w.Op != OConst {
				return f
			}
		}
		if v.Op == OLoad && v.A[0].Op == OFieldAddr && v.A[0].A[0] == recv && int(v.A[0].N) == i {
			return f
		}
	}
	return nil
}

func escapeCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		n := 0
		for _, name := range m.SSA.Pkg.Scope().Names() {
			nm := m.Named(name)
			if nm == nil {
				continue
			}
			u, ok := nm.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			own := false
			for i := 0; i < u.NumFields(); i++ {
				own = own || !u.Field(i).Exported() && containerType(u.Field(i).Type())
			}
			if !own || len(structMutexes(nm)) == 0 {
				continue
			}
			n++
			for _, fn := range m.ExportedMethods(name) {
				if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok {
					continue
				}
				var recv *Term
				rec := func(st *State, ev *Ev) {
					switch ev.Kind {
					case "usercall":
						for _, a := range ev.A[1:] {
							r.ob("callback-argument")
							if f := ownPart(st, recv, nm, a, 0); f != nil {
								r.fail(m, "callback-argument", ev.Fn, ev.Pos, st, "the %s of the object is passed to a function of the user", f.Name())
							}
						}
					case "store":
						if !containerType(ev.A[1].T) || !st.visible(ev.A[0], 0) || rootOf(ev.A[0]) == recv {
							return
						}
						r.ob("stored-elsewhere")
						if f := ownPart(st, recv, nm, ev.A[1], 0); f != nil {
							r.fail(m, "stored-elsewhere", ev.Fn, ev.Pos, st, "the %s of the object is stored in another one", f.Name())
						}
					}
				}
				_, outs := r.analyse(m, fn, Config{Record: rec}, func(st *State, args []*Term) { recv = args[0] })
				for _, o := range outs {
					if o.Panic || o.Ret == nil || o.St.f.bad {
						continue
					}
					for _, v := range resultTerms(o.Ret) {
						r.ob("result")
						if f := ownPart(o.St, recv, nm, v, 0); f != nil {
							r.fail(m, "result", fn, o.Pos, o.St, "the %s of the object itself is returned, not a copy", f.Name())
						}
					}
				}
			}
		}
		if n == 0 {
			r.errf("%s: no type with a lock found", m.Name)
		}
	}
	r.need("result", 20)
}

func init() {
	register("C25", "Internal containers are not handed out", "Escape analysis: on every abstract path of every exported method of a type that guards containers with a lock, no result, no argument of a function of the user and no value stored in another object may be the guarded container itself, a part of its storage or the address of the field.", escapeCheck)
}
