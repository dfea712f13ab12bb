package main

import (
	"golang.org/x/tools/go/ssa"
)

// C38: changes of shared objects are not lost, and what is looked up is still there when it is used.

// stale: the value was made from content of a shared object that other goroutines may have changed since it was read
func (e *Engine) stale(st *State, t *Term, base *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		t.walk(func(x *Term) bool {
			if seen[x] || found {
				return false
			}
			seen[x] = true
			switch x.Op {
			case OLoad:
				if o := st.ownerOfAddr(x.A[0], 0); o != nil && st.f.norm(o.Base) == base && x.N != e.epochOf(st, x.A[0]) {
					found = true
				}
			case OMapInit:
				if o := st.ownerOfVal(x.A[0], 0); o != nil && st.f.norm(o.Base) == base && x.N != st.epoch[x.A[0]] {
					found = true
				}
			case OSym:
				if o := st.orig[x]; o != nil {
					walk(o)
				}
			case OAlloc:
				if c, ok := st.content[x]; ok {
					walk(c)
				}
				if e.filledStale(st, x, base) {
					found = true
				}
			}
			return !found
		})
	}
	walk(t)
	return found
}

// filledStale: a table made by this call was filled with such content
func (e *Engine) filledStale(st *State, obj, base *Term) bool {
	if obj.T == nil {
		return false
	}
	for ev := st.tr; ev != nil; ev = ev.Prev {
		switch {
		case ev.Kind == "mapput" && ev.A[0] == obj:
			if ev.A[1].Op != OAlloc && ev.A[2].Op != OAlloc && (e.stale(st, ev.A[1], base) || e.stale(st, ev.A[2], base)) {
				return true
			}
		case ev.Kind == "loopexit" && ev.Info != nil && ev.Info.IsMap && ev.Info.MapVer != nil:
			for s := range ev.Info.Init {
				if s.Op == OMapSym && s.A[0] == obj && e.stale(st, ev.Info.MapVer, base) {
					return true
				}
			}
		}
	}
	return false
}

// staleCopy: a new object put in the table was filled from one read before, that may no longer be in the table
func (e *Engine) staleCopy(st *State, put *Ev, base *Term) bool {
	obj := st.f.norm(put.A[2])
	if obj.Op != OAlloc || len(put.A) < 4 {
		return false
	}
	cur := st.f.norm(e.lookupTerm(st, put.A[3], put.A[1], put.A[2].T))
	for a, v := range st.mem {
		if a.Op != OFieldAddr || a.A[0] != obj {
			continue
		}
		v = st.f.norm(v)
		if v.Op == OLoad && st.f.norm(innerAddr(v.A[0])) == cur {
			continue
		}
		if e.stale(st, v, base) {
			return true
		}
	}
	return false
}

// innerAddr: the object a field belongs to
func innerAddr(a *Term) *Term {
	for a.Op == OFieldAddr {
		a = a.A[0]
	}
	return a
}

func atomicCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		m := m
		cm := newCacheModel(m, &Report{})
		for _, tn := range []string{"XCache", "XLanguage", "XDatasetTS", "XDatasetCollectionTS"} {
			if t := m.Named(tn); t == nil || lockField(t) < 0 {
				continue
			}
			atomicType(m, r, cm, tn)
		}
	}
	r.need("nothing-stale", 10)
	r.need("not-nil", 10)
}

func atomicType(m *Module, r *Report, cm *cacheModel, tn string) {
	for _, fn := range m.ExportedMethods(tn) {
		atomicMethod(m, r, cm, fn)
	}
}

func atomicMethod(m *Module, r *Report, cm *cacheModel, fn *ssa.Function) {
	rec := func(st *State, ev *Ev) {
		var o *Owner
		var vals []*Term
		switch ev.Kind {
		case "store":
			o, vals = st.ownerOfAddr(ev.A[0], 0), ev.A[1:2]
		case "mapput":
			o, vals = st.ownedContent(ev.A[0]), ev.A[2:3]
		}
		if o != nil {
			r.ob("nothing-stale")
			for _, v := range vals {
				if st.e.stale(st, v, st.f.norm(o.Base)) || ev.Kind == "mapput" && st.e.staleCopy(st, ev, st.f.norm(o.Base)) {
					r.fail(m, "nothing-stale", ev.Fn, ev.Pos, st, "%s writes back content of the %s that was read before the lock was taken: changes made by others in the meantime are lost", fn.Name(), typeName(o.Type))
				}
			}
		}
		rule, what, safe, ok := panicRule(ev)
		if !ok {
			return
		}
		r.ob(rule)
		if ev.Kind == "mayniL" && len(ev.A) > 0 && listedEntry(ev.A[0]) {
			return
		}
		if !safe {
			r.fail(m, rule, ev.Fn, ev.Pos, st, "%s when another goroutine has changed the object in the meantime", what)
		}
	}
	if cm != nil && recvName(fn) == "XCache" {
		run := &cacheRun{cm: cm, r: r, fn: fn, conc: true, onEvent: rec}
		run.run(nil)
		return
	}
	var recv *Term
	_, outs := r.analyse(m, fn, Config{Concurrent: true, Derefs: true, Record: rec, Opaque: otherLookups(m, fn)}, func(st *State, args []*Term) { recv = args[0] })
	for _, o := range outs {
		if o.Panic || o.Ret == nil {
			continue
		}
		changed := false
		for ev := o.St.tr; ev != nil; ev = ev.Prev {
			if ev.Kind == "store" || ev.Kind == "mapput" || ev.Kind == "mapdel" {
				w := o.St.ownedContent(ev.A[0])
				if ev.Kind == "store" {
					w = o.St.ownerOfAddr(ev.A[0], 0)
				}
				changed = changed || w != nil
			}
		}
		if !changed {
			continue
		}
		r.ob("result-of-the-change")
		if o.St.e.stale(o.St, o.Ret, o.St.f.norm(recv)) {
			r.fail(m, "result-of-the-change", fn, o.Pos, o.St, "%s changes the object and returns something that it read before the lock was taken for the change", fn.Name())
		}
	}
}

func init() {
	register("C38", "no lost updates", "Every method of the types that own a lock is analysed with everything the lock protects forgotten at each acquisition. Obligations: no value stored in the shared object is made from protected content that was read in an earlier critical section (lists, tables and copies of them included); every dereference, index and table write is safe with what is known in the critical section it happens in; a method that changes the object returns nothing that it read in an earlier critical section.", atomicCheck)
}
