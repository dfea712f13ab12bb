package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- which memory of lock-owning objects each entry point touches, and under which lock mode ----

type access struct {
	key   string // guarded location: Type.field, Type.field[] (content), Entry.field
	typ   string // lock-owning type
	write bool
	init  bool // of a new object, before anybody else can have seen it
	mode  int
	what  string
	fn    *ssa.Function
	pos   token.Pos
	st    *State
}

// lockTypes lists the struct types of the package that own a mutex.
func lockTypes(m *Module) []string {
	var out []string
	sc := m.Pkg.Types.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && lockField(tn.Type()) >= 0 {
			out = append(out, n)
		}
	}
	return out
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return shortType(t)
}

func structField(t types.Type, i int) string {
	if u, ok := t.Underlying().(*types.Struct); ok && i < u.NumFields() {
		return u.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (o *Owner) key() string {
	switch o.Inner {
	case "entry":
		return typeName(o.Ent) + "." + structField(o.Ent, o.EntF)
	case "[]":
		return typeName(o.Type) + "." + structField(o.Type, o.Field) + "[]"
	}
	return typeName(o.Type) + "." + structField(o.Type, o.Field)
}

// modeOf: how the lock of the owner is held in the state
func modeOf(st *State, o *Owner) int {
	best := 0
	for mu, md := range st.locks {
		if mu.Op == OFieldAddr && mu.A[0] == o.Base && md > best {
			best = md
		}
	}
	return best
}

func unwrap(t *Term) *Term {
	for t != nil && t.Op == OIface {
		t = t.A[0]
	}
	return t
}

func isRefType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	}
	return false
}

// ownedContent: v is a map or a slice held by a field of a lock-owning object
func (s *State) ownedContent(v *Term) *Owner {
	v = unwrap(v)
	if v == nil {
		return nil
	}
	o := s.ownerOfVal(v, 0)
	if o == nil || o.Inner == "entry" {
		return nil
	}
	c := *o
	c.Inner = "[]"
	return &c
}

// accessesOf translates an event into accesses to guarded memory
func accessesOf(st *State, ev *Ev) []access {
	var out []access
	add := func(o *Owner, write bool, what string) {
		if o == nil {
			return
		}
		if f := structFieldType(o.Type, o.Field); f != nil && isMutex(f) {
			return
		}
		out = append(out, access{key: o.key(), typ: typeName(o.Type), write: write, mode: modeOf(st, o), what: what, fn: ev.Fn, pos: ev.Pos, st: st})
	}
	switch ev.Kind {
	case "load":
		add(st.ownerOfAddr(ev.A[0], 0), false, "read")
	case "store":
		add(st.ownerOfAddr(ev.A[0], 0), true, "write")
		if len(out) > 0 && st.initialising(ev) {
			out[len(out)-1].init = true
		}
	case "mapget", "maplen", "maprange", "mapnext":
		add(st.ownedContent(ev.A[0]), false, "read of the map")
	case "mapput", "mapdel", "mapclear":
		add(st.ownedContent(ev.A[0]), true, "change of the map")
	case "append":
		if b := seqBase(ev.A[0]); b != nil && ev.A[0].Op != ONil {
			add(st.ownedContent(b), true, "append to the list")
		}
		for _, p := range st.e.tt.parts(ev.A[1]) {
			if p.Op != OElem {
				add(st.ownedContent(p), false, "read of the list")
			}
		}
	case "copy":
		add(st.ownedContent(ev.A[0]), true, "copy into the list")
		add(st.ownedContent(ev.A[1]), false, "read of the list")
	case "invoke":
		recv := ev.A[0]
		if o := st.ownerOfVal(recv, 0); o != nil && o.Inner == "" && recv.Op == OLoad {
			c := *o
			c.Inner = "[]"
			add(&c, mutators[ev.Name], "method "+ev.Name+" of the protected value")
		}
	case "ext":
		for _, a := range ev.A {
			a = unwrap(a)
			w := strings.HasPrefix(ev.Name, "sort.") || strings.HasPrefix(ev.Name, "slices.Sort")
			for _, p := range st.e.tt.parts(a) {
				if p.Op == OElem {
					p = unwrap(p.A[0])
				}
				if p.Op == OLoad && isRefType(p.T) {
					add(st.ownedContent(p), w, "passed to "+ev.Name)
				}
			}
		}
	}
	return out
}

// initialising: the write is to a new object that was put in its place in the critical section that is still going on
func (s *State) initialising(ev *Ev) bool {
	r := rootOf(ev.A[0])
	if r.Op != OAlloc {
		return false
	}
	for x := ev.Prev; x != nil; x = x.Prev {
		switch x.Kind {
		case "unlock", "runlock", "backedge", "loopexit":
			return false
		case "store", "mapput", "append":
			for _, a := range x.A[1:] {
				if bare(a) == r {
					return true
				}
			}
		}
	}
	return false
}

func structFieldType(t types.Type, i int) types.Type {
	if u, ok := t.Underlying().(*types.Struct); ok && i < u.NumFields() {
		return u.Field(i).Type()
	}
	return nil
}

type lockFacts struct {
	acc     []access
	escapes []access
	copies  []access
	written map[string]bool
	entries int
}

var lockMemo = map[*Module]*lockFacts{}

// collectLocks analyses every entry point once and records the accesses.
func collectLocks(m *Module, r *Report) *lockFacts {
	lf := &lockFacts{written: map[string]bool{}}
	for _, fn := range m.EntryPoints() {
		fn := fn
		rec := func(st *State, ev *Ev) {
			for _, a := range accessesOf(st, ev) {
				if a.st != nil {
					a.st = st
				}
				lf.acc = append(lf.acc, a)
				if a.write && !(a.init && a.mode == 2) {
					lf.written[a.key] = true
				}
			}
			if ev.Kind == "load" && len(ev.A) > 1 && ev.A[1].Op == OStruct && ev.A[1].T != nil && lockField(ev.A[1].T) >= 0 {
				lf.copies = append(lf.copies, access{typ: typeName(ev.A[1].T), fn: ev.Fn, pos: ev.Pos})
			}
			if ev.Kind == "load" && contentType(ev.A[0]) != nil && lockField(contentType(ev.A[0])) >= 0 {
				lf.copies = append(lf.copies, access{typ: typeName(contentType(ev.A[0])), fn: ev.Fn, pos: ev.Pos})
			}
		}
		_, outs := r.analyse(m, fn, Config{Record: rec, Opaque: otherLookups(m, fn)}, nil)
		lf.entries++
		for _, o := range outs {
			if o.Ret == nil {
				continue
			}
			for i, t := range o.Ret.A {
				t = unwrap(t)
				for _, p := range o.St.e.tt.parts(t) {
					if p.Op == OElem || p.Op == OIndex || p.Op == OLookup {
						continue
					}
					var rt types.Type
					if i < fn.Signature.Results().Len() {
						rt = fn.Signature.Results().At(i).Type()
					}
					if !isRefType(rt) && !(p.T != nil && isRefType(p.T)) {
						continue
					}
					if ow := o.St.ownedContent(p); ow != nil {
						lf.escapes = append(lf.escapes, access{key: ow.key(), typ: typeName(ow.Type), fn: fn, pos: o.Pos, st: o.St})
					}
				}
			}
		}
	}
	return lf
}

// otherLookups: the search of a sub-template is analysed as an entry point of its own
func otherLookups(m *Module, entry *ssa.Function) func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool { return f != entry && lookupFn(m, f) && !lookupFn(m, entry) }
}

// raceCheck decides lock-based race freedom of the given types
func raceCheck(c *Ctx, r *Report, want map[string][]string) {
	for _, m := range c.each() {
		names := want[m.Name]
		if len(names) == 0 {
			continue
		}
		lf := collectLocks(m, r)
		for _, tn := range names {
			n := m.Named(tn)
			if n == nil {
				r.errf("%s: type %s not found", m.Name, tn)
				continue
			}
			if lockField(n) < 0 {
				r.fail(m, "lock-present", nil, n.Obj().Pos(), nil, "type %s has no mutex", tn)
				continue
			}
			keys := map[string]bool{}
			for _, a := range lf.acc {
				if a.typ != tn || !lf.written[a.key] {
					continue
				}
				keys[a.key] = true
				rule := "read-under-lock"
				needMode := 1
				if a.write {
					rule = "write-under-write-lock"
					needMode = 2
				}
				r.ob(rule)
				if a.mode < needMode {
					held := "no lock"
					if a.mode == 1 {
						held = "only the read lock"
					}
					r.fail(m, rule, a.fn, a.pos, a.st, "%s of %s with %s held", a.what, a.key, held)
				}
			}
			var ks []string
			for k := range keys {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			r.notes = append(r.notes, fmt.Sprintf("%s guarded locations of %s: %s", m.Name, tn, strings.Join(ks, ", ")))
			if len(ks) == 0 {
				r.errf("%s: no guarded location of %s found", m.Name, tn)
			}
			for _, a := range lf.escapes {
				if a.typ == tn && lf.written[a.key] {
					r.fail(m, "no-unlocked-alias", a.fn, a.pos, a.st, "returns %s itself: the caller reads or writes it without the lock", a.key)
				}
			}
			for _, a := range lf.copies {
				if a.typ == tn {
					r.fail(m, "no-lock-copy", a.fn, a.pos, nil, "copies a %s together with its mutex", tn)
				}
			}
			for _, f := range m.ExportedMethods(tn) {
				r.ob("no-unlocked-alias")
				_ = f
			}
		}
	}
	r.need("read-under-lock", 3)
	r.need("write-under-write-lock", 2)
}

func init() {
	register("C01", "XCache", "Every entry point of the package is analysed over its SSA form; each read or write of a field, list, table or entry of a cache that some entry point changes is an obligation: it must happen while the mutex of that same cache is held (write mode for changes). Values returned must not alias the protected table or list.", func(c *Ctx, r *Report) {
		raceCheck(c, r, map[string][]string{"v1": {"XCache"}, "v2": {"XCache"}})
	})
	register("C02", "XLanguage", "As C01, for the language table of version 2.", func(c *Ctx, r *Report) {
		raceCheck(c, r, map[string][]string{"v2": {"XLanguage"}})
	})
	register("C03", "XDatasetTS", "As C01, for the thread safe dataset; a mutating method of the wrapped dataset is a write, any other method a read.", func(c *Ctx, r *Report) {
		raceCheck(c, r, map[string][]string{"v2": {"XDatasetTS"}})
	})
	register("C04", "XDatasetCollectionTS", "As C01, for the thread safe collection; additionally every element access must be within bounds that hold in the same critical section (other goroutines may change the list whenever the lock is not held), no loop reads the list in more than one, and neither a position, nor what is stored, nor what an operation that changes the list returns was read in an earlier one.", func(c *Ctx, r *Report) {
		raceCheck(c, r, map[string][]string{"v2": {"XDatasetCollectionTS"}})
		m := c.mods["v2"]
		for _, fn := range m.ExportedMethods("XDatasetCollectionTS") {
			fn := fn
			r.analyse(m, fn, Config{Concurrent: true, Record: func(st *State, ev *Ev) {
				if ev.Kind != "index" && ev.Kind != "slicing" {
					return
				}
				if o := st.ownedContent(ev.A[0]); o == nil || typeName(o.Type) != "XDatasetCollectionTS" {
					return
				}
				r.ob("bounds-in-section")
				if ev.Mode == 0 {
					r.fail(m, "bounds-in-section", ev.Fn, ev.Pos, st, "element access not covered by a length check in the same critical section")
				}
				r.ob("position-in-section")
				for _, i := range ev.A[1:] {
					if i != nil && st.e.stale(st, i, st.f.norm(st.ownedContent(ev.A[0]).Base)) {
						r.fail(m, "position-in-section", ev.Fn, ev.Pos, st, "the position was computed from the list before the lock was taken")
					}
				}
			}, LoopDone: func(info *LoopInfo) { oneSection(m, r, fn, info) }}, nil)
		}
		atomicType(m, r, nil, "XDatasetCollectionTS")
		r.need("bounds-in-section", 3)
		r.need("nothing-stale", 2)
	})
	register("C05", "locks released", "Typestate of every mutex along every abstract path of every entry point: acquired at most once at a time, released in the mode it was acquired, released at every exit; code that may panic or is supplied by the user runs under a lock only if a deferred release is pending, and the cache validator never runs under the lock.", lockDiscipline)
}

// oneSection: a loop does not read the list of the receiver in a critical section of its own for each element
func oneSection(m *Module, r *Report, fn *ssa.Function, info *LoopInfo) {
	r.ob("loop-in-section")
	for _, b := range info.Backs {
		var reads *Ev
		for ev := b.tr; ev != nil && ev != info.Hdr.tr; ev = ev.Prev {
			switch ev.Kind {
			case "index", "slicing":
				if o := b.ownedContent(ev.A[0]); o != nil && typeName(o.Type) == "XDatasetCollectionTS" {
					reads = ev
				}
			case "load":
				if o := b.ownerOfAddr(ev.A[0], 0); o != nil && typeName(o.Type) == "XDatasetCollectionTS" {
					reads = ev
				}
			case "acquired":
				if reads != nil {
					r.fail(m, "loop-in-section", fn, reads.Pos, b, "each iteration reads the list in a critical section of its own: elements are missed or met twice when another goroutine changes the list in between")
					return
				}
			}
		}
	}
}

func lockDiscipline(c *Ctx, r *Report) {
	for _, m := range c.each() {
		m := m
		cm := newCacheModel(m, &Report{})
		for _, fn := range m.EntryPoints() {
			var outs []Outcome
			rec := func(st *State, ev *Ev) { lockEvent(m, r, st, ev) }
			if cm != nil && recvName(fn) == "XCache" {
				// the agreement of table and order list excludes some panics
				run := &cacheRun{cm: cm, r: r, fn: fn, conc: true, onEvent: rec}
				outs = run.run(nil)
			} else {
				_, outs = r.analyse(m, fn, Config{Concurrent: true, Record: rec, Opaque: otherLookups(m, fn)}, nil)
			}
			for _, o := range outs {
				if !o.Panic {
					for mu := range o.St.locks {
						r.fail(m, "released-at-exit", fn, o.Pos, o.St, "returns with the lock of %s held", muName(mu))
					}
				}
			}
		}
	}
	r.need("acquire", 20)
	r.need("release", 20)
}

// listedEntry: the table entry of a listed key, which exists by the agreement of table and list (C06)
func listedEntry(t *Term) bool {
	return t.Op == OLookup && t.A[1].Op == OIndex
}

// recvName: type name of the receiver
func recvName(fn *ssa.Function) string {
	if rc := fn.Signature.Recv(); rc != nil {
		t := rc.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return typeName(t)
	}
	return ""
}

func muName(mu *Term) string {
	if mu.Op == OFieldAddr && structTypeOf(mu) != nil {
		return typeName(structTypeOf(mu))
	}
	return "a mutex"
}

func pendingRelease(st *State, mu *Term) bool { return st.deferU[mu] > 0 || st.deferU[nil] > 0 }

func lockEvent(m *Module, r *Report, st *State, ev *Ev) {
	switch ev.Kind {
	case "lock", "rlock":
		r.ob("acquire")
		if ev.Mode != 0 {
			r.fail(m, "no-reacquire", ev.Fn, ev.Pos, st, "acquires the lock of %s that this goroutine already holds", muName(ev.A[0]))
		}
	case "unlock", "runlock":
		r.ob("release")
		want := 2
		if ev.Kind == "runlock" {
			want = 1
		}
		if ev.Mode == 0 {
			r.fail(m, "release-held", ev.Fn, ev.Pos, st, "releases the lock of %s that is not held", muName(ev.A[0]))
		} else if ev.Mode != want {
			r.fail(m, "release-held", ev.Fn, ev.Pos, st, "releases the lock of %s in another mode than it was acquired", muName(ev.A[0]))
		}
	case "looplock":
		r.fail(m, "loop-balance", ev.Fn, ev.Pos, st, "an iteration of the loop ends with other locks held than it began with")
	case "usercall":
		for mu := range st.locks {
			r.ob("user-code-under-lock")
			r.fail(m, "no-callback-under-lock", ev.Fn, ev.Pos, st, "calls a function supplied by the user while the lock of %s is held", muName(mu))
		}
	case "invoke", "mayniL", "maynilmap", "panic":
		if ev.Kind == "mayniL" && len(ev.A) > 0 && listedEntry(ev.A[0]) {
			break
		}
		for mu := range st.locks {
			r.ob("user-code-under-lock")
			if !pendingRelease(st, mu) {
				r.fail(m, "released-on-panic", ev.Fn, ev.Pos, st, "%s can panic while the lock of %s is held and no deferred release is pending", evText(ev), muName(mu))
			}
		}
	case "index", "slicing", "assert":
		if ev.Mode == 0 {
			for mu := range st.locks {
				r.ob("user-code-under-lock")
				if !pendingRelease(st, mu) {
					r.fail(m, "released-on-panic", ev.Fn, ev.Pos, st, "%s can panic while the lock of %s is held and no deferred release is pending", evText(ev), muName(mu))
				}
			}
		}
	}
}

func evText(ev *Ev) string {
	switch ev.Kind {
	case "invoke":
		return "the call of method " + ev.Name
	case "mayniL":
		return ev.Name
	case "maynilmap":
		return "a write to a nil map"
	case "index":
		return "an index"
	case "slicing":
		return "a slice expression"
	case "assert":
		return "a type assertion"
	}
	return ev.Kind
}
