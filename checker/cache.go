package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cacheHow = "Every exported method of the cache is analysed over its SSA form with in-package callees in context; the table and the order list are found by their types, the settings by their exported names. "

func cacheModels(c *Ctx, r *Report) []*cacheModel {
	var out []*cacheModel
	for _, m := range c.each() {
		if cm := newCacheModel(m, r); cm != nil {
			out = append(out, cm)
		}
	}
	return out
}

func (cm *cacheModel) method(r *Report, name string) *ssa.Function {
	f := cm.m.Method("XCache", name)
	if f == nil {
		r.errf("%s: method XCache.%s not found", cm.m.Name, name)
	}
	return f
}

func init() {
	register("C06", "cache races", cacheHow+"The state protected by the lock is forgotten at every acquisition (any other goroutine may have run). Each removal in Get and Verify must then be shown to hit the very entry that was judged invalid; each insertion into table or order must be shown to concern a key that still has its entry.", c06)
	register("C07", "validity", cacheHow+"Each exit state of Get is compared with the decision table of the statement: presence, time to live, validator and expiration of the entry read; storage time, value and time to live of entries are tracked through Set and SetTTL.", c07)
	register("C08", "table and order", cacheHow+"Each change of table or order list opens or closes discrepancies (key listed without entry, entry not listed, listed twice); at every release of the lock none may be open. Loops are handled with discrepancy sets that an arbitrary iteration keeps.", c08)
	register("C09", "maximum", cacheHow+"At every exit of Set the number of entries is bounded by the maximum whenever the maximum is positive, using the agreement of table and list; a removal of another key in Set requires a positive maximum.", c09)
	register("C10", "least recently used", cacheHow+"The end of the order list where used keys are put is determined; all insertions must agree on it, every stored or served key must be put there, and entries removed to make room must come from the other end.", c10)
	register("C11", "removal counts", cacheHow+"The number of effective removals on each path is tracked through loops and compared with the value returned by Clean and Verify; each removal must be justified for the entry it hits, and the loops that judge entries must visit all of them.", c11)
}

func c06(c *Ctx, r *Report) {
	for _, cm := range cacheModels(c, r) {
		for _, name := range []string{"Get", "Verify"} {
			fn := cm.method(r, name)
			if fn == nil {
				continue
			}
			cm := cm
			run := &cacheRun{cm: cm, r: r, fn: fn, conc: true}
			run.onNote = func(st *State, n cacheNote) {
				switch n.kind {
				case "evict":
					r.ob("removes-the-judged-entry")
					if n.valid {
						r.fail(cm.m, "removes-the-judged-entry", n.fn, n.pos, st, "%s removes the entry of a key without knowing that the current entry is the one found invalid: an entry stored meanwhile is lost", name)
					}
				case "add":
					if h, known := run.has(st, n.k); true {
						r.ob("no-trace-of-removed-keys")
						if !(known && h) {
							r.fail(cm.m, "no-trace-of-removed-keys", n.fn, n.pos, st, "%s puts a key into the order list without knowing that the key still has an entry", name)
						}
					}
				}
			}
			run.onEvent = func(st *State, ev *Ev) {
				switch ev.Kind {
				case "mapput":
					if ev.A[0] == run.table(st) {
						cur := run.e.lookupTerm(st, ev.A[3], ev.A[1], nil)
						if !run.eq(st, cur, ev.A[2]) {
							r.fail(cm.m, "no-trace-of-removed-keys", ev.Fn, ev.Pos, st, "%s stores an entry in the table", name)
						}
					}
				case "mapclear":
					if ev.A[0] == run.table(st) {
						r.fail(cm.m, "removes-the-judged-entry", ev.Fn, ev.Pos, st, "%s empties the whole table", name)
					}
				case "store":
					if ev.A[0] == run.taddr() {
						r.fail(cm.m, "removes-the-judged-entry", ev.Fn, ev.Pos, st, "%s replaces the whole table", name)
					}
				}
			}
			run.run(nil)
		}
	}
	r.need("removes-the-judged-entry", 6)
	r.need("no-trace-of-removed-keys", 2)
}

func c07(c *Ctx, r *Report) {
	for _, cm := range cacheModels(c, r) {
		cm := cm
		m := cm.m
		if fn := cm.method(r, "Get"); fn != nil {
			run := &cacheRun{cm: cm, r: r, fn: fn}
			run.onEvent = func(st *State, ev *Ev) {
				if (ev.Kind == "mapdel" || ev.Kind == "mapput") && ev.A[0] == run.table(st) && !run.eq(st, ev.A[1], run.key) {
					r.fail(m, "only-the-asked-key", ev.Fn, ev.Pos, st, "Get changes the entry of another key")
				}
			}
			for _, o := range run.run(nil) {
				c07get(cm, r, run, fn, o)
			}
		}
		if fn := cm.method(r, "Set"); fn != nil {
			run := &cacheRun{cm: cm, r: r, fn: fn}
			for _, o := range run.run(nil) {
				if !o.Panic {
					c07set(cm, r, run, fn, o)
				}
			}
		}
		if cm.ttl >= 0 {
			if fn := cm.method(r, "SetTTL"); fn != nil {
				c07ttl(cm, r, fn)
			}
		}
		// storage time, value and time to live of a stored entry
		for _, fn := range m.ExportedMethods("XCache") {
			name := fn.Name()
			run := &cacheRun{cm: cm, r: r, fn: fn}
			run.onEvent = func(st *State, ev *Ev) {
				if ev.Kind != "store" || ev.A[0].Op != OFieldAddr || structTypeOf(ev.A[0]) == nil || !types.Identical(structTypeOf(ev.A[0]), cm.ent) || st.fresh(ev.A[0]) {
					return
				}
				f := int(ev.A[0].N)
				r.ob("entry-unchanged")
				switch {
				case name == "Set":
				case name == "SetTTL" && f == cm.ttl:
				case f == cm.ctime:
					r.fail(m, "entry-unchanged", ev.Fn, ev.Pos, st, "%s changes the storage time of an entry", name)
				case f == cm.data:
					r.fail(m, "entry-unchanged", ev.Fn, ev.Pos, st, "%s changes the value of an entry", name)
				case f == cm.ttl:
					r.fail(m, "entry-unchanged", ev.Fn, ev.Pos, st, "%s changes the time to live of an entry", name)
				}
			}
			run.run(nil)
		}
	}
	r.need("served", 2)
	r.need("refused", 5)
	r.need("absent", 2)
	r.need("stored", 2)
}

// initial gives the entry the key had when the method began
func (c *cacheRun) initial(st *State) (ver, ent *Term) {
	tt := c.e.tt
	obj := tt.mk(Term{Op: OLoad, A: []*Term{c.taddr()}, T: c.cm.tabT})
	ver = tt.mk(Term{Op: OMapInit, A: []*Term{obj}})
	return ver, c.e.lookupTerm(st, ver, c.key, c.cm.tabT.Underlying().(*types.Map).Elem())
}

func c07get(cm *cacheModel, r *Report, run *cacheRun, fn *ssa.Function, o Outcome) {
	m := cm.m
	if o.Panic {
		return
	}
	st, tt := o.St, run.e.tt
	fail := func(rule, f string, a ...interface{}) { r.fail(m, rule, fn, o.Pos, st, f, a...) }
	ver, ent := run.initial(st)
	has, known := st.f.eval(run.e.hasTerm(st, ver, run.key))
	val, flag := o.Ret.A[0], o.Ret.A[1]
	fv, fk := st.f.eval(flag)
	if !fk {
		fail("flag", "Get returns a second result that does not follow from the validity of the entry")
		return
	}
	if !known {
		fail("looked-up", "Get returns without having looked whether the key has an entry")
		return
	}
	if !has {
		r.ob("absent")
		if !st.f.isNil(val) || fv {
			fail("absent", "Get of a key without entry does not return nil and false")
		}
		return
	}
	ct := run.e.loadField(st, ent, cm.ent, cm.ctime)
	exp := run.setting(st, cm.expi)
	vd := run.setting(st, cm.vali)
	if fv || st.f.isNil(val) {
		r.ob("refused")
		why := run.reasons(st, ent)
		for ev := st.tr; ev != nil; ev = ev.Prev {
			if ev.Kind == "usercall" && (len(ev.A) != 3 || !run.eq(st, ev.A[1], run.key) || st.f.norm(ev.A[2]) != ct) {
				fail("validator-arguments", "the validator is called with something else than the key and its storage time")
			}
		}
		if len(why) == 0 {
			fail("refused", "Get refuses an entry that is neither expired nor past its time to live nor rejected by the validator")
			return
		}
		if !fv || !st.f.isNil(val) {
			fail("refused", "Get of an invalid entry (%s) does not return nil and true", strings.Join(why, ", "))
		}
		if h, k := run.has(st, run.key); !k || h {
			fail("removed", "Get of an invalid entry (%s) leaves the entry in the cache", strings.Join(why, ", "))
		}
		return
	}
	r.ob("served")
	if d := run.e.loadField(st, ent, cm.ent, cm.data); st.f.norm(val) != d {
		fail("value", "Get returns something else than the stored value")
	}
	if h, k := run.has(st, run.key); !k || !h {
		fail("kept", "Get of a valid entry removes it")
	}
	if cm.ttl >= 0 {
		t := tt.mk(Term{Op: OLoad, A: []*Term{run.e.fieldAddr(ent, cm.ent, cm.ttl)}, T: structFieldType(cm.ent, cm.ttl)})
		t = st.f.norm(t)
		if !st.f.known(tt.EqInt(t, tt.Int(0)), true) && !run.notElapsed(st, ct, t) {
			fail("ttl-checked", "Get serves an entry although its time to live may be over")
		}
	}
	if !st.f.known(tt.EqInt(exp, tt.Int(0)), true) && !run.notElapsed(st, ct, exp) {
		fail("expiry-checked", "Get serves an entry although the expiration of the cache may be over")
	}
	if !st.f.isNil(vd) {
		asked := false
		for ev := st.tr; ev != nil; ev = ev.Prev {
			if ev.Kind == "usercall" && len(ev.A) == 3 {
				if run.eq(st, ev.A[1], run.key) && st.f.norm(ev.A[2]) == ct {
					asked = st.f.known(ev.Res, true)
				} else {
					fail("validator-arguments", "the validator is called with something else than the key and its storage time")
				}
			}
		}
		if !asked {
			fail("validator-asked", "Get serves an entry although the validator may reject it")
		}
	}
}

func c07set(cm *cacheModel, r *Report, run *cacheRun, fn *ssa.Function, o Outcome) {
	m, st, tt := cm.m, o.St, run.e.tt
	r.ob("stored")
	var ent *Term
	for ev := st.tr; ev != nil; ev = ev.Prev {
		if ev.Kind == "mapput" && ev.A[0] == run.table(st) && run.eq(st, ev.A[1], run.key) {
			ent = ev.A[2]
			break
		}
	}
	if ent == nil {
		_, ent = run.initial(st)
		if !st.f.nonNil(st.f.norm(ent)) {
			r.fail(m, "stored", fn, o.Pos, st, "Set returns without having stored the value")
			return
		}
	}
	if ct := run.e.loadField(st, ent, cm.ent, cm.ctime); !(ct.Op == OSym && ct.S == "now") {
		r.fail(m, "stored-time", fn, o.Pos, st, "the storage time of an entry written by Set is not the current time")
	}
	if d := run.e.loadField(st, ent, cm.ent, cm.data); len(fn.Params) < 3 || d.Op != OSym || d.S != "param:"+fn.Params[2].Name() {
		r.fail(m, "stored-value", fn, o.Pos, st, "the value written by Set is not the value given")
	}
	if cm.ttl >= 0 {
		if t := run.e.loadField(st, ent, cm.ent, cm.ttl); !st.f.known(tt.EqInt(t, tt.Int(0)), true) {
			r.fail(m, "stored-ttl", fn, o.Pos, st, "an entry written by Set keeps a time to live")
		}
	}
}

func c07ttl(cm *cacheModel, r *Report, fn *ssa.Function) {
	m := cm.m
	run := &cacheRun{cm: cm, r: r, fn: fn}
	var dur *Term
	for _, o := range run.run(func(st *State, args []*Term) {
		if len(args) > 2 {
			dur = args[2]
		}
	}) {
		if o.Panic {
			continue
		}
		st := o.St
		ver, ent := run.initial(st)
		has, known := st.f.eval(run.e.hasTerm(st, ver, run.key))
		r.ob("ttl-set")
		if !known && (st.f.isNil(ent) || run.e.notFound(st, ver, run.key)) {
			has, known = false, true // no entry of a cache is nil
		}
		if known && !has {
			for ev := st.tr; ev != nil; ev = ev.Prev {
				if ev.Kind == "mapput" || ev.Kind == "mapdel" && ev.A[3] != ev.A[2] {
					r.fail(m, "ttl-set", fn, o.Pos, st, "SetTTL changes the cache although the key has no entry")
				}
			}
			continue
		}
		cur := run.e.lookupTerm(st, run.ver(st), run.key, cm.tabT.Underlying().(*types.Map).Elem())
		if h, k := run.has(st, run.key); !k || !h || run.e.loadField(st, cur, cm.ent, cm.ttl) != st.f.norm(dur) {
			r.fail(m, "ttl-set", fn, o.Pos, st, "SetTTL does not give the entry the time to live asked for")
			continue
		}
		for _, f := range []int{cm.ctime, cm.data} {
			typ := structFieldType(cm.ent, f)
			old := st.f.norm(run.e.tt.mk(Term{Op: OLoad, A: []*Term{run.e.fieldAddr(ent, cm.ent, f)}, T: typ}))
			if run.e.loadField(st, cur, cm.ent, f) != old {
				r.fail(m, "ttl-set", fn, o.Pos, st, "SetTTL changes the storage time or the value of the entry")
			}
		}
	}
	r.need("ttl-set", 2)
}

func c08(c *Ctx, r *Report) {
	for _, cm := range cacheModels(c, r) {
		cm := cm
		m := cm.m
		for _, fn := range m.ExportedMethods("XCache") {
			fn := fn
			run := &cacheRun{cm: cm, r: r, fn: fn, conc: true}
			run.onIssue = func(st *State, ev *Ev, is cacheIssue) {
				r.fail(m, is.rule, ev.Fn, ev.Pos, st, "%s", is.msg)
			}
			run.onEvent = func(st *State, ev *Ev) {
				switch ev.Kind {
				case "unlock", "runlock":
					r.ob("consistent-at-release")
				case "mapput", "mapdel":
					if ev.A[0] == run.table(st) {
						r.ob("table-change")
					}
				case "store":
					if ev.A[0] == run.laddr() {
						r.ob("list-change")
					}
				}
			}
			for _, o := range run.run(nil) {
				if o.Panic {
					continue
				}
				mon := run.mon(o.St)
				mon.issues = nil
				run.settle(o.St, mon, "at the return")
				for _, is := range mon.issues {
					r.fail(m, is.rule, fn, o.Pos, o.St, "%s", is.msg)
				}
			}
		}
		// a new cache starts consistent
		if fn := m.Func("NewXCache"); fn == nil {
			r.errf("%s: NewXCache not found", m.Name)
		} else {
			e, outs := r.analyse(m, fn, Config{}, nil)
			for _, o := range outs {
				if o.Panic || len(o.Ret.A) == 0 {
					continue
				}
				r.ob("new-cache-consistent")
				t := e.loadField(o.St, o.Ret.A[0], cm.typ, cm.tab)
				l := e.loadField(o.St, o.Ret.A[0], cm.typ, cm.list)
				if e.mapVer(o.St, t).Op != OMapEmpty || !o.St.f.known(e.tt.EqInt(e.tt.Len(l), e.tt.Int(0)), true) {
					r.fail(m, "new-cache-consistent", fn, o.Pos, o.St, "a new cache does not start with an empty table and an empty order list")
				}
			}
		}
	}
	r.need("consistent-at-release", 30)
	r.need("table-change", 14)
	r.need("list-change", 14)
}

func c09(c *Ctx, r *Report) {
	for _, cm := range cacheModels(c, r) {
		cm := cm
		m := cm.m
		fn := cm.method(r, "Set")
		if fn == nil {
			continue
		}
		run := &cacheRun{cm: cm, r: r, fn: fn}
		run.onNote = func(st *State, n cacheNote) {
			if n.kind != "evict" || run.eq(st, n.k, run.key) {
				return
			}
			r.ob("trims-only-with-maximum")
			tt := run.e.tt
			if !st.f.known(tt.LeT(tt.Int(1), run.setting(st, cm.maxi)), true) {
				r.fail(m, "trims-only-with-maximum", n.fn, n.pos, st, "Set removes entries although the cache may have no maximum")
			}
		}
		for _, o := range run.run(nil) {
			if o.Panic {
				continue
			}
			st, tt := o.St, run.e.tt
			r.ob("bounded")
			max := run.setting(st, cm.maxi)
			if st.f.known(tt.LeT(max, tt.Int(0)), true) {
				continue
			}
			n := run.e.mapLen(st, run.ver(st))
			if len(run.mon(st).pend) == 0 {
				// every entry has exactly one place in the list
				if !st.f.assume(tt.EqInt(n, tt.Len(run.list(st))), true) {
					continue
				}
			}
			if !st.f.assume(tt.LtT(tt.Int(0), max), true) {
				continue
			}
			if !st.f.known(tt.LeT(n, max), true) {
				if cacheDebug {
					fmt.Println("N", n, "MAX", max, "PEND", run.mon(st).pend)
					for _, d := range st.f.le {
						fmt.Println("  ", d, "<=0")
					}
				}
				r.fail(m, "bounded", fn, o.Pos, st, "Set can return with more entries than the maximum")
			}
		}
	}
	r.need("bounded", 8)
	r.need("trims-only-with-maximum", 2)
}

func c10(c *Ctx, r *Report) {
	for _, cm := range cacheModels(c, r) {
		cm := cm
		m := cm.m
		type rec struct {
			n  cacheNote
			st *State
		}
		var adds, evicts []rec
		var unmoved []func(young string)
		for _, fn := range m.ExportedMethods("XCache") {
			fn := fn
			name := fn.Name()
			run := &cacheRun{cm: cm, r: r, fn: fn}
			run.onNote = func(st *State, n cacheNote) {
				switch n.kind {
				case "disturb":
					r.fail(m, "order-kept", n.fn, n.pos, st, "the order of use is changed: the list is %s", n.where)
				case "add":
					adds = append(adds, rec{n, st})
				case "evict":
					if (name == "Set" || name == "Clean") && n.valid && !(run.key != nil && run.eq(st, n.k, run.key)) {
						evicts = append(evicts, rec{n, st})
					}
				}
			}
			run.onIssue = func(st *State, ev *Ev, is cacheIssue) {
				if is.blank {
					r.fail(m, "order-kept", ev.Fn, ev.Pos, st, "the order of use is changed: %s", is.msg)
				}
			}
			for _, o := range run.run(nil) {
				if o.Panic || name != "Set" && name != "Get" {
					continue
				}
				st := o.St
				h, k := run.has(st, run.key)
				if k && !h || name == "Get" && (o.Ret.A[1].isTrue() || st.f.isNil(o.Ret.A[0]) && !k) {
					continue
				}
				r.ob("use-is-recorded")
				ok := false
				for _, k := range run.mon(st).added {
					if run.eq(st, k, run.key) {
						ok = true
					}
				}
				if !ok {
					unmoved = append(unmoved, func(young string) {
						// it may be there already
						tt, l := run.e.tt, run.list(st)
						at := tt.AddN(tt.Len(l), -1)
						if young == "front" {
							at = tt.Int(0)
						}
						if len(run.mon(st).pend) > 0 || !run.eq(st, run.e.index(st, l, at, types.Typ[types.String]), run.key) {
							r.fail(m, "use-is-recorded", fn, o.Pos, st, "%s returns without moving the key to the recent end of the order list", name)
						}
					})
				}
			}
		}
		young := ""
		for _, a := range adds {
			r.ob("recent-end")
			if a.n.where == "middle" {
				r.fail(m, "recent-end", a.n.fn, a.n.pos, a.st, "a used key is put inside the order list, not at its end")
				continue
			}
			if young == "" {
				young = a.n.where
			} else if young != a.n.where {
				r.fail(m, "recent-end", a.n.fn, a.n.pos, a.st, "used keys are put at different ends of the order list")
			}
		}
		for _, f := range unmoved {
			f(young)
		}
		old := map[string]string{"back": "front", "front": "back"}[young]
		for _, a := range evicts {
			r.ob("oldest-first")
			if a.n.where != old {
				r.fail(m, "oldest-first", a.n.fn, a.n.pos, a.st, "an entry removed to make room is not the one at the old end of the order list")
			}
		}
	}
	r.need("recent-end", 4)
	r.need("oldest-first", 4)
	r.need("use-is-recorded", 6)
}

func c11(c *Ctx, r *Report) {
	for _, cm := range cacheModels(c, r) {
		cm := cm
		for _, name := range []string{"Clean", "Verify", "Clean(0)"} {
			c11one(cm, r, name)
		}
	}
	r.need("count-returned", 8)
	r.need("removal-justified", 4)
	r.need("all-visited", 4)
	r.need("judged-invalid-is-removed", 4)
}

func c11one(cm *cacheModel, r *Report, name string) {
	m := cm.m
	zero := strings.HasSuffix(name, "(0)")
	fn := cm.method(r, strings.TrimSuffix(name, "(0)"))
	if fn == nil {
		return
	}
	verify := name == "Verify"
	run := &cacheRun{cm: cm, r: r, fn: fn}
	judged := map[*LoopInfo]map[string]bool{}
	later := map[*LoopInfo]map[*Term]bool{} // lists of keys to be removed after the loop
	run.onNote = func(st *State, n cacheNote) {
		if n.kind != "evict" || !verify && !zero {
			return
		}
		r.ob("removal-justified")
		ok := false
		for _, w := range n.why {
			if w == "expired" || w == "rejected" && verify {
				ok = true
			}
		}
		if !ok {
			what := "expired"
			if verify {
				what = "expired or rejected by the validator"
			}
			r.fail(m, "removal-justified", n.fn, n.pos, st, "%s removes an entry that is not shown to be %s", name, what)
		}
	}
	run.onLoop = func(info *LoopInfo) {
		if info.Entry.mon == nil {
			return
		}
		js := map[string]bool{}
		for i, b := range info.Backs {
			for _, j := range run.judgements(b, info.Events[i]) {
				js[j.kind] = true
				if j.invalid {
					r.ob("judged-invalid-is-removed")
					if h, k := run.has(b, j.key); (!k || h) && !run.replaced(b, j.key, j.ent) {
						if S := run.collectedIn(info, i, j.key); S != nil {
							if later[info] == nil {
								later[info] = map[*Term]bool{}
							}
							later[info][S] = true
							continue
						}
						r.fail(m, "judged-invalid-is-removed", info.Fn, info.Pos, b, "%s keeps an entry that is %s", name, j.kind)
					}
				}
			}
		}
		if len(js) == 0 {
			return
		}
		judged[info] = js
		// every iteration judges the entry it visits
		for i, b := range info.Backs {
			mine, bad := map[string]bool{}, false
			for _, j := range run.judgements(b, info.Events[i]) {
				mine[j.kind] = true
				bad = bad || j.invalid
			}
			for k := range js {
				off := run.e.tt.EqInt(run.setting(b, cm.expi), run.e.tt.Int(0))
				if k != "expired" {
					off = run.e.tt.Eq(run.setting(b, cm.vali), run.e.tt.Nil())
				}
				r.ob("all-examined")
				if !mine[k] && !bad && !b.f.known(off, true) && !run.nothingThere(b, info, i) {
					r.fail(m, "all-examined", info.Fn, info.Pos, b, "%s passes over an entry without finding out whether it is %s", name, k)
				}
			}
		}
		r.ob("all-visited")
		for _, x := range info.Exits {
			if !x.Header && x.Kind != xPanic {
				r.fail(m, "all-visited", info.Fn, info.Pos, x.St, "%s can stop before every entry was examined", name)
			}
		}
		if !run.fullDomain(info) {
			r.fail(m, "all-visited", info.Fn, info.Pos, info.Hdr, "%s examines entries in a loop that is not shown to visit all of them", name)
		}
	}
	for _, o := range run.run(func(st *State, args []*Term) {
		if zero && len(args) > 1 {
			st.f.assume(run.e.tt.EqInt(args[1], run.e.tt.Int(0)), true)
		}
	}) {
		if o.Panic {
			continue
		}
		st, tt := o.St, run.e.tt
		r.ob("count-returned")
		if !st.f.known(tt.EqInt(o.Ret.A[0], st.ghost["removed"]), true) {
			r.fail(m, "count-returned", fn, o.Pos, st, "the number returned by %s is not the number of entries removed", strings.TrimSuffix(name, "(0)"))
		}
		seen := map[string]bool{}
		gone := map[*Term]bool{}
		for ev := st.tr; ev != nil; ev = ev.Prev {
			if ev.Kind == "loopexit" && ev.Mode == 1 {
				for _, S := range run.removedList(ev.Info) {
					gone[S] = true
				}
				for S := range later[ev.Info] {
					if !gone[S] && !run.emptySeq(st, S) {
						r.fail(m, "judged-invalid-is-removed", fn, ev.Pos, st, "%s keeps entries that it found to be invalid", name)
					}
				}
				for k := range judged[ev.Info] {
					seen[k] = true
				}
				// nothing to visit
				if len(ev.Info.Backs) == 0 && (run.fullMap(ev.Info.Entry, ev.Info.MapObj) || !ev.Info.IsMap && run.emptySeq(ev.Info.Entry, run.list(ev.Info.Entry))) {
					seen["expired"], seen["rejected by the validator"] = true, true
				}
			}
		}
		if !st.f.known(tt.EqInt(run.setting(st, cm.expi), tt.Int(0)), true) && !seen["expired"] {
			r.fail(m, "expiry-examined", fn, o.Pos, st, "%s returns without having examined the expiration of the entries", name)
		}
		if verify && !st.f.isNil(run.setting(st, cm.vali)) && !seen["rejected by the validator"] {
			r.fail(m, "validator-examined", fn, o.Pos, st, "Verify returns without having asked the validator about the entries")
		}
	}
}

// nothingThere: the iteration found that its key has no entry
func (c *cacheRun) nothingThere(b *State, info *LoopInfo, i int) bool {
	var keys []*Term
	if i < len(info.Keys) {
		keys = append(keys, info.Keys[i])
	}
	for _, ev := range info.Events[i] {
		if ev.Kind == "index" && sliceElemOrNil(ev.A[0].T) != nil && isStringType(sliceElemOrNil(ev.A[0].T)) {
			keys = append(keys, c.e.index(b, ev.A[0], ev.A[1], types.Typ[types.String]))
		}
	}
	for _, k := range keys {
		if has, known := c.has(b, k); known && !has {
			return true
		}
	}
	return false
}

// collectedIn: the list the key is put in by this iteration
func (c *cacheRun) collectedIn(info *LoopInfo, i int, key *Term) *Term {
	b := info.Backs[i]
	for S, vs := range info.Back {
		if ps := c.e.tt.parts(vs[i]); len(ps) == 2 && ps[0] == b.f.norm(S) && ps[1].Op == OElem && isStringType(key.T) && c.eq(b, ps[1].A[0], key) {
			return S
		}
	}
	return nil
}

// removedList: lists of keys whose entries the loop removes, all of them
func (c *cacheRun) removedList(info *LoopInfo) []*Term {
	if info.IsMap {
		return nil
	}
	var out []*Term
	tt := c.e.tt
	for _, S := range c.visited(info) {
		for t := range info.Init {
			if !intLike(t) {
				continue
			}
			for _, d := range []int64{0, 1} {
				idx := tt.AddN(t, d)
				ok := true
				for _, x := range info.Exits {
					ok = ok && (x.Kind == xPanic || x.Header && c.e.exhausted(x.St, Forall{S: S, Idx: idx, Info: info}))
				}
				for _, b := range info.Backs {
					h, k := c.has(b, c.e.index(b, S, idx, types.Typ[types.String]))
					ok = ok && k && !h
				}
				if ok {
					out = append(out, S)
				}
			}
		}
	}
	return out
}

// replaced: the current entry of the key is not ent
func (c *cacheRun) replaced(st *State, key, ent *Term) bool {
	if ent == nil {
		return false
	}
	v, k := c.same(st, c.e.lookupTerm(st, c.ver(st), key, c.cm.tabT.Underlying().(*types.Map).Elem()), ent)
	return k && !v
}

type judgement struct {
	kind    string
	key     *Term
	ent     *Term
	invalid bool
}

// judgements: the validity tests of an iteration
func (c *cacheRun) judgements(st *State, evs []*Ev) []judgement {
	var out []judgement
	tt := c.e.tt
	exp := c.setting(st, c.cm.expi)
	seen := map[string]bool{}
	for _, ev := range evs {
		if ev.Kind == "usercall" && len(ev.A) == 3 {
			v, k := st.f.eval(ev.Res)
			var ent *Term
			if x := ev.A[2]; x.Op == OLoad && x.A[0].Op == OFieldAddr {
				ent = x.A[0].A[0]
			}
			out = append(out, judgement{"rejected by the validator", ev.A[1], ent, k && !v})
		}
		if ev.Kind == "load" && ev.A[0].Op == OFieldAddr && int(ev.A[0].N) == c.cm.ctime && structTypeOf(ev.A[0]) != nil && types.Identical(structTypeOf(ev.A[0]), c.cm.ent) {
			ent := st.f.norm(ev.A[0].A[0])
			if ent.Op != OLookup || seen[ent.key] {
				continue
			}
			ct := st.f.norm(ev.A[1])
			nz := st.f.known(tt.EqInt(exp, tt.Int(0)), false)
			if nz && c.elapsed(st, ct, exp) {
				seen[ent.key] = true
				out = append(out, judgement{"expired", ent.A[1], ent, true})
			} else if nz && c.notElapsed(st, ct, exp) {
				seen[ent.key] = true
				out = append(out, judgement{"expired", ent.A[1], ent, false})
			}
		}
	}
	return out
}

// fullDomain: the loop visits every entry of the cache
func (c *cacheRun) fullDomain(info *LoopInfo) bool {
	if info.IsMap {
		return c.fullMap(info.Entry, info.MapObj)
	}
	// a loop over a list of keys
	tt := c.e.tt
	for _, x := range info.Exits {
		if !x.Header {
			continue
		}
		for t := range info.Init {
			if !intLike(t) {
				continue
			}
			for _, d := range []int64{0, 1} {
				for _, S := range c.visited(info) {
					if c.e.exhausted(x.St, Forall{S: S, Idx: tt.AddN(t, d), Info: info}) && c.fullList(info.Entry, S) {
						return true
					}
				}
			}
		}
	}
	return false
}

// visited: sequences indexed by the iteration
func (c *cacheRun) visited(info *LoopInfo) []*Term {
	seen := map[*Term]bool{}
	for _, evs := range info.Events {
		for _, ev := range evs {
			if ev.Kind == "index" {
				seen[contentEq(ev.A[0])] = true
			}
		}
	}
	return sortedTerms(seen)
}

func (c *cacheRun) fullMap(st *State, obj *Term) bool {
	if obj == nil {
		return false
	}
	if obj == c.table(st) {
		return true
	}
	// a copy filled by a loop over the whole table
	v := st.maps[obj]
	if v == nil || v.Op != OMapSym {
		return false
	}
	info := st.loopOf[v]
	if info == nil || !info.IsMap || info.MapObj != c.table(info.Entry) || len(info.Keys) != len(info.Backs) {
		return false
	}
	for _, x := range info.Exits {
		if !x.Header && x.Kind != xPanic {
			return false
		}
	}
	for i, b := range info.Backs {
		w := b.maps[obj]
		if w == nil || w.Op != OMapPut || w.A[0] != v || !c.eq(b, w.A[1], info.Keys[i]) {
			return false
		}
	}
	return true
}

func (c *cacheRun) fullList(st *State, S *Term) bool {
	if S == contentEq(c.list(st)) {
		return true
	}
	for _, sg := range c.segs(st, S) {
		if sg.base == contentEq(c.list(st)) {
			return true
		}
	}
	info := st.loopOf[S]
	if info == nil || !info.IsMap || !c.fullMap(info.Entry, info.MapObj) || len(info.Keys) != len(info.Backs) {
		return false
	}
	for _, x := range info.Exits {
		if !x.Header && x.Kind != xPanic {
			return false
		}
	}
	for i, b := range info.Backs {
		ps := c.e.tt.parts(info.Back[S][i])
		if len(ps) != 2 || ps[0] != S || ps[1].Op != OElem || !c.eq(b, ps[1].A[0], info.Keys[i]) {
			return false
		}
	}
	return true
}

var _ = fmt.Sprint
var _ = token.NoPos
