package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C35: operations on a cache concern their key and leave the settings alone ----

type cacheTable struct {
	cm   *cacheModel
	r    *Report
	m    *Module
	elem types.Type
}

func cacheTableCheck(c *Ctx, r *Report) {
	for _, cm := range cacheModels(c, r) {
		g := &cacheTable{cm: cm, r: r, m: cm.m, elem: cm.tabT.Underlying().(*types.Map).Elem()}
		g.created()
		for _, fn := range cm.m.ExportedMethods("XCache") {
			g.method(fn)
		}
	}
	r.need("created", 2)
	r.need("settings-kept", 10)
	r.need("entry-removed", 2)
	r.need("counted", 2)
	r.need("emptied", 2)
	r.need("only-its-key", 3)
}

// settings lists the exported fields
func (g *cacheTable) settings() []int {
	var out []int
	u := g.cm.typ.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Exported() && i != g.cm.tab && i != g.cm.list && !isMutex(u.Field(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

// created: a new cache is empty and has the settings given
func (g *cacheTable) created() {
	fn := g.m.Func("NewXCache")
	if fn == nil {
		g.r.errf("%s: NewXCache not found", g.m.Name)
		return
	}
	var args []*Term
	e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) { args = as })
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St
		g.r.ob("created")
		obj := st.f.norm(o.Ret.A[0])
		if obj.Op != OAlloc {
			g.r.fail(g.m, "created", fn, o.Pos, st, "no new cache is returned")
			continue
		}
		u := g.cm.typ.Underlying().(*types.Struct)
		for _, i := range g.settings() {
			v := st.f.norm(e.loadField(st, obj, g.cm.typ, i))
			if _, isFn := u.Field(i).Type().Underlying().(*types.Signature); isFn {
				if !st.f.isNil(v) && v.Op != OZero {
					g.r.fail(g.m, "created", fn, o.Pos, st, "a new cache has a %s although none was given", u.Field(i).Name())
				}
				continue
			}
			// the parameter of the type
			for _, a := range args {
				if types.Identical(a.T, u.Field(i).Type()) && !e.sameVal(st, v, a) {
					g.r.fail(g.m, "created", fn, o.Pos, st, "the %s of a new cache is not the one given", u.Field(i).Name())
				}
			}
		}
		t := st.f.norm(e.loadField(st, obj, g.cm.typ, g.cm.tab))
		if !st.f.nonNil(t) || e.mapVer(st, t).Op != OMapEmpty {
			g.r.fail(g.m, "created", fn, o.Pos, st, "a new cache is not empty")
		}
	}
}

func (g *cacheTable) method(fn *ssa.Function) {
	cm, r, m := g.cm, g.r, g.m
	name := fn.Name()
	run := &cacheRun{cm: cm, r: r, fn: fn}
	keyed := name == "Set" || name == "SetTTL" || name == "Get" || name == "Del"
	settings := map[int]bool{}
	for _, i := range g.settings() {
		settings[i] = true
	}
	var before *Term
	run.onEvent = func(st *State, ev *Ev) {
		switch ev.Kind {
		case "store":
			a := ev.A[0]
			if a.Op != OFieldAddr || structTypeOf(a) == nil || st.fresh(a) {
				return
			}
			if types.Identical(structTypeOf(a), cm.typ) && settings[int(a.N)] {
				r.fail(m, "settings-kept", ev.Fn, ev.Pos, st, "%s changes the setting %s of the cache", name, a.S)
			}
			if keyed && types.Identical(structTypeOf(a), cm.ent) {
				r.ob("only-its-key")
				if !g.entryOf(run, st, before, a.A[0]) {
					r.fail(m, "only-its-key", ev.Fn, ev.Pos, st, "%s changes an entry that is not that of the key given", name)
				}
			}
		case "mapput":
			if ev.A[0] != run.table(st) {
				return
			}
			r.ob("only-its-key")
			switch {
			case !keyed:
				r.fail(m, "only-its-key", ev.Fn, ev.Pos, st, "%s stores an entry", name)
			case !run.eq(st, ev.A[1], run.key):
				r.fail(m, "only-its-key", ev.Fn, ev.Pos, st, "%s stores something under another key than the one given", name)
			}
		case "mapdel":
			if ev.A[0] == run.table(st) && (name == "SetTTL" || name == "Count") {
				r.fail(m, "only-its-key", ev.Fn, ev.Pos, st, "%s removes an entry", name)
			}
		}
	}
	outs := run.run(func(st *State, args []*Term) {
		run.recv = args[0]
		before = run.e.mapVer(st, run.table(st))
	})
	e := run.e
	r.ob("settings-kept")
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St
		ver := e.uncopied(st, run.ver(st), before, g.elem)
		switch name {
		case "Del":
			r.ob("entry-removed")
			if e.without(st, ver, before, run.key, g.elem) {
				continue
			}
			s := st.clone()
			other := e.newSym("other", types.Typ[types.String])
			s.f.assume(e.tt.Eq(other, run.key), false)
			if !s.f.known(e.hasTerm(s, ver, run.key), false) {
				r.fail(m, "entry-removed", fn, o.Pos, s, "after Del the cache still holds an entry of the key")
			}
			if ver != before && (s.f.norm(e.hasTerm(s, before, other)) != s.f.norm(e.hasTerm(s, ver, other)) ||
				s.f.norm(e.lookupTerm(s, before, other, g.elem)) != s.f.norm(e.lookupTerm(s, ver, other, g.elem))) {
				r.fail(m, "entry-removed", fn, o.Pos, s, "Del changes the entries of other keys")
			}
		case "Flush":
			r.ob("emptied")
			if !g.noEntries(run, st, ver, before) {
				r.fail(m, "emptied", fn, o.Pos, st, "after Flush the cache still holds entries")
			}
		case "Count":
			r.ob("counted")
			if !g.size(run, st, st.f.norm(o.Ret.A[0]), ver) {
				r.fail(m, "counted", fn, o.Pos, st, "Count does not return the number of entries of the cache: %s", st.f.norm(o.Ret.A[0]).str(4))
			}
		}
	}
}

// entryOf: the object is the entry of the key given, or one that is not stored yet
func (g *cacheTable) entryOf(run *cacheRun, st *State, before, obj *Term) bool {
	e := run.e
	obj = st.f.norm(obj)
	if obj.Op == OAlloc {
		return true
	}
	for _, ver := range []*Term{before, run.ver(st)} {
		if st.f.norm(e.lookupTerm(st, ver, run.key, g.elem)) == obj {
			return true
		}
	}
	// found by its key
	k := (*Term)(nil)
	if obj.Op == OLookup {
		k = obj.A[1]
	}
	return k != nil && run.eq(st, k, run.key)
}

func (g *cacheTable) noEntries(run *cacheRun, st *State, ver, before *Term) bool {
	e := run.e
	if ver.Op == OMapEmpty || st.f.known(e.tt.EqInt(e.mapLen(st, ver), e.tt.Int(0)), true) {
		return true
	}
	// each of them deleted
	info := st.loopOf[ver]
	if info == nil || info.Init[ver] != before || !headerExits(info) {
		return false
	}
	if info.IsMap && len(info.Keys) == len(info.Backs) {
		for i, v := range info.Back[ver] {
			b := info.Backs[i]
			if v.Op != OMapDel || v.A[0] != ver || b.f.norm(v.A[1]) != b.f.norm(info.Keys[i]) {
				return false
			}
		}
		return true
	}
	for _, it := range e.over(st, info) {
		ok := it.seq != nil && e.seqSame(st, it.seq, run.e.load(info.Entry, run.laddr(), run.cm.listT))
		for i, v := range info.Back[ver] {
			b := info.Backs[i]
			ok = ok && v.Op == OMapDel && v.A[0] == ver && b.f.norm(v.A[1]) == b.f.norm(e.index(b, it.seq, it.idx, types.Typ[types.String]))
		}
		if ok {
			return true
		}
	}
	return false
}

// size: the number is that of the entries of the table; the order lists as many keys
func (g *cacheTable) size(run *cacheRun, st *State, n, ver *Term) bool {
	e := run.e
	for _, want := range []*Term{e.mapLen(st, ver), e.tt.Len(st.f.norm(run.list(st)))} {
		if st.f.known(e.tt.EqInt(n, want), true) {
			return true
		}
	}
	if n.Op == OMapLen && e.sameTable(st, n.A[0], ver, g.elem) {
		return true // of a copy
	}
	// counted one by one
	info := st.loopOf[n]
	if info == nil || !headerExits(info) {
		return false
	}
	if _, step := info.induction(e.tt, n); step != 1 {
		return false
	}
	if i, ok := info.Entry.f.norm(info.Init[n]).intVal(); !ok || i != 0 {
		return false
	}
	for _, it := range e.over(st, info) {
		if it.ver == ver || it.seq != nil && e.seqSame(st, it.seq, run.list(st)) {
			return true
		}
	}
	return false
}

func init() {
	register("C35", "cache operations", cacheHow+"The table of the entries before and after each method is compared: which keys are written and removed, what a new cache holds, what is counted. Writes to the settings are reported.", cacheTableCheck)
}
