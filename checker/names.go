package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C28: which data and which template a name means ----

func namesCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		for _, tn := range []string{"XDatasetCollection", "XDatasetCollectionTS"} {
			if m.Named(tn) != nil {
				innermost(m, r, tn)
			}
		}
		subTemplate(m, r)
		addTemplate(m, r)
	}
	r.need("innermost-first", 2)
	r.need("passed-over", 2)
	r.need("nowhere", 2)
	r.need("own-template", 2)
	r.need("enclosing-template", 1)
	r.need("added-template", 2)
}

// innermost: the data of a name is the one of the last dataset that has it
func innermost(m *Module, r *Report, tn string) {
	fn := m.Method(tn, "GetData")
	if fn == nil {
		r.errf("%s: no method GetData of %s", m.Name, tn)
		return
	}
	var list *Term
	var args []*Term
	e, outs := r.analyse(m, fn, Config{}, func(s *State, as []*Term) {
		args = as
		if addr := listAddr(s.e, m, tn, as[0]); addr != nil {
			list = s.e.load(s, addr, contentType(addr))
		}
	})
	if list == nil {
		r.errf("%s: the list of %s was not found", m.Name, tn)
		return
	}
	tt := e.tt
	// the question put to the element of the list at some position
	asked := func(st *State, ev *Ev) (el, idx *Term) {
		if ev.Kind != "invoke" || ev.Name != "Get" || len(ev.A) < 2 || st.f.norm(ev.A[1]) != st.f.norm(args[1]) {
			return nil, nil
		}
		el = st.f.norm(ev.A[0])
		if el.Op != OIndex || e.resolveSeq(st, el.A[0]) != e.resolveSeq(st, list) {
			return nil, nil
		}
		return el, el.A[1]
	}
	// kept: the variables of a loop that carry what was found and that it was
	kept := func(info *LoopInfo) (val, flag *Term) {
		for sym, init := range info.Init {
			switch {
			case isBoolType(sym.T) && init.isFalse():
				flag = sym
			case sym.T != nil && isIface(sym.T):
				val = sym
			}
		}
		if val == nil || flag == nil {
			return nil, nil
		}
		return
	}
	checked := map[*LoopInfo]bool{}
	// a walk from the last element to the first that only goes on over elements without the name
	walk := func(st *State, info *LoopInfo, idx *Term) bool {
		sym, step := info.induction(tt, idx)
		if sym == nil || step != -1 {
			return false
		}
		first := substTerm(tt, idx, sym, info.Init[sym])
		if !st.f.known(tt.EqInt(first, tt.AddN(tt.Len(list), -1)), true) {
			return false
		}
		if checked[info] {
			return true
		}
		checked[info] = true
		for i, bs := range info.Backs {
			r.ob("passed-over")
			el := e.index(bs, list, idx, sliceElem(list.T))
			ok := bs.f.isNil(el)
			for _, ev := range info.Events[i] {
				if x, _ := asked(bs, ev); x != nil && x == bs.f.norm(el) {
					has := resultTerms(ev.Res)[1]
					ok = ok || bs.f.known(has, false)
					// found, and kept for the end of the walk, which comes next
					if val, flag := kept(info); val != nil && !ok && bs.f.known(flag, false) {
						s := bs.clone()
						s.f.assume(has, true)
						ok = s.f.norm(info.Back[val][i]) == s.f.norm(resultTerms(ev.Res)[0]) && s.f.known(info.Back[flag][i], true)
						s = bs.clone()
						s.f.assume(has, false)
						ok = ok && (s.f.bad || s.f.known(info.Back[flag][i], false))
					}
				}
			}
			if _, flag := kept(info); flag != nil && bs.f.isNil(el) && !bs.f.known(info.Back[flag][i], false) {
				ok = false
			}
			if !ok {
				r.fail(m, "passed-over", fn, info.Pos, bs, "goes on to the next dataset although this one may have the name")
			}
		}
		return true
	}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		res := resultTerms(o.Ret)
		evs := st.tr.list()
		for _, hit := range []bool{true, false} {
			s := st.clone()
			s.f.assume(res[1], hit)
			if s.f.bad {
				continue
			}
			if hit {
				r.ob("innermost-first")
				good := false
				for _, ev := range evs {
					el, idx := asked(s, ev)
					if el == nil || s.f.norm(resultTerms(ev.Res)[0]) != s.f.norm(res[0]) || !s.f.known(resultTerms(ev.Res)[1], true) {
						continue
					}
					good = s.f.known(tt.EqInt(idx, tt.AddN(tt.Len(list), -1)), true)
					for _, x := range evs {
						if x.Kind == "loopexit" && x.Info != nil && walk(s, x.Info, idx) {
							good = true
						}
					}
				}
				for _, x := range evs {
					if good || x.Kind != "loopexit" || x.Info == nil {
						continue
					}
					val, flag := kept(x.Info)
					if val == nil || s.f.norm(res[0]) != s.f.norm(val) || !s.f.known(flag, true) {
						continue
					}
					for i, bevs := range x.Info.Events {
						for _, ev := range bevs {
							if el, idx := asked(x.Info.Backs[i], ev); el != nil && walk(s, x.Info, idx) {
								good = true
							}
						}
					}
				}
				if !good {
					r.fail(m, "innermost-first", fn, o.Pos, s, "returns something else than the value of the last dataset that has the name")
				}
				continue
			}
			r.ob("nowhere")
			good := s.f.known(tt.EqInt(tt.Len(list), tt.Int(0)), true)
			for _, x := range evs {
				if x.Kind != "loopexit" || x.Info == nil || good {
					continue
				}
				for _, bevs := range x.Info.Events {
					for _, ev := range bevs {
						if ev.Kind == "index" && e.resolveSeq(s, ev.A[0]) == e.resolveSeq(s, list) && walk(s, x.Info, ev.A[1]) && e.exhausted(s, Forall{S: list, Idx: ev.A[1], Info: x.Info}) {
							good = true
						}
					}
				}
			}
			if !good || !s.f.isNil(res[0]) {
				r.fail(m, "nowhere", fn, o.Pos, s, "reports a missing name without having asked every dataset, or with a value")
			}
		}
	}
}

// subTemplate: the template of a name is the own one, otherwise the one the enclosing template finds
func subTemplate(m *Module, r *Report) {
	T := m.Named("XTemplate")
	fn := m.Method("XTemplate", "GetTemplate")
	if T == nil || fn == nil {
		r.errf("%s: GetTemplate not found", m.Name)
		return
	}
	// functions that search the same way, reached by the recursion, are checked as well
	done := map[*ssa.Function]bool{}
	for todo := []*ssa.Function{fn}; len(todo) > 0; {
		f := todo[0]
		todo = todo[1:]
		if !done[f] {
			done[f] = true
			todo = append(todo, searchIn(m, r, T, f)...)
		}
	}
}

func searchIn(m *Module, r *Report, T types.Type, fn *ssa.Function) []*ssa.Function {
	var more []*ssa.Function
	sub, father := fieldByName(T, "SubTemplates"), fieldByName(T, "Father")
	if sub < 0 {
		r.errf("%s: the sub-templates of a template were not found", m.Name)
		return nil
	}
	var args []*Term
	e, outs := r.analyse(m, fn, Config{}, func(s *State, as []*Term) { args = as })
	tt := e.tt
	ptr := types.NewPointer(T)
	// own assumes that x has or has not a sub-template of the name
	own := func(s *State, x *Term, hit bool) *Term {
		tab := e.loadField(s, x, T, sub)
		if s.f.isNil(tab) {
			if hit {
				s.f.bad = true
			}
			return tt.Nil()
		}
		ver := e.mapVer(s, s.f.norm(tab))
		l := e.lookupTerm(s, ver, args[1], ptr)
		has := e.hasTerm(s, ver, args[1])
		if v, known := s.f.eval(has); known && !v {
			l = tt.Nil()
		}
		s.f.assume(tt.Eq(l, tt.Nil()), !hit)
		if hit {
			s.f.assume(has, true)
		}
		return l
	}
	next := func(s *State, x *Term) *Term {
		if father < 0 {
			return tt.Nil()
		}
		return s.f.norm(e.loadField(s, x, T, father))
	}
	checked := map[*LoopInfo]bool{}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		ret := resultTerms(o.Ret)[0]
		x := args[0]
		// a loop that climbs
		for _, ev := range o.St.tr.list() {
			if ev.Kind != "loopexit" || ev.Info == nil {
				continue
			}
			info := ev.Info
			for sym, init := range info.Init {
				if o.St.f.norm(init) != o.St.f.norm(args[0]) {
					continue
				}
				x = sym
				if checked[info] {
					continue
				}
				checked[info] = true
				for i, bs := range info.Backs {
					r.ob("enclosing-template")
					s := bs.clone()
					own(s, sym, true)
					if !s.f.bad {
						r.fail(m, "enclosing-template", fn, info.Pos, s, "goes on to the enclosing template although this one may have the name")
					}
					if bs.f.norm(info.Back[sym][i]) != next(bs, sym) {
						r.fail(m, "enclosing-template", fn, info.Pos, bs, "goes on to %s, not to the enclosing template", info.Back[sym][i].str(4))
					}
				}
			}
		}
		if o.St.f.isNil(x) && x != args[0] {
			r.ob("no-template")
			if !o.St.f.isNil(ret) {
				r.fail(m, "no-template", fn, o.Pos, o.St, "returns %s although no template has the name", ret.str(4))
			}
			continue
		}
		s := o.St.clone()
		if l := own(s, x, true); !s.f.bad {
			r.ob("own-template")
			if s.f.norm(ret) != s.f.norm(l) {
				r.fail(m, "own-template", fn, o.Pos, s, "returns %s although the template has a sub-template of the name", ret.str(4))
			}
		}
		for _, outer := range []bool{true, false} {
			s := o.St.clone()
			own(s, x, false)
			f := next(s, x)
			s.f.assume(tt.Eq(f, tt.Nil()), !outer)
			if s.f.bad {
				continue
			}
			if !outer {
				r.ob("no-template")
				if !s.f.isNil(ret) {
					r.fail(m, "no-template", fn, o.Pos, s, "returns %s although no template has the name", ret.str(4))
				}
				continue
			}
			r.ob("enclosing-template")
			good := false
			for _, ev := range s.tr.list() {
				if ev.Kind == "reccall" && len(ev.A) == 2 && s.f.norm(ev.A[0]) == s.f.norm(f) && s.f.norm(ev.A[1]) == s.f.norm(args[1]) && s.f.norm(resultTerms(ev.Res)[0]) == s.f.norm(ret) {
					if g := m.byName(ev.Name); g != nil {
						more = append(more, g)
						good = true
					}
				}
			}
			if !good {
				r.fail(m, "enclosing-template", fn, o.Pos, s, "returns %s, not what the enclosing template finds", ret.str(4))
			}
		}
	}
	return more
}

// addTemplate: a template added under a name is found under it and knows the template that contains it
func addTemplate(m *Module, r *Report) {
	T := m.Named("XTemplate")
	fn := m.Method("XTemplate", "AddTemplate")
	if fn == nil {
		r.errf("%s: AddTemplate not found", m.Name)
		return
	}
	sub, father := fieldByName(T, "SubTemplates"), fieldByName(T, "Father")
	var args []*Term
	var before *Term
	e, outs := r.analyse(m, fn, Config{}, func(s *State, as []*Term) {
		args = as
		before = s.e.loadField(s, as[0], T, sub)
	})
	for _, o := range outs {
		if o.Panic {
			continue
		}
		s := o.St
		r.ob("added-template")
		tab := s.f.norm(e.loadField(s, args[0], T, sub))
		ver := e.mapVer(s, tab)
		switch {
		case ver.Op != OMapPut || s.f.norm(ver.A[1]) != s.f.norm(args[1]) || s.f.norm(ver.A[2]) != s.f.norm(args[2]):
			r.fail(m, "added-template", fn, o.Pos, s, "the template is not stored under its name")
		case !s.f.isNil(before) && (tab != s.f.norm(before) || ver.A[0].Op != OMapInit):
			r.fail(m, "added-template", fn, o.Pos, s, "the templates already there are not kept")
		case father >= 0 && s.f.norm(e.loadField(s, args[2], T, father)) != s.f.norm(args[0]):
			r.fail(m, "added-template", fn, o.Pos, s, "the template does not know the one that contains it")
		}
	}
}

func init() {
	register("C28", "Names are resolved in the innermost scope first", "Abstract interpretation of the search functions. Obligations: a value found is the one of an element reached by a walk that starts at the last element and goes down by one; the walk goes on only over elements known to be missing or not to have the name; not found is reported only after the whole list; a sub-template found is the own one of the name if there is one, otherwise what the enclosing template finds, and nothing else; adding a template stores it under its name, keeps the others and records the containing template.", namesCheck)
}
