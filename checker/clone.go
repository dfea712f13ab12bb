package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "clones", dataHow+"The object returned must be a new one of the same type whose fields, table entries and elements are, one by one, the values of the original or clones of them; a value is shared only where it cannot be a dataset or a collection. Writes to anything but new objects are reported.", c15)
}

type cloner struct {
	m        *Module
	r        *Report
	e        *Engine
	fn       *ssa.Function
	def, col types.Type
}

// results of Clone calls, with what was cloned
func (c *cloner) clones(st *State) map[*Term]*Term {
	out := map[*Term]*Term{}
	for ev := st.tr; ev != nil; ev = ev.Prev {
		if (ev.Kind == "reccall" || ev.Kind == "invoke" && ev.Name == "Clone") && len(ev.A) > 0 && ev.Res != nil && ev.Res.Op != OTuple {
			out[st.f.norm(ev.Res)] = st.f.norm(ev.A[0])
		}
	}
	return out
}

func bare(t *Term) *Term {
	for t.Op == OIface || t.Op == OAssert {
		t = t.A[0]
	}
	return t
}

// cloneOf: w is a clone of v
func (c *cloner) cloneOf(st *State, w, v *Term) bool {
	w, v = st.f.norm(w), st.f.norm(v)
	for r, x := range c.clones(st) {
		if bare(r) == bare(w) && bare(x) == bare(v) {
			return true
		}
	}
	return false
}

// plain: v is neither a dataset nor a collection in this state
func (c *cloner) plain(st *State, v *Term) bool {
	for _, T := range []types.Type{c.def, c.col} {
		if T == nil {
			continue
		}
		s := st.clone()
		s.f.assume(c.e.tt.mk(Term{Op: OTypeIs, A: []*Term{v}, T: T}), true)
		if !s.f.bad {
			return false
		}
	}
	return true
}

func c15(c *Ctx, r *Report) {
	for _, m := range c.each() {
		for _, tn := range []string{"XDataset", "XDatasetTS", "XDatasetCollection", "XDatasetCollectionTS", "XTemplate"} {
			if m.Named(tn) == nil {
				continue
			}
			fn := m.Method(tn, "Clone")
			if fn == nil {
				if !(m.Name == "v1" && tn == "XTemplate") {
					r.errf("%s: no method Clone of %s", m.Name, tn)
				}
				continue
			}
			c15one(m, r, tn, fn)
		}
	}
	r.need("new-object", 7)
	r.need("entry", 4)
	r.need("element", 4)
}

func c15one(m *Module, r *Report, tn string, fn *ssa.Function) {
	k := &cloner{m: m, r: r, fn: fn}
	if o := m.Pkg.Types.Scope().Lookup("XDatasetDef"); o != nil {
		k.def = o.Type()
	}
	if o := m.Pkg.Types.Scope().Lookup("XDatasetCollectionDef"); o != nil {
		k.col = o.Type()
	}
	var recv, content, ver *Term
	T := m.Named(tn)
	cfg := Config{
		OpaqueImp: func(f *ssa.Function) bool {
			return f != fn && f.Name() == "Clone" && f.Signature.Recv() != nil && recvName(f) != "XTemplateParam"
		},
		Record: func(st *State, ev *Ev) {
			old := func(a *Term) bool {
				a = bare(rootOf(a))
				if a.Op == OAlloc {
					return false
				}
				for res := range k.clones(st) {
					if bare(res) == a {
						return false
					}
				}
				return true
			}
			// made by the Clone of a part: complete as it is
			part := func(a *Term) bool { return bare(rootOf(a)).Op != OAlloc && !old(a) }
			switch ev.Kind {
			case "store":
				if a := ev.A[0]; part(a) {
					r.ob("part-kept")
					up := a.Op == OFieldAddr && types.Identical(a.T, types.NewPointer(T))
					_, plain := ev.A[1].T.(*types.Basic)
					if !up && !(plain && st.f.norm(ev.A[1]) == st.f.norm(ev.A[2])) {
						r.fail(m, "part-kept", ev.Fn, ev.Pos, st, "Clone changes the clone of a part")
					}
				}
				r.ob("original-kept")
				if old(ev.A[0]) {
					r.fail(m, "original-kept", ev.Fn, ev.Pos, st, "Clone writes to something that is not part of the clone")
				}
			case "appendto":
				if st.foreign(ev.A[0], 0) != nil {
					r.fail(m, "original-kept", ev.Fn, ev.Pos, st, "Clone builds a list in the memory of another one")
				}
			case "mapput", "mapdel", "mapclear":
				if part(ev.A[0]) {
					r.fail(m, "part-kept", ev.Fn, ev.Pos, st, "Clone changes a table of the clone of a part")
				}
				r.ob("original-kept")
				if old(ev.A[0]) {
					r.fail(m, "original-kept", ev.Fn, ev.Pos, st, "Clone changes a table that is not part of the clone")
				}
			case "invoke":
				if mutators[ev.Name] && part(ev.A[0]) {
					r.fail(m, "part-kept", ev.Fn, ev.Pos, st, "Clone calls %s of the clone of a part", ev.Name)
				}
				if mutators[ev.Name] && old(ev.A[0]) {
					r.fail(m, "original-kept", ev.Fn, ev.Pos, st, "Clone calls %s of the original", ev.Name)
				}
			}
		},
	}
	e, outs := r.analyse(m, fn, cfg, func(s *State, as []*Term) {
		recv = as[0]
		switch T.Underlying().(type) {
		case *types.Map, *types.Slice:
			content = s.e.load(s, recv, T)
			if _, ok := T.Underlying().(*types.Map); ok {
				ver = s.e.mapVer(s, content)
			}
		}
	})
	k.e = e
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		bad := func(rule, f string, a ...interface{}) { r.fail(m, rule, fn, o.Pos, st, f, a...) }
		res := bare(st.f.norm(o.Ret.A[0]))
		r.ob("new-object")
		if res.Op != OAlloc || o.Ret.A[0].Op == OIface && typeName(o.Ret.A[0].T) != tn {
			bad("new-object", "Clone does not return a new %s", tn)
			continue
		}
		switch u := T.Underlying().(type) {
		case *types.Map:
			mp := e.load(st, res, T)
			if mp.Op != OAlloc && mp.Op != ONil {
				bad("new-object", "the clone shares the table of the original")
				continue
			}
			k.table(st, e.mapVer(st, mp), content, ver, u.Elem(), bad, k.value)
		case *types.Slice:
			k.list(st, e.load(st, res, T), content, bad)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if isMutex(f.Type()) {
					continue
				}
				was := e.loadField(st, recv, T, i)
				is := e.loadField(st, res, T, i)
				k.field(st, f, was, is, res, bad)
			}
		}
	}
}

// field: the field of the clone against that of the original
func (k *cloner) field(st *State, f *types.Var, was, is, res *Term, bad func(string, string, ...interface{})) {
	e := k.e
	switch u := f.Type().Underlying().(type) {
	case *types.Interface:
		k.r.ob("wrapped")
		if st.f.isNil(was) {
			x := bare(is)
			if st.f.isNil(is) || x.Op == OAlloc && !containsNew(k, st, x) {
				return
			}
			// a clone of a new empty dataset
			for r, o := range k.clones(st) {
				if bare(r) == x && bare(o).Op == OAlloc && !containsNew(k, st, bare(o)) {
					return
				}
			}
			bad("wrapped", "the clone of an empty object is not empty")
			return
		}
		if !k.cloneOf(st, is, was) {
			bad("wrapped", "the clone does not wrap a clone of the dataset")
		}
	case *types.Slice:
		if isIface(u.Elem()) {
			k.list(st, is, was, bad)
		} else if !e.seqSame(st, is, was) || st.f.norm(is) == st.f.norm(was) {
			bad("field", "the list %s of the clone is not a copy", f.Name())
		}
	case *types.Map:
		if st.f.isNil(was) {
			if !st.f.isNil(is) && e.mapVer(st, is).Op != OMapEmpty {
				bad("field", "the table %s of the clone is not empty", f.Name())
			}
			return
		}
		if is.Op != OAlloc {
			if e.mapVer(st, was).Op != OMapEmpty || !st.f.isNil(is) {
				bad("field", "the clone shares the table %s, or does not have it", f.Name())
			}
			return
		}
		k.table(st, e.mapVer(st, is), was, e.mapVer(st, was), u.Elem(), bad, func(s *State, w, v *Term, key *Term) string {
			if !k.cloneOf(s, w, v) {
				return "is not a clone of the original's"
			}
			// the clone contains it, not the original
			if pt, ok := u.Elem().Underlying().(*types.Pointer); ok {
				if st2, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < st2.NumFields(); i++ {
						if types.Identical(st2.Field(i).Type(), u.Elem()) && !e.sameVal(s, e.loadField(s, w, pt.Elem(), i), res) && !k.passed(s, w, res) {
							return "still belongs to the original"
						}
					}
				}
			}
			return ""
		})
	case *types.Pointer:
		sl, ok := u.Elem().Underlying().(*types.Slice)
		if !ok {
			k.r.ob("field")
			if !e.sameVal(st, is, was) {
				bad("field", "%s of the clone is not that of the original", f.Name())
			}
			return
		}
		if st.f.isNil(was) {
			k.r.ob("field")
			if !st.f.isNil(is) {
				bad("field", "%s of the clone is not that of the original", f.Name())
			}
			return
		}
		if !st.f.nonNil(was) {
			bad("field", "%s of the original is not looked at on this way", f.Name())
			return
		}
		if is.Op != OAlloc {
			bad("field", "the clone shares %s with the original", f.Name())
			return
		}
		_ = sl
		a, b := e.load(st, is, u.Elem()), e.load(st, was, u.Elem())
		k.r.ob("element")
		if st.f.norm(a) == st.f.norm(b) || a.Op == OSub && contentEq(a.A[0]) == a.A[0] {
			bad("element", "the clone shares the elements of %s with the original", f.Name())
		} else if !e.seqSame(st, a, b) {
			bad("element", "%s of the clone does not hold the elements of the original in order", f.Name())
		}
	default:
		k.r.ob("field")
		if !e.sameVal(st, is, was) {
			bad("field", "%s of the clone is not that of the original", f.Name())
		}
	}
}

// passed: the new owner was given to the function that made the clone
func (k *cloner) passed(st *State, w, owner *Term) bool {
	for ev := st.tr; ev != nil; ev = ev.Prev {
		if ev.Kind == "reccall" && ev.Res == w {
			for _, a := range ev.A[1:] {
				if a == owner {
					return true
				}
			}
		}
	}
	return false
}

// containsNew: a new object that is not empty
func containsNew(k *cloner, st *State, x *Term) bool {
	if x.T == nil {
		return true
	}
	switch x.T.Underlying().(type) {
	case *types.Map:
		return k.e.mapVer(st, k.e.load(st, x, x.T)).Op != OMapEmpty && !st.f.isNil(k.e.load(st, x, x.T))
	case *types.Slice:
		return len(k.e.qsegs(st, k.e.load(st, x, x.T))) > 0
	}
	return true
}

// value: what the clone of a dataset holds for a key
func (k *cloner) value(st *State, w, v, key *Term) string {
	if k.cloneOf(st, w, v) {
		return ""
	}
	if !k.e.sameVal(st, w, v) {
		return "is not that of the original"
	}
	if !k.plain(st, v) {
		return "is shared although it may be a dataset or a collection"
	}
	return ""
}

// table: the table was made from each entry of the original one
func (k *cloner) table(st *State, ver, orig, over *Term, elem types.Type, bad func(string, string, ...interface{}), value func(*State, *Term, *Term, *Term) string) {
	if ver.Op == OMapEmpty {
		k.r.ob("entry")
		if s := st.clone(); s.f.assume(k.e.tt.LtT(k.e.tt.Int(0), k.e.mapLen(s, over)), true) && !s.f.bad && !st.f.isNil(orig) {
			bad("entry", "a way through Clone leaves the clone empty")
		}
		return
	}
	ps, ok := k.e.tableImage(st, ver, over, elem)
	if !ok {
		k.r.ob("entry")
		bad("entry", "the table of the clone is not made from each entry of the original")
		return
	}
	for _, p := range ps {
		k.r.ob("entry")
		if p.val == nil {
			if !p.st.f.isNil(p.src) || !isPointer(elem) {
				bad("entry", "an entry of the original is left out")
			}
			continue
		}
		if msg := value(p.st, p.val, p.src, p.key); msg != "" && !p.st.f.isNil(p.src) {
			bad("entry", "the value of an entry of the clone %s", msg)
		}
	}
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// list: the elements of the clone are the clones of those of the original, in order
func (k *cloner) list(st *State, is, was *Term, bad func(string, string, ...interface{})) {
	e := k.e
	k.r.ob("element")
	if len(e.qsegs(st, is)) == 0 {
		if !st.f.known(e.tt.LeT(e.tt.Len(was), e.tt.Int(0)), true) {
			bad("element", "a way through Clone leaves the clone empty")
		}
		return
	}
	im := e.builtBy(st, is)
	if im == nil || len(e.qsegs(st, im.prefix)) > 0 {
		bad("element", "the clone does not hold one element for each of the original")
		return
	}
	for _, it := range e.over(st, im.info) {
		if it.seq == nil || it.step != 1 || !im.fits(e, st, it) || !e.seqSame(st, it.seq, was) {
			continue
		}
		for i, x := range im.el {
			b := im.info.Backs[i]
			v := b.f.norm(e.index(b, it.seq, it.idx, x.T))
			if !k.cloneOf(b, x, v) && !(b.f.isNil(v) && b.f.isNil(x)) {
				bad("element", "an element of the clone is not a clone of that of the original")
			}
		}
		return
	}
	bad("element", "the clone does not hold one element for each of the original, in order")
}
