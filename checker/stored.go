package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C34: datasets hold what was stored in them ----

type stored struct {
	m    *Module
	r    *Report
	e    *Engine
	fn   *ssa.Function
	ds   *types.Named
	news map[string]*ssa.Function // constructors, by relative name
	one  types.Type               // table given for a dataset
	many types.Type               // list of tables given for a collection
	any  types.Type               // list of anything
}

func storedCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		ds := m.Named("XDataset")
		if ds == nil {
			r.errf("%s: no type XDataset", m.Name)
			continue
		}
		g := &stored{m: m, r: r, ds: ds, news: map[string]*ssa.Function{}}
		g.change("Set")
		g.change("Del")
		readersOf(m, r, "XDataset")
		if m.Named("XDatasetTS") != nil {
			readersOf(m, r, "XDatasetTS")
		}
		one, many := m.Func("NewXDataset"), m.Func("NewXDatasetCollection")
		if one == nil || many == nil {
			if m.Name == "v2" {
				r.errf("%s: the constructors of datasets and collections were not found", m.Name)
			}
			continue
		}
		for _, f := range []*ssa.Function{one, many} {
			g.news[f.RelString(m.Pkg.Types)] = f
		}
		g.one = one.Signature.Params().At(0).Type()
		g.many = many.Signature.Params().At(0).Type()
		if u, ok := g.one.Underlying().(*types.Map); ok {
			g.any = types.NewSlice(u.Elem())
		} else {
			r.errf("%s: a dataset is not made from a table", m.Name)
			continue
		}
		g.dataset(one)
		g.collection(many)
		if f := m.Func("NewXDatasetTS"); f != nil {
			g.wrapper(f)
		}
	}
	r.need("entry-set", 2)
	r.need("entry-deleted", 2)
	r.need("others-unchanged", 4)
	r.need("reading-changes-nothing", 8)
	r.need("entry-built", 3)
	r.need("element-built", 1)
}

// change: the method sets or deletes the entry of its first argument and nothing else
func (g *stored) change(name string) {
	fn := g.m.Method("XDataset", name)
	if fn == nil {
		g.r.errf("%s: no method %s of XDataset", g.m.Name, name)
		return
	}
	u, ok := g.ds.Underlying().(*types.Map)
	if !ok {
		g.r.errf("%s: a dataset is not a table any more", g.m.Name)
		return
	}
	put := name == "Set"
	rule := "entry-set"
	if !put {
		rule = "entry-deleted"
	}
	var args []*Term
	var obj0, before *Term
	e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) {
		args = as
		obj0 = s.f.norm(s.e.load(s, as[0], g.ds))
		before = s.e.mapVer(s, obj0)
	})
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St.clone()
		other := e.newSym("other", u.Key())
		st.f.assume(e.tt.Eq(other, args[1]), false)
		was := before
		if st.f.isNil(obj0) {
			was = e.mapVer(st, e.tt.Nil())
		}
		ver := e.uncopied(st, e.mapVer(st, st.f.norm(e.load(st, args[0], g.ds))), was, u.Elem())
		same := func(key *Term) bool {
			if was == ver {
				return true
			}
			return st.f.norm(e.hasTerm(st, was, key)) == st.f.norm(e.hasTerm(st, ver, key)) &&
				(st.f.known(e.hasTerm(st, was, key), false) || st.f.norm(e.lookupTerm(st, was, key, u.Elem())) == st.f.norm(e.lookupTerm(st, ver, key, u.Elem())))
		}
		if !put && e.without(st, ver, was, args[1], u.Elem()) {
			g.r.ob("others-unchanged")
			g.r.ob(rule)
			continue
		}
		g.r.ob("others-unchanged")
		if !same(other) && !e.sameTable(st, ver, was, u.Elem()) {
			g.r.fail(g.m, "others-unchanged", fn, o.Pos, st, "%s changes other entries of the dataset", name)
		}
		g.r.ob(rule)
		has := e.hasTerm(st, ver, args[1])
		switch {
		case put && (!st.f.known(has, true) || !e.sameVal(st, e.lookupTerm(st, ver, args[1], u.Elem()), args[2])):
			g.r.fail(g.m, rule, fn, o.Pos, st, "after Set the dataset does not hold the value given under the key")
		case !put && !st.f.known(has, false):
			g.r.fail(g.m, rule, fn, o.Pos, st, "after Del the dataset still holds something under the key")
		}
	}
}

func (g *stored) build(fn *ssa.Function) (*Engine, []Outcome, []*Term) {
	var args []*Term
	g.fn = fn
	cfg := Config{OpaqueImp: func(f *ssa.Function) bool {
		return f != fn && g.news[f.RelString(g.m.Pkg.Types)] == f
	}}
	e, outs := g.r.analyse(g.m, fn, cfg, func(s *State, as []*Term) { args = as })
	g.e = e
	return e, outs, args
}

// made: w is the result of the constructor of the name called with v
func (g *stored) made(st *State, w, v *Term, typ types.Type) bool {
	w, v = bare(st.f.norm(w)), bare(st.f.norm(v))
	for ev := st.tr; ev != nil; ev = ev.Prev {
		f := g.news[ev.Name]
		if ev.Kind != "reccall" || f == nil || ev.Res == nil || len(ev.A) == 0 || !types.Identical(f.Signature.Params().At(0).Type(), typ) {
			continue
		}
		if bare(st.f.norm(ev.Res)) == w && bare(st.f.norm(ev.A[0])) == v {
			return true
		}
	}
	return false
}

func (g *stored) may(st *State, v *Term, T types.Type) (*State, bool) {
	s := st.clone()
	s.f.assume(g.e.tt.mk(Term{Op: OTypeIs, A: []*Term{v}, T: T}), true)
	return s, !s.f.bad
}

// dataset: one entry for each of the table given
func (g *stored) dataset(fn *ssa.Function) {
	e, outs, args := g.build(fn)
	u := g.one.Underlying().(*types.Map)
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St
		src := st.f.norm(args[0])
		bad := func(rule, f string, a ...interface{}) { g.r.fail(g.m, rule, fn, o.Pos, st, f, a...) }
		g.r.ob("new-object")
		res := bare(st.f.norm(o.Ret.A[0]))
		if res.Op != OAlloc || !types.Identical(res.T, g.ds) {
			bad("new-object", "no new dataset is returned")
			continue
		}
		mp := st.f.norm(e.load(st, res, g.ds))
		ver := e.mapVer(st, mp)
		from := e.mapVer(st, src)
		if st.f.isNil(src) || st.f.known(e.tt.EqInt(e.mapLen(st, from), e.tt.Int(0)), true) {
			if !st.f.isNil(mp) && ver.Op != OMapEmpty && st.loopOf[ver] == nil {
				bad("entry-built", "a dataset made from nothing is not empty")
			}
			continue
		}
		g.r.ob("entry-built")
		if st.f.isNil(mp) || ver.Op == OMapEmpty {
			if s := st.clone(); s.f.assume(e.tt.LtT(e.tt.Int(0), e.mapLen(s, from)), true) && !s.f.bad {
				bad("entry-built", "a way through the constructor leaves the dataset empty")
			}
			continue
		}
		if mp.Op != OAlloc {
			bad("new-object", "the dataset shares the table it was given")
			continue
		}
		ps, ok := e.tableImage(st, ver, from, u.Elem())
		if !ok {
			bad("entry-built", "the dataset does not hold exactly one entry for each of the table given")
			continue
		}
		for _, p := range ps {
			g.r.ob("entry-built")
			if p.val == nil {
				bad("entry-built", "an entry of the table given is left out")
				continue
			}
			if msg := g.value(p.st, p.val, p.src); msg != "" {
				bad("entry-built", "%s", msg)
			}
		}
	}
}

// value: what a dataset holds for a value of the table given
func (g *stored) value(st *State, w, v *Term) string {
	e := g.e
	rest := st.clone()
	for _, T := range []types.Type{g.one, g.many, g.any} {
		rest.f.assume(e.tt.mk(Term{Op: OTypeIs, A: []*Term{v}, T: T}), false)
		s, ok := g.may(st, v, T)
		if !ok {
			continue
		}
		switch {
		case types.Identical(T, g.one):
			if !g.made(s, w, v, T) {
				return "a table given as a value is not kept as a dataset of its content"
			}
		case types.Identical(T, g.many):
			if !g.made(s, w, v, T) && !g.each(s, w, v, false) {
				return "a list of tables given as a value is not kept as a collection of all of them in order"
			}
		default:
			if !g.each(s, w, v, true) {
				return "the tables in a list given as a value are not kept as a collection of them in order"
			}
		}
	}
	if !rest.f.bad && !e.sameVal(rest, w, v) {
		return "a value that is neither a table nor a list of tables is not kept as it is"
	}
	return ""
}

// each: w is a new collection with a dataset for each table in the list v, in order
func (g *stored) each(st *State, w, v *Term, mixed bool) bool {
	e := g.e
	res := bare(st.f.norm(w))
	for ev := st.tr; ev != nil && mixed; ev = ev.Prev {
		// made from the list of the tables in it
		if f := g.news[ev.Name]; ev.Kind == "reccall" && f != nil && ev.Res != nil && len(ev.A) > 0 && types.Identical(f.Signature.Params().At(0).Type(), g.many) && bare(st.f.norm(ev.Res)) == res {
			return g.filled(st, ev.A[0], bare(st.f.norm(v)), true, func(b *State, y, x *Term) bool {
				return bare(b.f.norm(y)) == bare(x)
			})
		}
	}
	if res.Op != OAlloc || res.T == nil || sliceElem(res.T) == nil {
		return false
	}
	return g.elements(st, e.load(st, res, res.T), bare(st.f.norm(v)), mixed)
}

func (g *stored) elements(st *State, is, was *Term, mixed bool) bool {
	e := g.e
	g.r.ob("element-built")
	if len(e.qsegs(st, is)) == 0 {
		return st.f.known(e.tt.LeT(e.tt.Len(was), e.tt.Int(0)), true)
	}
	if im := e.builtBy(st, is); im != nil && len(e.qsegs(st, im.prefix)) == 0 {
		for _, it := range e.over(st, im.info) {
			if it.seq == nil || it.step != 1 || !im.fits(e, st, it) || !g.sameList(st, it.seq, was) {
				continue
			}
			ok := true
			for i, x := range im.el {
				b := im.info.Backs[i]
				ok = ok && g.made(b, x, e.index(b, it.seq, it.idx, g.elemOf(mixed)), g.one)
			}
			if ok {
				return true
			}
		}
	}
	return g.filled(st, is, was, mixed, func(b *State, y, x *Term) bool { return g.made(b, y, x, g.one) })
}

// filled: a loop adds one element for each of the list, in order; elements of a mixed list that are no tables may be left out
func (g *stored) filled(st *State, is, was *Term, mixed bool, same func(b *State, y, x *Term) bool) bool {
	e := g.e
	q := e.resolveSeq(st, is)
	info := st.loopOf[q]
	if info == nil || len(e.qsegs(st, info.Init[q])) > 0 {
		return false
	}
	for _, it := range e.over(st, info) {
		if it.seq == nil || !g.sameList(st, it.seq, was) {
			continue
		}
		ok := true
		for i, nv := range info.Back[q] {
			b := info.Backs[i]
			x := b.f.norm(e.index(b, it.seq, it.idx, g.elemOf(mixed)))
			ps := e.tt.parts(b.f.norm(nv))
			if it.step == -1 && len(ps) == 2 {
				ps = []*Term{ps[1], ps[0]} // put in front, from the last one on
			}
			if len(ps) > 0 {
				ps = append([]*Term{e.resolveSeq(b, ps[0])}, ps[1:]...)
			}
			switch {
			case len(ps) == 1 && ps[0] == b.f.norm(q) && mixed:
				_, may := g.may(b, x, g.one)
				ok = ok && !may
			case len(ps) == 2 && ps[0] == b.f.norm(q) && ps[1].Op == OElem:
				ok = ok && same(b, ps[1].A[0], x)
			default:
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (g *stored) elemOf(mixed bool) types.Type {
	if mixed {
		return sliceElem(g.any)
	}
	return g.one
}

func (g *stored) sameList(st *State, a, b *Term) bool {
	return bare(st.f.norm(a)) == bare(st.f.norm(b)) || g.e.seqSame(st, a, b)
}

// collection: one dataset for each table given, in order
func (g *stored) collection(fn *ssa.Function) {
	e, outs, args := g.build(fn)
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St
		g.r.ob("new-object")
		res := bare(st.f.norm(o.Ret.A[0]))
		if res.Op != OAlloc || res.T == nil || sliceElem(res.T) == nil {
			g.r.fail(g.m, "new-object", fn, o.Pos, st, "no new collection is returned")
			continue
		}
		if !g.elements(st, e.load(st, res, res.T), st.f.norm(args[0]), false) {
			g.r.fail(g.m, "element-built", fn, o.Pos, st, "the collection does not hold exactly one dataset for each table given, in order")
		}
	}
}

// wrapper: the new thread-safe dataset wraps the one given
func (g *stored) wrapper(fn *ssa.Function) {
	e, outs, args := g.build(fn)
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St
		g.r.ob("wrapped")
		res := bare(st.f.norm(o.Ret.A[0]))
		var u *types.Struct
		if res.Op == OAlloc && res.T != nil {
			u, _ = res.T.Underlying().(*types.Struct)
		}
		if u == nil {
			g.r.fail(g.m, "wrapped", fn, o.Pos, st, "no new object is returned")
			continue
		}
		found := false
		for i := 0; i < u.NumFields(); i++ {
			if isIface(u.Field(i).Type()) && e.sameVal(st, e.loadField(st, res, res.T, i), args[0]) {
				found = true
			}
		}
		if !found && !st.f.isNil(args[0]) {
			g.r.fail(g.m, "wrapped", fn, o.Pos, st, "the new object does not wrap the dataset given")
		}
	}
}

func init() {
	register("C34", "stored data", dataHow+"The table of a dataset before and after each change is compared: the entry of the key given is the value given (or gone), every other one is as before. A dataset or collection made from standard tables and lists must be an image of them, entry by entry and element by element, with tables as datasets and lists of tables as collections.", storedCheck)
}
