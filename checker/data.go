package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const dataHow = "Abstract interpretation of the methods with all in-package helpers analysed in context; the values returned and the final content are compared, on each abstract exit state, with what the specification gives for that state. "

func init() {
	register("C12", "typed getters", dataHow+"For each kind of stored value that is consistent with an exit state (nil, each basic type, date, the asked type, anything else), the value and the found flag returned must be those of the conversion table.", c12)
	register("C13", "collections as sequences", dataHow+"The final list must be the specified sequence over the initial one, the results the specified elements. Methods of the thread-safe dataset must forward to the same method of the wrapped one with the same arguments and return its results.", c13)
	register("C14", "path lookup", dataHow+"First step, rest and position of a path are recognised whatever functions cut them out; found and value must be those of the designated step.", c14)
}

// ---- sequences ----

// qseg is one element, or the elements lo..hi-1 of base
type qseg struct{ elem, base, lo, hi *Term }

// qsegs gives the content of a slice in terms of older sequences
func (e *Engine) qsegs(st *State, t *Term) []qseg {
	return e.qsegsW(st, t, e.replay(st))
}

// replay follows the writes made in place to slices; nil content: unknown
func (e *Engine) replay(st *State) map[*Term][]qseg {
	var w map[*Term][]qseg
	tt := e.tt
	put := func(s *Term, at *Term, what []qseg, n *Term) {
		for isView(s) {
			at = tt.Add(s.A[1], at)
			s = s.A[0]
		}
		cur := e.qsegsW(st, s, w)
		if w == nil {
			w = map[*Term][]qseg{}
		}
		before, ok1 := e.qcut(st, cur, tt.Int(0), at)
		after, ok2 := e.qcut(st, cur, tt.Add(at, n), e.qlen(cur))
		if !ok1 || !ok2 {
			w[s] = nil
			return
		}
		w[s] = e.qmerge(st, append(append(append([]qseg{}, before...), what...), after...))
	}
	var lost func(info *LoopInfo)
	lost = func(info *LoopInfo) {
		for _, evs := range info.Events {
			for _, ev := range evs {
				var s *Term
				switch ev.Kind {
				case "store":
					if ia := innermostIndex(ev.A[0]); ia != nil {
						s = ia.A[0]
					}
				case "copy":
					s = ev.A[0]
				}
				if s != nil {
					for isView(s) {
						s = s.A[0]
					}
					if w == nil {
						w = map[*Term][]qseg{}
					}
					w[s] = nil
				}
			}
		}
	}
	for _, ev := range st.tr.list() {
		switch ev.Kind {
		case "store":
			if ia := ev.A[0]; ia.Op == OIndexAddr {
				if _, isArr := pointedArray(ia.A[0]); !isArr {
					put(ia.A[0], ia.A[1], []qseg{{elem: st.f.norm(ev.A[1])}}, tt.Int(1))
				}
			}
		case "copy":
			src := e.qsegsW(st, ev.A[1], w)
			n, dl := e.qlen(src), st.f.norm(tt.Len(ev.A[0]))
			if !st.f.known(tt.LeT(n, dl), true) {
				if !st.f.known(tt.LeT(dl, n), true) {
					if w == nil {
						w = map[*Term][]qseg{}
					}
					b := ev.A[0]
					for isView(b) {
						b = b.A[0]
					}
					w[b] = nil
					continue
				}
				n = dl
			}
			what, ok := e.qcut(st, src, tt.Int(0), n)
			if ok {
				put(ev.A[0], tt.Int(0), what, n)
			}
		case "loopexit":
			if ev.Info != nil {
				lost(ev.Info)
			}
		}
	}
	return w
}

// isView: a part of another slice, on the same memory
func isView(t *Term) bool { return t.Op == OSub || t.Op == OPure && t.S == "slice" }

func (e *Engine) qlen(s []qseg) *Term {
	n := e.tt.Int(0)
	for _, x := range s {
		n = e.tt.Add(n, e.qlen1(x))
	}
	return n
}

func (e *Engine) qlen1(x qseg) *Term {
	if x.elem != nil {
		return e.tt.Int(1)
	}
	return e.tt.Sub(x.hi, x.lo)
}

// qcut gives the elements lo..hi-1
func (e *Engine) qcut(st *State, s []qseg, lo, hi *Term) ([]qseg, bool) {
	tt := e.tt
	var out []qseg
	pos := tt.Int(0)
	if st.f.known(tt.LeT(hi, lo), true) {
		return nil, true
	}
	for _, x := range s {
		end := tt.Add(pos, e.qlen1(x))
		switch {
		case st.f.known(tt.LeT(end, lo), true), st.f.known(tt.LeT(hi, pos), true):
		case st.f.known(tt.LeT(lo, pos), true) && st.f.known(tt.LeT(end, hi), true):
			out = append(out, x)
		case x.elem != nil:
			return nil, false
		default:
			y := x
			if st.f.known(tt.LeT(pos, lo), true) {
				y.lo = tt.Add(x.lo, tt.Sub(lo, pos))
			} else if !st.f.known(tt.LeT(lo, pos), true) {
				return nil, false
			}
			if st.f.known(tt.LeT(hi, end), true) {
				y.hi = tt.Add(x.lo, tt.Sub(hi, pos))
			} else if !st.f.known(tt.LeT(end, hi), true) {
				return nil, false
			}
			out = append(out, y)
		}
		pos = end
	}
	return out, true
}

func (e *Engine) qsegsW(st *State, t *Term, written map[*Term][]qseg) []qseg {
	var out []qseg
	var walk func(t *Term, depth int)
	tt := e.tt
	walk = func(t *Term, depth int) {
		t = st.f.norm(t)
		if w, ok := written[t]; ok {
			if w != nil {
				out = append(out, w...)
				return
			}
			if depth < 20 && t.Op == OAlloc {
				if prefix, b := e.copiedBy(st, t); b != nil {
					walk(prefix, depth+1)
					walk(b, depth+1)
					return
				}
			}
			out = append(out, qseg{base: tt.Pure("written", t.T, t), lo: tt.Int(0), hi: tt.Len(t)})
			return
		}
		if c, ok := st.content[t]; ok && depth < 20 {
			walk(c, depth+1)
			return
		}
		switch {
		case t.Op == ONil:
			return
		case t.Op == OCat:
			for _, p := range t.A {
				walk(p, depth+1)
			}
			return
		case t.Op == OElem:
			out = append(out, qseg{elem: st.f.norm(t.A[0])})
			return
		case t.Op == OPure && t.S == "copyof":
			walk(t.A[0], depth+1)
			return
		case isView(t):
			n := len(out)
			walk(t.A[0], depth+1)
			if cut, ok := e.qcut(st, e.qmerge(st, out[n:]), t.A[1], t.A[2]); ok {
				out = append(out[:n:n], cut...)
				return
			}
			base := t.A[0]
			if len(written) > 0 {
				base = tt.Pure("written", base.T, base)
			}
			out = append(out[:n:n], qseg{base: base, lo: t.A[1], hi: t.A[2]})
			return
		}
		if st.flags[t] == "sorted" {
			t = tt.Pure("sorted", t.T, t)
		} else if depth < 20 && (st.loopOf[t] != nil || t.Op == OAlloc) {
			if prefix, b := e.copiedBy(st, t); b != nil {
				walk(prefix, depth+1)
				walk(b, depth+1)
				return
			}
		}
		out = append(out, qseg{base: t, lo: tt.Int(0), hi: tt.Len(t)})
	}
	walk(t, 0)
	return e.qmerge(st, out)
}

// qmerge joins neighbours and drops what is empty
func (e *Engine) qmerge(st *State, in []qseg) []qseg {
	tt := e.tt
	out := append([]qseg(nil), in...)
	// single elements of a base are segments of it
	for i, s := range out {
		if s.elem != nil && s.elem.Op == OIndex && s.elem.N == 0 {
			out[i] = qseg{base: s.elem.A[0], lo: s.elem.A[1], hi: tt.AddN(s.elem.A[1], 1)}
		}
	}
	var res []qseg
	for _, s := range out {
		if s.base != nil {
			s.lo, s.hi = st.f.norm(s.lo), st.f.norm(s.hi)
			if st.f.known(tt.LeT(s.hi, s.lo), true) {
				continue
			}
			if n := len(res); n > 0 && res[n-1].base == s.base && st.f.known(tt.EqInt(res[n-1].hi, s.lo), true) {
				res[n-1].hi = s.hi
				continue
			}
		}
		res = append(res, s)
	}
	return res
}

func (e *Engine) seqSame(st *State, a, b *Term) bool {
	x, y := e.qsegs(st, a), e.qsegs(st, b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !e.qsame(st, x[i], y[i]) {
			return false
		}
	}
	return true
}

// seqBecame: the elements are now those the second one had at the beginning
func (e *Engine) seqBecame(st *State, a, b *Term) bool {
	was := st.clone()
	b.walk(func(t *Term) bool {
		if t.Op != OAlloc {
			delete(was.flags, t)
			delete(was.content, t)
		}
		return true
	})
	x, y := e.qsegs(st, a), e.qsegsW(was, b, nil)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !e.qsame(st, x[i], y[i]) {
			return false
		}
	}
	return true
}

func (e *Engine) qsame(st *State, a, b qseg) bool {
	if a.elem != nil || b.elem != nil {
		return a.elem != nil && b.elem != nil && e.sameVal(st, a.elem, b.elem)
	}
	return a.base == b.base && st.f.known(e.tt.EqInt(a.lo, b.lo), true) && st.f.known(e.tt.EqInt(a.hi, b.hi), true)
}

// sameVal: the two terms are known to have the same value
func (e *Engine) sameVal(st *State, a, b *Term) bool {
	a, b = st.f.norm(a), st.f.norm(b)
	if a == b {
		return true
	}
	return st.f.known(e.tt.Eq(a, b), true)
}

// ---- C12 ----

var basicKinds = []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String}

// row: under the condition (nil: always) the getter returns val and found
type row struct {
	cond  *Term
	when  bool
	val   *Term
	found bool
	alt   []*Term
}

type getterSpec struct {
	m    *Module
	e    *Engine
	name string
	typ  types.Type // result type
	time types.Type
}

// rows: what the getter returns for a stored value v of type T (nil: an untyped nil; other: none of the listed types)
func (g *getterSpec) rows(v *Term, T types.Type, other bool) []row {
	tt := g.e.tt
	zero := tt.Zero(g.typ)
	none := []row{{val: zero}}
	isTime := T != nil && g.time != nil && types.Identical(T, g.time)
	var a *Term
	if T != nil {
		a = tt.mk(Term{Op: OAssert, A: []*Term{v}, T: T})
	}
	num := false
	if b, ok := T.(*types.Basic); ok {
		num = b.Info()&types.IsNumeric != 0
	}
	v2 := g.m.Name != "v1"
	switch g.name {
	case "GetString", "GetDataString":
		if T == nil && !other {
			return []row{{val: tt.Str(""), found: true}}
		}
		r := row{val: tt.Pure("fmt.Sprint", types.Typ[types.String], v), found: true}
		if b, ok := T.(*types.Basic); ok {
			switch b.Kind() {
			case types.String:
				r.alt = append(r.alt, a)
			case types.Int:
				r.alt = append(r.alt, tt.Pure("strconv.Itoa", types.Typ[types.String], a))
			case types.Bool:
				r.alt = append(r.alt, tt.Pure("strconv.FormatBool", types.Typ[types.String], a))
			}
			if b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
				r.alt = append(r.alt, tt.Pure("strconv.Itoa", types.Typ[types.String], g.e.convert(a, T, types.Typ[types.Int64])), tt.Pure("strconv.Itoa", types.Typ[types.String], g.e.convert(a, T, types.Typ[types.Int])))
			}
			if b.Info()&types.IsUnsigned != 0 {
				r.alt = append(r.alt, tt.Pure("strconv.FormatUint", types.Typ[types.String], g.e.convert(a, T, types.Typ[types.Uint64]), tt.Int(10)))
			}
			if b.Kind() != types.String {
				r.alt = append(r.alt, tt.Pure("fmt.Sprint", types.Typ[types.String], a), tt.Pure("fmt.Sprint", types.Typ[types.String], tt.mk(Term{Op: OIface, A: []*Term{a}, T: T})))
			}
		}
		return []row{r}
	case "GetBool":
		switch {
		case T == nil && !other:
			return []row{{val: tt.Bool(false), found: v2}}
		case num:
			c := tt.Eq(a, tt.Zero(T))
			return []row{{cond: c, when: true, val: tt.Bool(false), found: true}, {cond: c, when: false, val: tt.Bool(true), found: true}}
		case isTime && v2:
			c := tt.Pure("time.IsZero", types.Typ[types.Bool], a)
			return []row{{cond: c, when: true, val: tt.Bool(false), found: true}, {cond: c, when: false, val: tt.Bool(true), found: true}}
		case T != nil && isBoolType(T):
			return []row{{cond: a, when: true, val: tt.Bool(true), found: true}, {cond: a, when: false, val: tt.Bool(false), found: true}}
		}
		return []row{{val: tt.Bool(true), found: true}}
	case "GetInt", "GetFloat":
		switch {
		case num:
			return []row{{val: g.e.convert(a, T, g.typ), found: true}}
		case T != nil && isBoolType(T):
			one := tt.Const(tt.Int(1).C, g.typ)
			return []row{{cond: a, when: true, val: one, found: true}, {cond: a, when: false, val: zero, found: true}}
		case isTime && v2:
			c := tt.Pure("time.IsZero", types.Typ[types.Bool], a)
			u := tt.Pure("(time.Time).Unix", types.Typ[types.Int64], a)
			return []row{{cond: c, when: true, val: zero, found: true}, {cond: c, when: false, val: g.e.convert(u, types.Typ[types.Int64], g.typ), found: true}}
		}
		return none
	}
	// exact type
	if T != nil && types.Identical(T, g.typ) {
		return []row{{val: a, found: true}}
	}
	return none
}

func c12(c *Ctx, r *Report) {
	for _, m := range c.each() {
		var timeT types.Type
		for _, tn := range []string{"XDataset", "XDatasetCollection", "XDatasetCollectionTS"} {
			if m.Named(tn) == nil {
				continue
			}
			base := "Get"
			if tn != "XDataset" {
				base = "GetData"
			}
			bf := m.Method(tn, base)
			if bf == nil {
				r.errf("%s: no method %s of %s", m.Name, base, tn)
				continue
			}
			for _, fn := range m.ExportedMethods(tn) {
				name := fn.Name()
				sig := fn.Signature
				if !strings.HasPrefix(name, "Get") || name == base || sig.Results().Len() != 2 || !isBoolType(sig.Results().At(1).Type()) || sig.Params().Len() != 1 || !isStringType(sig.Params().At(0).Type()) {
					continue
				}
				if timeT == nil {
					if g := m.Method("XDataset", "GetTime"); g != nil {
						timeT = g.Signature.Results().At(0).Type()
					}
				}
				r.ob("getter")
				c12getter(m, r, fn, bf, timeT)
			}
		}
	}
	r.need("getter", 20)
	r.need("conversion", 200)
	r.need("not-found", 15)
}

func c12getter(m *Module, r *Report, fn, base *ssa.Function, timeT types.Type) {
	// the getter in terms of the plain lookup
	sub := newReport(r.ID)
	e, outs := sub.analyse(m, fn, Config{Opaque: func(f *ssa.Function) bool { return f == base }}, nil)
	g := &getterSpec{m: m, e: e, name: fn.Name(), typ: fn.Signature.Results().At(0).Type(), time: timeT}
	tt := e.tt
	for _, o := range outs {
		if o.Panic {
			continue
		}
		args := []*Term{tt.Int(0)}
		for i, p := range fn.Params {
			args = append(args, tt.mk(Term{Op: OSym, S: "param:" + p.Name(), N: int64(i), T: p.Type()}))
		}
		res := e.pureRes("call:"+base.RelString(m.Pkg.Types), types.Type(base.Signature.Results()), args...)
		g.check(sub, fn, o, res.A[0], res.A[1])
	}
	if len(sub.viols) > 0 && !callsAny(outs, base.RelString(m.Pkg.Types)) {
		// a getter that looks the value up by other means: compare with the lookup run on the same state
		sub2 := newReport(r.ID)
		sub2.entry = sub.entry
		e := newEngine(m, newTermTab(m.Pkg.Types), Config{})
		g.e = e
		for _, o := range e.Run(base, nil) {
			if o.Panic {
				continue
			}
			var args []*Term
			for i, p := range base.Params {
				args = append(args, e.tt.mk(Term{Op: OSym, S: "param:" + p.Name(), N: int64(i), T: p.Type()}))
			}
			for _, o2 := range e.call(fn, args, nil, o.St) {
				if !o2.Panic {
					g.check(sub2, fn, o2, o.Ret.A[0], o.Ret.A[1])
				}
			}
		}
		sub2.paths, sub2.funcs, sub2.instrs, sub2.loops = sub.paths, sub.funcs, sub.instrs, sub.loops
		sub = sub2
	}
	r.merge(sub)
}

func callsAny(outs []Outcome, name string) bool {
	for _, o := range outs {
		for ev := o.St.tr; ev != nil; ev = ev.Prev {
			if ev.Kind == "call" && ev.Name == name {
				return true
			}
		}
	}
	return false
}

// merge adds what a partial report found
func (r *Report) merge(s *Report) {
	for k, v := range s.viols {
		r.viols[k] = v
	}
	for k, n := range s.obs {
		r.obs[k] += n
	}
	for k := range s.funcs {
		r.funcs[k] = true
	}
	for k := range s.entry {
		r.entry[k] = true
	}
	r.paths += s.paths
	r.instrs += s.instrs
	r.loops += s.loops
	r.errs = append(r.errs, s.errs...)
	r.notes = append(r.notes, s.notes...)
}

// check compares one exit state with the table, for each kind of value that is possible in it
func (g *getterSpec) check(r *Report, fn *ssa.Function, o Outcome, v, ok *Term) {
	tt := g.e.tt
	zero := tt.Zero(g.typ)
	try := func(assume func(f *Facts), rule, what string, val *Term, alt []*Term, found bool) {
		st := o.St.clone()
		assume(st.f)
		if st.f.bad {
			return
		}
		r.ob(rule)
		if !st.f.known(o.Ret.A[1], found) {
			if found {
				r.fail(g.m, rule, fn, o.Pos, st, "%s does not say found for %s", g.name, what)
			} else {
				r.fail(g.m, rule, fn, o.Pos, st, "%s says found for %s", g.name, what)
			}
			return
		}
		if g.e.sameVal(st, o.Ret.A[0], val) {
			return
		}
		for _, a := range alt {
			if g.e.sameVal(st, o.Ret.A[0], a) {
				return
			}
		}
		r.fail(g.m, rule, fn, o.Pos, st, "%s returns another value than the conversion of %s", g.name, what)
	}
	// what is not found is nothing
	try(func(f *Facts) { f.assume(ok, false); f.assume(tt.Eq(v, tt.Nil()), true) }, "not-found", "a missing value", zero, nil, false)
	is := func(T types.Type) *Term { return tt.mk(Term{Op: OTypeIs, A: []*Term{v}, T: T}) }
	if isIface(g.typ) {
		w := g.e.tt.Nil()
		try(func(f *Facts) { f.assume(ok, true); f.assume(is(g.typ), true) }, "conversion", "a value of that type", v, nil, true)
		try(func(f *Facts) { f.assume(ok, true); f.assume(is(g.typ), false) }, "conversion", "a value of another type", w, nil, false)
		return
	}
	var all []types.Type
	for _, k := range basicKinds {
		all = append(all, types.Typ[k])
	}
	if g.time != nil {
		all = append(all, g.time)
	}
	own := true
	for _, T := range all {
		own = own && !types.Identical(T, g.typ)
	}
	if own {
		all = append(all, g.typ)
	}
	do := func(T types.Type, other bool, what string, assume func(f *Facts)) {
		for _, w := range g.rows(v, T, other) {
			w := w
			name := what
			try(func(f *Facts) {
				f.assume(ok, true)
				assume(f)
				if w.cond != nil {
					f.assume(w.cond, w.when)
				}
			}, "conversion", name, w.val, w.alt, w.found)
		}
	}
	do(nil, false, "a nil value", func(f *Facts) { f.assume(tt.Eq(v, tt.Nil()), true) })
	for _, T := range all {
		T := T
		do(T, false, "a value of type "+shortType(T), func(f *Facts) { f.assume(is(T), true) })
	}
	do(nil, true, "a value of any other type", func(f *Facts) {
		f.assume(tt.Eq(v, tt.Nil()), false)
		for _, T := range all {
			f.assume(is(T), false)
		}
	})
}

// ---- C13 ----

// listAddr: where a collection keeps its elements
func listAddr(e *Engine, m *Module, tn string, recv *Term) *Term {
	T := m.Named(tn)
	if _, ok := T.Underlying().(*types.Slice); ok {
		return recv
	}
	if s, ok := T.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isIface(sl.Elem()) {
				return e.fieldAddr(recv, T, i)
			}
		}
	}
	return nil
}

func c13(c *Ctx, r *Report) {
	for _, m := range c.each() {
		for _, tn := range []string{"XDatasetCollection", "XDatasetCollectionTS"} {
			if m.Named(tn) != nil {
				c13coll(m, r, tn)
				readersOf(m, r, tn)
			}
		}
		if m.Named("XDatasetTS") != nil {
			c13forward(m, r)
		}
	}
	r.need("final-content", 12)
	r.need("result", 10)
	r.need("forwarded", 12)
	r.need("reading-changes-nothing", 8)
}

func c13coll(m *Module, r *Report, tn string) {
	for _, name := range []string{"Push", "Unshift", "Pop", "Shift", "Get", "Count"} {
		fn := m.Method(tn, name)
		if fn == nil {
			r.errf("%s: no method %s of %s", m.Name, name, tn)
			continue
		}
		var addr, list *Term
		var args []*Term
		var first *State
		e, outs := r.analyse(m, fn, Config{}, func(s *State, as []*Term) {
			args = as
			addr = listAddr(s.e, m, tn, as[0])
			if addr != nil {
				list = s.e.load(s, addr, contentType(addr))
			}
			first = s.clone()
		})
		if addr == nil {
			r.errf("%s: the list of %s was not found", m.Name, tn)
			return
		}
		tt := e.tt
		n := tt.Len(list)
		elemT := contentType(addr).Underlying().(*types.Slice).Elem()
		for _, o := range outs {
			if o.Panic {
				continue
			}
			st := o.St
			final := e.load(st, addr, contentType(addr))
			// split on what the specification distinguishes
			cases := []*Term{nil}
			switch name {
			case "Pop", "Shift", "Unshift":
				cases = []*Term{tt.EqInt(n, tt.Int(0)), tt.LtT(tt.Int(0), n)}
			case "Get":
				i := args[1]
				cases = []*Term{tt.LtT(i, tt.Int(0)), tt.LeT(n, i), nil}
			}
			for k, cond := range cases {
				s := st.clone()
				if cond != nil {
					s.f.assume(cond, true)
				} else if name == "Get" {
					s.f.assume(tt.LeT(tt.Int(0), args[1]), true)
					s.f.assume(tt.LtT(args[1], n), true)
				}
				if s.f.bad {
					continue
				}
				want := list
				var ret []*Term
				switch name {
				case "Push":
					want = tt.Cat([]*Term{list, tt.Elem(args[1])})
				case "Unshift":
					want = tt.Cat([]*Term{tt.Elem(args[1]), list})
				case "Count":
					ret = []*Term{n}
				case "Pop":
					ret = []*Term{tt.Nil()}
					if k == 1 {
						want = tt.SubSeq(list, tt.Int(0), tt.AddN(n, -1))
						ret = []*Term{e.index(first, list, tt.AddN(n, -1), elemT)}
					}
				case "Shift":
					ret = []*Term{tt.Nil()}
					if k == 1 {
						want = tt.SubSeq(list, tt.Int(1), n)
						ret = []*Term{e.index(first, list, tt.Int(0), elemT)}
					}
				case "Get":
					ret = []*Term{tt.Nil(), tt.Bool(false)}
					if cond == nil {
						ret = []*Term{e.index(first, list, args[1], elemT), tt.Bool(true)}
					}
				}
				r.ob("final-content")
				if !e.seqBecame(s, final, want) {
					r.fail(m, "final-content", fn, o.Pos, s, "after %s the collection is not the specified sequence", name)
				}
				for i, w := range ret {
					r.ob("result")
					if !e.sameVal(s, o.Ret.A[i], w) {
						r.fail(m, "result", fn, o.Pos, s, "result %d of %s is not the specified one", i+1, name)
					}
				}
			}
		}
	}
}

// c13forward: the thread-safe dataset answers as the dataset it wraps
func c13forward(m *Module, r *Report) {
	T := m.Named("XDatasetTS")
	idef := m.Pkg.Types.Scope().Lookup("XDatasetDef")
	if idef == nil {
		r.errf("%s: no interface XDatasetDef", m.Name)
		return
	}
	field := -1
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), idef.Type()) {
			field = i
		}
	}
	if field < 0 {
		r.errf("%s: the wrapped dataset was not found", m.Name)
		return
	}
	ms := idef.Type().Underlying().(*types.Interface)
	for i := 0; i < ms.NumMethods(); i++ {
		name := ms.Method(i).Name()
		fn := m.Method("XDatasetTS", name)
		if fn == nil || name == "Clone" {
			continue
		}
		var data *Term
		var args []*Term
		e, outs := r.analyse(m, fn, Config{}, func(s *State, as []*Term) {
			args = as
			data = s.e.loadField(s, as[0], T, field)
		})
		for _, o := range outs {
			if o.Panic {
				continue
			}
			st := o.St
			r.ob("forwarded")
			var calls []*Ev
			for _, ev := range st.tr.list() {
				if ev.Kind == "invoke" && ev.A[0] == st.f.norm(data) {
					calls = append(calls, ev)
				}
			}
			if st.f.isNil(data) {
				// an empty dataset
				for i, x := range o.Ret.A {
					if strings.HasSuffix(name, "String") && len(o.Ret.A) == 1 {
						break
					}
					if !e.sameVal(st, x, e.tt.Zero(fn.Signature.Results().At(i).Type())) {
						r.fail(m, "forwarded", fn, o.Pos, st, "%s on nothing does not answer as an empty dataset", name)
					}
				}
				if name == "Set" {
					ok := false
					now := e.loadField(st, args[0], T, field)
					if now.Op == OIface {
						if mp, isMap := elemType(now.T).Underlying().(*types.Map); isMap {
							ver := e.mapVer(st, e.load(st, now.A[0], elemType(now.T)))
							ok = st.f.known(e.hasTerm(st, ver, args[1]), true) && e.sameVal(st, e.lookupTerm(st, ver, args[1], mp.Elem()), args[2])
						}
					}
					if !ok {
						r.fail(m, "forwarded", fn, o.Pos, st, "Set on nothing does not store the value")
					}
				}
				continue
			}
			if !e.sameVal(st, e.loadField(st, args[0], T, field), data) {
				r.fail(m, "forwarded", fn, o.Pos, st, "%s replaces the wrapped dataset", name)
			}
			if len(calls) != 1 || calls[0].Name != name || len(calls[0].A) != len(args) {
				r.fail(m, "forwarded", fn, o.Pos, st, "%s does not call %s of the wrapped dataset exactly once", name, name)
				continue
			}
			for i := 1; i < len(args); i++ {
				if !e.sameVal(st, calls[0].A[i], args[i]) {
					r.fail(m, "forwarded", fn, o.Pos, st, "%s forwards other arguments", name)
				}
			}
			res := []*Term{calls[0].Res}
			if fn.Signature.Results().Len() != 1 {
				res = calls[0].Res.A
			}
			for i, x := range o.Ret.A {
				if !e.sameVal(st, x, res[i]) {
					r.fail(m, "forwarded", fn, o.Pos, st, "%s does not return what the wrapped dataset answers", name)
				}
			}
		}
	}
}

// ---- C14 ----

// pathTerms recognises the steps of a path
type pathTerms struct {
	e   *Engine
	st  *State
	sep string
}

func (p *pathTerms) first(k *Term) *Term {
	return p.e.tt.Pure("path.first", types.Typ[types.String], k)
}
func (p *pathTerms) rest(k *Term) *Term {
	return p.e.tt.Pure("path.rest", types.Typ[types.String], k)
}
func (p *pathTerms) restN(k *Term, n int64) *Term {
	for ; n > 0; n-- {
		k = p.rest(k)
	}
	return k
}

func (p *pathTerms) isSep(t *Term) bool {
	s, ok := t.strVal()
	if n, isInt := t.intVal(); isInt {
		return n == int64(p.sep[0])
	}
	return ok && s == p.sep
}

// canon rewrites the ways of cutting a path
func (p *pathTerms) canon(t *Term) *Term { return p.canonD(t, 0) }

func (p *pathTerms) canonD(t *Term, depth int) *Term {
	tt := p.e.tt
	if depth > 12 {
		return t
	}
	t = p.st.f.norm(t)
	switch {
	case t.Op == OIndex && t.A[0].Op == OPure && t.A[0].S == "strings.Split" && p.isSep(t.A[0].A[1]):
		if i, ok := t.A[1].intVal(); ok {
			return p.first(p.restN(p.canonD(t.A[0].A[0], depth+1), i))
		}
	case t.Op == OIndex && t.A[0].Op == OPure && t.A[0].S == "strings.SplitN" && p.isSep(t.A[0].A[1]):
		i, ok := t.A[1].intVal()
		n, ok2 := t.A[0].A[2].intVal()
		if ok && ok2 && n >= 2 && i < n {
			k := p.restN(p.canonD(t.A[0].A[0], depth+1), i)
			if i == n-1 {
				return k
			}
			return p.first(k)
		}
	case t.Op == OPure && t.S == "strings.Join" && p.isSep(t.A[1]):
		s := t.A[0]
		lo := int64(0)
		if s.Op == OSub {
			n, ok := s.A[1].intVal()
			if !ok || p.st.f.norm(s.A[2]) != p.st.f.norm(tt.Len(s.A[0])) {
				break
			}
			lo, s = n, s.A[0]
		}
		if s.Op == OPure && s.S == "strings.Split" && p.isSep(s.A[1]) {
			return p.restN(p.canonD(s.A[0], depth+1), lo)
		}
	case t.Op == OPure && t.S == "substr":
		k := t.A[0]
		isIdx := func(x *Term) bool {
			return x.Op == OPure && (x.S == "strings.Index" || x.S == "strings.IndexByte" || x.S == "strings.IndexRune") && x.A[0] == k && p.isSep(x.A[1])
		}
		if n, ok := t.A[1].intVal(); ok && n == 0 && isIdx(t.A[2]) {
			return p.first(p.canonD(k, depth+1))
		}
		if isIdx(tt.AddN(t.A[1], -1)) && t.A[2] == p.st.f.norm(tt.Len(k)) {
			return p.rest(p.canonD(k, depth+1))
		}
	case t.Op == OExtract && t.A[0].Op == OPure && t.A[0].S == "strings.Cut" && p.isSep(t.A[0].A[1]):
		k := p.canonD(t.A[0].A[0], depth+1)
		if t.N == 0 {
			return p.first(k)
		}
		if t.N == 1 {
			return p.rest(k)
		}
	}
	if len(t.A) == 0 {
		return t
	}
	as := make([]*Term, len(t.A))
	same := true
	for i, a := range t.A {
		as[i] = p.canonD(a, depth+1)
		same = same && as[i] == a
	}
	if same {
		return t
	}
	n := *t
	n.A = as
	n.key = ""
	return tt.mk(n)
}

// steps: bounds of the number of separators of the key known in the state
func (p *pathTerms) steps(key *Term) (lo, hi int64) {
	tt, f := p.e.tt, p.st.f
	lo, hi = 0, 1<<30
	split := tt.Len(tt.Pure("strings.Split", types.NewSlice(types.Typ[types.String]), key, tt.Str(p.sep)))
	for n := int64(1); n <= 3; n++ {
		if f.known(tt.LeT(tt.Int(n+1), split), true) && lo < n {
			lo = n
		}
		if f.known(tt.LeT(split, tt.Int(n)), true) && hi > n-1 {
			hi = n - 1
		}
	}
	for n := int64(2); n <= 4; n++ {
		sn := tt.Len(tt.Pure("strings.SplitN", types.NewSlice(types.Typ[types.String]), key, tt.Str(p.sep), tt.Int(n)))
		for k := int64(1); k < n; k++ {
			if f.known(tt.LeT(tt.Int(k+1), sn), true) && lo < k {
				lo = k
			}
			if f.known(tt.LeT(sn, tt.Int(k)), true) && hi > k-1 {
				hi = k - 1
			}
		}
	}
	for x, v := range f.truth {
		if x.Op == OPure && x.S == "strings.Contains" && x.A[0] == key && p.isSep(x.A[1]) {
			if v && lo < 1 {
				lo = 1
			} else if !v {
				hi = 0
			}
		}
		if x.Op == OExtract && x.N == 2 && x.A[0].Op == OPure && x.A[0].S == "strings.Cut" && x.A[0].A[0] == key && p.isSep(x.A[0].A[1]) {
			if v && lo < 1 {
				lo = 1
			} else if !v {
				hi = 0
			}
		}
	}
	for _, d := range f.le {
		for _, x := range linTerms(d) {
			if x.Op == OPure && strings.HasPrefix(x.S, "strings.Index") && x.A[0] == key && p.isSep(x.A[1]) {
				if f.known(tt.LeT(tt.Int(0), x), true) && lo < 1 {
					lo = 1
				}
				if f.known(tt.LtT(x, tt.Int(0)), true) {
					hi = 0
				}
			}
			if x.Op == OPure && x.S == "strings.Count" && x.A[0] == key && p.isSep(x.A[1]) {
				for n := int64(0); n <= 3; n++ {
					if f.known(tt.LeT(tt.Int(n), x), true) && lo < n {
						lo = n
					}
					if f.known(tt.LeT(x, tt.Int(n)), true) && hi > n {
						hi = n
					}
				}
			}
		}
	}
	for k, v := range f.rep {
		if k.Op == OPure && strings.HasPrefix(k.S, "strings.Index") && k.A[0] == key && p.isSep(k.A[1]) {
			if n, ok := v.intVal(); ok && n < 0 {
				hi = 0
			}
		}
	}
	if lo > 0 {
		// what is known of the rest
		for _, rest := range p.named(key) {
			l, h := p.steps(rest)
			if l+1 > lo {
				lo = l + 1
			}
			if h+1 < hi {
				hi = h + 1
			}
		}
	}
	return lo, hi
}

// named: terms of the state that are the rest of the key
func (p *pathTerms) named(key *Term) []*Term {
	seen := map[*Term]bool{}
	want := p.rest(key)
	look := func(t *Term) {
		t.walk(func(x *Term) bool {
			if x != key && isStringType(x.T) && (x.Op == OPure || x.Op == OIndex || x.Op == OExtract) && x.S != "path.rest" && p.canon(x) == want {
				seen[x] = true
			}
			return true
		})
	}
	for t := range p.st.f.truth {
		look(t)
	}
	for _, t := range p.st.f.le {
		look(t)
	}
	return sortedTerms(seen)
}

func c14(c *Ctx, r *Report) {
	for _, m := range c.each() {
		fn := m.Method("XDataset", "Get")
		if fn == nil {
			r.errf("%s: no method Get of XDataset", m.Name)
			continue
		}
		c14get(m, r, fn)
	}
	r.need("plain", 2)
	r.need("step-missing", 2)
	r.need("through-dataset", 2)
	r.need("through-collection", 4)
}

func c14get(m *Module, r *Report, fn *ssa.Function) {
	defT := m.Pkg.Types.Scope().Lookup("XDatasetDef").Type()
	colT := m.Pkg.Types.Scope().Lookup("XDatasetCollectionDef").Type()
	var recv, key, mp, ver *Term
	e, outs := r.analyse(m, fn, Config{}, func(s *State, as []*Term) {
		recv, key = as[0], as[1]
		mp = s.e.load(s, recv, elemType(as[0].T))
		ver = s.e.mapVer(s, mp)
	})
	tt := e.tt
	anyT := m.Named("XDataset").Underlying().(*types.Map).Elem()
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		if !e.sameVal(st, e.mapVer(st, e.load(st, recv, elemType(recv.T))), ver) {
			r.fail(m, "reads-only", fn, o.Pos, st, "Get changes the dataset")
		}
		p := &pathTerms{e: e, st: st, sep: ">"}
		lo, hi := p.steps(key)
		bad := func(rule, f string, a ...interface{}) { r.fail(m, rule, fn, o.Pos, st, f, a...) }
		// expect the value and found flag
		expect := func(s *State, rule, what string, val, found *Term) {
			r.ob(rule)
			q := &pathTerms{e: e, st: s, sep: ">"}
			x, f := q.canon(o.Ret.A[0]), q.canon(o.Ret.A[1])
			val = q.canon(val)
			if fb, ok := found.boolVal(); ok {
				if !s.f.known(o.Ret.A[1], fb) && !s.f.known(f, fb) {
					bad(rule, "Get does not say %v %s", fb, what)
					return
				}
			} else if f != found {
				v1, k1 := s.f.eval(f)
				if fv, k := q.known(found); !(k1 && k && v1 == fv) {
					bad(rule, "Get does not say found as the designated step does %s", what)
					return
				}
			}
			if x != val && !s.f.known(tt.Eq(x, val), true) {
				// what the step answers when it has nothing is nothing
				if fv, k := s.f.eval(o.Ret.A[1]); k && !fv && s.f.isNil(o.Ret.A[0]) {
					return
				}
				bad(rule, "Get returns another value than the designated one %s", what)
			}
		}
		plain := func(s *State, what string) {
			h := e.hasTerm(s, ver, key)
			if v, k := s.f.eval(h); k {
				if v {
					expect(s, "plain", what, e.lookupTerm(s, ver, key, anyT), tt.Bool(true))
				} else {
					expect(s, "plain", what, tt.Nil(), tt.Bool(false))
				}
				return
			}
			expect(s, "plain", what, e.lookupTerm(s, ver, key, anyT), h)
		}
		if hi == 0 {
			plain(st, "for a key without separator")
			continue
		}
		if lo == 0 {
			// not distinguished on this path: right only if the answer is the same either way
			bad("plain", "a way through Get does not distinguish keys with and without separator")
			continue
		}
		// the first step
		var k1 *Term
		for _, ev := range st.tr.list() {
			if ev.Kind == "mapget" && ev.A[0] == mp && p.canon(ev.A[1]) == p.first(key) {
				k1 = ev.A[1]
			}
		}
		if k1 == nil {
			bad("step-missing", "Get does not look the first step of the path up")
			continue
		}
		hv, hk := st.f.eval(e.hasTerm(st, ver, k1))
		if hk && !hv {
			expect(st, "step-missing", "when the first step does not exist", tt.Nil(), tt.Bool(false))
			continue
		}
		v := st.f.norm(e.lookupTerm(st, ver, k1, anyT))
		// the three kinds of step values that are consistent with the state
		for kind := 0; kind < 3; kind++ {
			s := st.clone()
			s.f.assume(e.hasTerm(s, ver, k1), true)
			is := func(T types.Type) *Term { return tt.mk(Term{Op: OTypeIs, A: []*Term{v}, T: T}) }
			switch kind {
			case 0:
				s.f.assume(is(defT), true)
			case 1:
				s.f.assume(is(colT), true)
			case 2:
				s.f.assume(is(defT), false)
				s.f.assume(is(colT), false)
			}
			if s.f.bad {
				continue
			}
			q := &pathTerms{e: e, st: s, sep: ">"}
			get := func(x *Term, k *Term) (*Term, *Term) {
				g := tt.Pure("invoke:Get", nil, x, tt.Int(0), k)
				return tt.Extract(g, 0, nil), tt.Extract(g, 1, nil)
			}
			switch kind {
			case 0:
				gv, gf := get(q.canon(v), q.rest(key))
				expect(s, "through-dataset", "through a dataset", q.match(o.Ret.A[0], gv), q.match(o.Ret.A[1], gf))
			case 1:
				c14coll(r, e, s, q, key, v, o, expect, bad, lo, hi)
			case 2:
				plain(s, "when the first step is neither a dataset nor a collection")
			}
		}
	}
}

// known evaluates a canonical term through the terms of the state it stands for
func (p *pathTerms) known(t *Term) (bool, bool) {
	for x, v := range p.st.f.truth {
		if x != t && p.same(p.canon(x), t) {
			return v, true
		}
	}
	return p.st.f.eval(t)
}

// same compares canonical terms, whatever the types noted in them
func (p *pathTerms) same(a, b *Term) bool { return a.String() == b.String() && a.Op == b.Op }

// match: the term of the state itself when it means the wanted one
func (p *pathTerms) match(t, want *Term) *Term {
	if c := p.canon(t); p.same(c, want) {
		return c
	}
	return want
}

func c14coll(r *Report, e *Engine, s *State, p *pathTerms, key, v *Term, o Outcome, expect func(*State, string, string, *Term, *Term), bad func(string, string, ...interface{}), lo, hi int64) {
	tt := e.tt
	// the position
	var num *Ev
	for _, ev := range s.tr.list() {
		if ev.Kind == "ext" && (ev.Name == "strconv.Atoi" || ev.Name == "strconv.ParseInt" || ev.Name == "strconv.ParseUint") && (p.canon(ev.A[0]) == p.first(p.rest(key)) || hi == 1 && p.canon(ev.A[0]) == p.rest(key)) {
			num = ev
		}
	}
	if num == nil {
		bad("through-collection", "Get does not read the second step of the path as a position")
		return
	}
	if len(num.A) > 1 {
		if b, ok := num.A[1].intVal(); !ok || b != 10 || num.Name != "strconv.ParseInt" {
			bad("through-collection", "Get does not read the position as a decimal number")
			return
		}
	}
	err := num.Res.A[1]
	if ev, k := s.f.eval(tt.Eq(err, tt.Nil())); k && !ev {
		expect(s, "through-collection", "when the position is not a number", tt.Nil(), tt.Bool(false))
		return
	} else if !k {
		bad("through-collection", "Get uses a position that may not be a number")
		return
	}
	// the element
	var get *Ev
	for _, ev := range s.tr.list() {
		if ev.Kind == "invoke" && ev.Name == "Get" && s.f.norm(ev.A[0]) == s.f.norm(v) {
			i := s.f.norm(ev.A[1])
			for i.Op == OConv {
				i = i.A[0]
			}
			if i == s.f.norm(num.Res.A[0]) {
				get = ev
			}
		}
	}
	if get == nil {
		bad("through-collection", "Get does not read the element at the position of the path")
		return
	}
	el, ok := s.f.norm(get.Res.A[0]), get.Res.A[1]
	ov, ook := s.f.eval(ok)
	if s.f.isNil(el) || ook && !ov {
		expect(s, "through-collection", "when the position is out of range", tt.Nil(), tt.Bool(false))
		return
	}
	if !s.f.nonNil(el) && !(ook && ov) {
		bad("through-collection", "Get uses an element that may not exist")
		return
	}
	if hi == 1 {
		expect(s, "through-collection", "for a path that ends at a position", el, tt.Bool(true))
		return
	}
	if lo < 2 {
		bad("through-collection", "a way through Get does not distinguish paths that end at a position")
		return
	}
	g := tt.Pure("invoke:Get", nil, p.canon(el), tt.Int(0), p.restN(key, 2))
	gv, gf := tt.Extract(g, 0, nil), tt.Extract(g, 1, nil)
	expect(s, "through-collection", "below a position", p.match(o.Ret.A[0], gv), p.match(o.Ret.A[1], gf))
}
