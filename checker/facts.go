package main

import (
	"go/types"
)

// Facts is the predicate part of an abstract state: equalities, truth of atoms, linear bounds (zones).
type Facts struct {
	tt    *TermTab
	rep   map[*Term]*Term
	truth map[*Term]bool
	le    []*Term // d with d <= 0
	bad   bool    // contradiction found
	memo  map[*Term]*Term
}

func newFacts(tt *TermTab) *Facts {
	return &Facts{tt: tt, rep: map[*Term]*Term{}, truth: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{tt: f.tt, rep: make(map[*Term]*Term, len(f.rep)), truth: make(map[*Term]bool, len(f.truth)+4), bad: f.bad}
	for k, v := range f.rep {
		n.rep[k] = v
	}
	for k, v := range f.truth {
		n.truth[k] = v
	}
	n.le = append(make([]*Term, 0, len(f.le)+4), f.le...)
	return n
}

// norm rewrites a term with the known equalities.
func (f *Facts) norm(t *Term) *Term {
	if len(f.rep) == 0 || t == nil {
		return t
	}
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	return f.normRec(t, 0)
}

func (f *Facts) normRec(t *Term, depth int) *Term {
	if r, ok := f.memo[t]; ok {
		return r
	}
	if depth > 60 {
		return t
	}
	f.memo[t] = t
	r := t
	if x, ok := f.rep[t]; ok {
		r = f.normRec(x, depth+1)
	} else if len(t.A) > 0 {
		changed := false
		as := make([]*Term, len(t.A))
		for i, a := range t.A {
			as[i] = f.normRec(a, depth+1)
			if as[i] != a {
				changed = true
			}
		}
		if changed {
			r = f.rebuild(t, as)
			if x, ok := f.rep[r]; ok {
				r = f.normRec(x, depth+1)
			}
		}
	}
	f.memo[t] = r
	return r
}

func (f *Facts) rebuild(t *Term, as []*Term) *Term {
	tt := f.tt
	switch t.Op {
	case OLin:
		l := lin{m: map[*Term]int64{}, c: t.N}
		for i, a := range as {
			l = l.add(toLin(a), t.Coef[i])
		}
		return tt.fromLin(l)
	case OLe:
		return tt.LeT(as[0], tt.Int(0))
	case OEqz:
		return tt.EqInt(as[0], tt.Int(0))
	case OEq:
		return tt.Eq(as[0], as[1])
	case ONot:
		return tt.Not(as[0])
	case OConcat:
		r := as[0]
		for _, a := range as[1:] {
			r = tt.Concat(r, a)
		}
		return r
	case OCat:
		var ps []*Term
		for _, a := range as {
			ps = append(ps, tt.parts(a)...)
		}
		return tt.Cat(ps)
	case OSub:
		return tt.SubSeq(as[0], as[1], as[2])
	case OLen:
		return tt.Len(as[0])
	case OExtract:
		return tt.Extract(as[0], int(t.N), t.T)
	case OField:
		return tt.Field(as[0], int(t.N), t.T)
	case OBin:
		if len(as) == 2 {
			n, ok := as[0].intVal()
			k, ok2 := as[1].intVal()
			switch {
			case !ok || !ok2:
			case t.S == "%" && k != 0:
				return tt.Int(n % k)
			case t.S == "&":
				return tt.Int(n & k)
			}
		}
	case OTypeIs:
		if as[0].Op == OIface {
			return tt.Bool(typeMatches(as[0].T, t.T))
		}
		if as[0].Op == ONil {
			return tt.Bool(false)
		}
	case OAssert:
		if as[0].Op == OIface && types.Identical(as[0].T, t.T) {
			return as[0].A[0]
		}
	}
	n := *t
	n.A = as
	n.key = ""
	return tt.mk(n)
}

// typeMatches: a value of concrete type c satisfies an assertion to type t
func typeMatches(c, t types.Type) bool {
	if i, ok := t.Underlying().(*types.Interface); ok {
		return types.Implements(c, i)
	}
	return types.Identical(c, t)
}

// ---- evaluation ----

// eval decides a boolean term: (value, known)
func (f *Facts) eval(c *Term) (bool, bool) {
	c = f.norm(c)
	return f.eval1(c)
}

func (f *Facts) eval1(c *Term) (bool, bool) {
	if b, ok := c.boolVal(); ok {
		return b, true
	}
	if b, ok := f.truth[c]; ok {
		return b, true
	}
	switch c.Op {
	case ONot:
		b, k := f.eval1(c.A[0])
		return !b, k
	case OLe:
		if f.implied(c.A[0]) {
			return true, true
		}
		n := f.tt.Not(c)
		if n.Op == OLe && f.implied(n.A[0]) {
			return false, true
		}
		// d<=0 with d != 0 known etc. is handled when facts are added
	case OEqz:
		d := c.A[0]
		// d==0 iff d<=0 and -d<=0
		a := f.implied(d)
		b := f.implied(f.tt.Neg(d))
		if a && b {
			return true, true
		}
		if f.implied(f.tt.AddN(d, 1)) || f.implied(f.tt.AddN(f.tt.Neg(d), 1)) {
			return false, true
		}
	case OEq:
		a, b := c.A[0], c.A[1]
		if r, ok := structEq(a, b); ok {
			return r, true
		}
		if b.Op == ONil {
			a, b = b, a
		}
		if a.Op == ONil { // nil == b
			for at, v := range f.truth {
				if v && at.Op == OTypeIs && at.A[0] == b {
					return false, true
				}
				if v && at.Op == OHas && b.Op == OLookup && at.A[0] == b.A[0] && at.A[1] == b.A[1] && false {
					return false, true
				}
			}
		}
		// an interface holding a known type against another one
		if a.Op == OIface || b.Op == OIface {
			if b.Op == OIface {
				a, b = b, a
			}
			for at, v := range f.truth {
				if at.Op == OTypeIs && at.A[0] == b {
					if v && !isIface(at.T) && !types.Identical(at.T, a.T) {
						return false, true
					}
					if v && isIface(at.T) && !typeMatches(a.T, at.T) {
						return false, true
					}
					if !v && typeMatches(a.T, at.T) {
						return false, true
					}
				}
			}
		}
	case OTypeIs:
		x := c.A[0]
		if x.Op == OIface {
			return typeMatches(x.T, c.T), true
		}
		if x.Op == ONil {
			return false, true
		}
		if b, ok := f.truth[f.tt.Eq(x, f.tt.Nil())]; ok && b {
			return false, true
		}
		for at, v := range f.truth {
			if at.Op != OTypeIs || at.A[0] != x {
				continue
			}
			if v && !isIface(at.T) {
				return typeMatches(at.T, c.T), true
			}
			if v && isIface(at.T) {
				if !isIface(c.T) && !types.Implements(c.T, at.T.Underlying().(*types.Interface)) {
					return false, true
				}
				if isIface(c.T) && types.Implements(at.T, c.T.Underlying().(*types.Interface)) {
					return true, true
				}
				if ifaceConflict(at.T, c.T) {
					return false, true
				}
			}
			if !v && isIface(at.T) && !isIface(c.T) && typeMatches(c.T, at.T) {
				return false, true
			}
			if !v && isIface(at.T) && isIface(c.T) && types.Implements(c.T, at.T.Underlying().(*types.Interface)) {
				return false, true
			}
		}
	case OHas:
		// a non-nil looked up value is present
		l := f.tt.mk(Term{Op: OLookup, A: []*Term{c.A[0], c.A[1]}})
		if f.nonNil(f.norm(l)) {
			return true, true
		}
	}
	return false, false
}

// ifaceConflict: no type can implement both interfaces (same method name, different signature)
func ifaceConflict(a, b types.Type) bool {
	ia, ok1 := a.Underlying().(*types.Interface)
	ib, ok2 := b.Underlying().(*types.Interface)
	if !ok1 || !ok2 {
		return false
	}
	for i := 0; i < ia.NumMethods(); i++ {
		for j := 0; j < ib.NumMethods(); j++ {
			if ia.Method(i).Name() == ib.Method(j).Name() && !types.Identical(ia.Method(i).Type(), ib.Method(j).Type()) {
				return true
			}
		}
	}
	return false
}

func (f *Facts) nonNil(t *Term) bool {
	v, k := f.eval1(f.tt.Eq(t, f.tt.Nil()))
	return k && !v
}

func (f *Facts) isNil(t *Term) bool {
	t = f.norm(t)
	v, k := f.eval1(f.tt.Eq(t, f.tt.Nil()))
	return k && v
}

// implied: d <= 0 follows from the known bounds
func (f *Facts) implied(d *Term) bool {
	l := toLin(d)
	if f.impliedLin(l) {
		return true
	}
	// lengths are not negative: the bound without them is stronger
	if !isDiff(l) {
		r := lin{m: map[*Term]int64{}, c: l.c}
		for t, k := range l.m {
			if !(k < 0 && (t.Op == OLen || t.Op == OMapLen)) {
				r.m[t] = k
			}
		}
		if len(r.m) < len(l.m) && f.impliedLin(r) {
			return true
		}
	}
	return f.combine(l, 2)
}

// combine: one or two known bounds that are not differences, plus a difference
func (f *Facts) combine(l lin, depth int) bool {
	diff := isDiff(l)
	for _, g := range f.le {
		gl := toLin(g)
		if diff && isDiff(gl) {
			continue
		}
		share := false
		for t, k := range gl.m {
			if c, ok := l.m[t]; ok && (c > 0) == (k > 0) {
				share = true
			}
		}
		if !share {
			continue
		}
		r := l.add(gl, -1)
		if isDiff(r) {
			if f.impliedLin(r) {
				return true
			}
		} else if depth > 1 && len(r.m) <= 4 && f.combine(r, depth-1) {
			return true
		}
	}
	return false
}

func isDiff(l lin) bool {
	if len(l.m) > 2 {
		return false
	}
	s := int64(0)
	for _, c := range l.m {
		if c != 1 && c != -1 {
			return false
		}
		s += c
	}
	return len(l.m) < 2 || s == 0
}

func sameLin(a, b lin) bool {
	if len(a.m) != len(b.m) {
		return false
	}
	for t, c := range a.m {
		if b.m[t] != c {
			return false
		}
	}
	return true
}

func lowerZero(t *Term) bool { // terms that are never negative
	switch t.Op {
	case OLen, OMapLen:
		return true
	}
	return t.Op != OLin && t.Op != OConst && isUnsigned(t.T)
}

// impliedLin decides l <= 0 in the zone domain
func (f *Facts) impliedLin(l lin) bool {
	if len(l.m) == 0 {
		return l.c <= 0
	}
	for _, g := range f.le {
		gl := toLin(g)
		if sameLin(l, gl) && l.c <= gl.c {
			return true
		}
	}
	if !isDiff(l) {
		return false
	}
	// l: x - y + c <= 0 ; want shortest bound on x - y
	var x, y *Term
	for t, c := range l.m {
		if c == 1 {
			x = t
		} else {
			y = t
		}
	}
	// nodes: nil = zero. edge u->v weight w means u - v <= w
	type edge struct {
		u, v *Term
		w    int64
	}
	var es []edge
	nodes := map[*Term]bool{x: true, y: true, nil: true}
	addTerm := func(t *Term) {
		if t != nil && !nodes[t] {
			nodes[t] = true
		}
	}
	for _, g := range f.le {
		gl := toLin(g)
		if !isDiff(gl) || len(gl.m) == 0 {
			continue
		}
		var u, v *Term
		for t, c := range gl.m {
			if c == 1 {
				u = t
			} else {
				v = t
			}
		}
		addTerm(u)
		addTerm(v)
		es = append(es, edge{u, v, -gl.c})
	}
	for t := range nodes {
		if t != nil && lowerZero(t) {
			es = append(es, edge{nil, t, 0}) // 0 - t <= 0
		}
	}
	const inf = int64(1) << 60
	dist := map[*Term]int64{}
	for t := range nodes {
		dist[t] = inf
	}
	dist[x] = 0
	for i := 0; i < len(nodes); i++ {
		ch := false
		for _, e := range es {
			if dist[e.u] < inf && dist[e.u]+e.w < dist[e.v] {
				dist[e.v] = dist[e.u] + e.w
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return dist[y] < inf && dist[y]+l.c <= 0
}

// ---- assumption ----

// assume adds c == v; false if it contradicts the facts
func (f *Facts) assume(c *Term, v bool) bool {
	if f.bad {
		return false
	}
	c = f.norm(c)
	if b, k := f.eval1(c); k {
		if b != v {
			f.bad = true
			return false
		}
		if _, ok := c.boolVal(); ok {
			return true
		}
		// known: still recorded when it is an equality (representative) below
		if c.Op != OEq && c.Op != OEqz {
			return true
		}
	}
	switch c.Op {
	case ONot:
		return f.assume(c.A[0], !v)
	case OLe:
		if !v {
			c = f.tt.Not(c)
		}
		if c.Op == OLe {
			f.addLe(c.A[0])
		} else if c.isFalse() {
			f.bad = true
		}
	case OEqz:
		d := c.A[0]
		if v {
			f.addLe(d)
			f.addLe(f.tt.Neg(d))
			f.truth[c] = true
			// x == const or x == y: representative
			l := toLin(d)
			var v0 *Term
			for t, k := range l.m {
				if (k == 1 || k == -1) && (v0 == nil || t.ID > v0.ID) {
					v0 = t
				}
			}
			if v0 != nil {
				k := l.m[v0]
				rest := l.add(toLin(v0), -k)
				r := f.tt.fromLin(lin{m: map[*Term]int64{}}.add(rest, -k))
				if !r.contains(v0) {
					f.setRep(v0, r)
				}
			}
		} else {
			f.truth[c] = false
			f.otherLength(d)
			// tighten: d<=0 and d!=0 -> d<=-1
			if f.implied(d) {
				f.addLe(f.tt.AddN(d, 1))
			}
			if f.implied(f.tt.Neg(d)) {
				f.addLe(f.tt.AddN(f.tt.Neg(d), 1))
			}
		}
	case OEq:
		if v {
			f.union(c.A[0], c.A[1])
		} else {
			f.truth[c] = false
			f.recheck()
			for i, x := range c.A {
				if s, ok := x.strVal(); ok && s == "" && isStringType(c.A[1-i].T) {
					f.assume(f.tt.LeT(f.tt.Int(1), f.tt.Len(c.A[1-i])), true)
				}
			}
		}
	default:
		f.truth[c] = v
		f.recheck()
		if v && c.Op == OPure && len(c.A) == 2 {
			f.textFacts(c)
		}
	}
	return !f.bad
}

// otherLength: texts of different length are different
func (f *Facts) otherLength(d *Term) {
	l := toLin(d)
	if l.c != 0 || len(l.m) != 2 {
		return
	}
	var a, b *Term
	for t, k := range l.m {
		if t.Op != OLen || !isStringType(t.A[0].T) {
			return
		}
		switch k {
		case 1:
			a = t.A[0]
		case -1:
			b = t.A[0]
		}
	}
	if a != nil && b != nil {
		f.assume(f.tt.Eq(a, b), false)
	}
}

// textFacts: what a successful test of a text tells about its length
func (f *Facts) textFacts(c *Term) {
	switch c.S {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		f.assume(f.tt.LeT(f.tt.Len(c.A[1]), f.tt.Len(c.A[0])), true)
	}
	if c.S == "strings.Contains" {
		if sep, ok := c.A[1].strVal(); ok && sep != "" {
			f.assume(f.tt.LeT(f.tt.Int(2), f.tt.Len(f.tt.Pure("strings.Split", types.NewSlice(types.Typ[types.String]), c.A...))), true)
			f.assume(f.tt.LeT(f.tt.Int(0), f.tt.Pure("strings.Index", types.Typ[types.Int], c.A...)), true)
			f.assume(f.tt.LeT(f.tt.Int(0), f.tt.Pure("strings.LastIndex", types.Typ[types.Int], c.A...)), true)
		}
	}
}

func (f *Facts) addLe(d *Term) {
	if n, ok := d.intVal(); ok {
		if n > 0 {
			f.bad = true
		}
		return
	}
	if f.implied(f.tt.Sub(f.tt.Int(1), d)) {
		f.bad = true
		return
	}
	f.le = append(f.le, d)
	// x<=y known different -> strict
	for c, v := range f.truth {
		if !v && c.Op == OEqz {
			e := c.A[0]
			if f.implied(e) && !f.implied(f.tt.AddN(e, 1)) {
				f.addLe(f.tt.AddN(e, 1))
			} else if ne := f.tt.Neg(e); f.implied(ne) && !f.implied(f.tt.AddN(ne, 1)) {
				f.addLe(f.tt.AddN(ne, 1))
			}
		}
	}
}

// union makes two terms equal
func (f *Facts) union(a, b *Term) {
	a, b = f.norm(a), f.norm(b)
	if a == b {
		return
	}
	if r, ok := structEq(a, b); ok && !r {
		f.bad = true
		return
	}
	if a.isConst() && b.isConst() {
		f.bad = true
		return
	}
	// representative: constants, nil, then the older term
	rank := func(t *Term) int {
		switch t.Op {
		case OConst, ONil, OAlloc, OIface, OGlobal, OFunc, OZero:
			return 0
		}
		return 1
	}
	if rank(b) < rank(a) || (rank(a) == rank(b) && b.ID < a.ID) {
		a, b = b, a
	}
	if a.contains(b) {
		return
	}
	f.setRep(b, a)
}

// setRep rewrites b to a from now on
func (f *Facts) setRep(b, a *Term) {
	if f.bad {
		return
	}
	f.rep[b] = a
	f.memo = nil
	if lowerZero(b) && !lowerZero(a) {
		f.le = append(f.le, f.tt.Neg(a))
	}
	// renormalise
	old := f.truth
	f.truth = map[*Term]bool{}
	for c, v := range old {
		n := f.norm(c)
		vv := v
		for n.Op == ONot {
			n = n.A[0]
			vv = !vv
		}
		if bv, ok := n.boolVal(); ok {
			if bv != vv {
				f.bad = true
			}
			continue
		}
		if n.Op == OLe {
			if vv {
				f.le = append(f.le, n.A[0])
			}
			continue
		}
		if pv, ok := f.truth[n]; ok && pv != vv {
			f.bad = true
		}
		f.truth[n] = vv
	}
	var le, moved []*Term
	seen := map[*Term]bool{}
	for _, d := range f.le {
		od := d
		d = f.norm(d)
		if d != od {
			moved = append(moved, d)
		}
		if n, ok := d.intVal(); ok {
			if n > 0 {
				f.bad = true
			}
			continue
		}
		if !seen[d] {
			seen[d] = true
			le = append(le, d)
		}
	}
	f.le = le
	for _, d := range moved {
		if f.implied(f.tt.Sub(f.tt.Int(1), d)) {
			f.bad = true
			return
		}
	}
	f.recheck()
	f.congruence(b)
}

// congruence: terms with a representative whose parts have changed keep it under their new form
func (f *Facts) congruence(b *Term) {
	if f.bad {
		return
	}
	keys := map[*Term]bool{}
	for k := range f.rep {
		if k != b && len(k.A) > 0 {
			keys[k] = true
		}
	}
	for _, k := range sortedTerms(keys) {
		if f.bad {
			return
		}
		changed := false
		as := make([]*Term, len(k.A))
		for i, a := range k.A {
			as[i] = f.norm(a)
			changed = changed || as[i] != a
		}
		if !changed {
			continue
		}
		n, v := f.norm(f.rebuild(k, as)), f.norm(k)
		if n != v {
			f.union(n, v)
		}
	}
}

// recheck looks for contradictions between atoms
func (f *Facts) recheck() {
	if f.bad {
		return
	}
	type cv struct {
		c *Term
		v bool
	}
	var all []cv
	for c, v := range f.truth {
		all = append(all, cv{c, v})
	}
	for _, x := range all {
		c, v := x.c, x.v
		switch c.Op {
		case OTypeIs, OEq, OHas:
			delete(f.truth, c)
			b, k := f.eval1(c)
			f.truth[c] = v
			if k && b != v {
				f.bad = true
				return
			}
		case OEqz:
			if !v && f.implied(c.A[0]) && f.implied(f.tt.Neg(c.A[0])) {
				f.bad = true
				return
			}
		}
	}
}

func (f *Facts) known(c *Term, v bool) bool {
	b, k := f.eval(c)
	return k && b == v
}

// canCompare tells that comparing the value with any other does not panic: it is nil, or of a type that can be compared
func (f *Facts) canCompare(v *Term) bool {
	v = f.norm(v)
	if v.Op == ONil || f.isNil(v) {
		return true
	}
	if v.Op == OIface {
		return strictlyComparable(v.T)
	}
	for at, ok := range f.truth {
		if ok && at.Op == OTypeIs && at.A[0] == v && strictlyComparable(at.T) {
			return true
		}
	}
	return false
}

func strictlyComparable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !strictlyComparable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return strictlyComparable(u.Elem())
	}
	return false
}
