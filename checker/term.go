package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed value numbers: two SSA values with the same term have the same value.
// They never change; the memory of a state maps addresses to terms.

type Op uint8

const (
	OConst Op = iota
	ONil
	OZero
	OSym
	OAlloc
	OGlobal
	OFunc
	OClosure
	OFieldAddr
	OIndexAddr
	OLoad
	OField
	OStruct
	OLin
	OBin
	OUn
	OConv
	OIface
	OAssert
	OLookup
	OHas
	OMapLen
	OMapInit
	OMapEmpty
	OMapPut
	OMapDel
	OMapSym
	OLen
	OIndex
	OCat
	OSub
	OElem
	OConcat
	OPure
	OExtract
	OTuple
	ONot
	OLe
	OEqz
	OEq
	OTypeIs
)

var opNames = []string{"const", "nil", "zero", "sym", "alloc", "global", "func", "closure", "fieldaddr", "indexaddr", "load", "field", "struct", "lin", "bin", "un", "conv", "iface", "assert", "lookup", "has", "maplen", "mapinit", "mapempty", "mapput", "mapdel", "mapsym", "len", "index", "cat", "sub", "elem", "concat", "pure", "extract", "tuple", "not", "le", "eqz", "eq", "typeis"}

type Term struct {
	ID   int
	Op   Op
	A    []*Term
	S    string
	N    int64
	Coef []int64
	C    constant.Value
	T    types.Type // auxiliary type (conversion target, asserted type) or type of the value
	Ref  interface{}
	key  string
}

type TermTab struct {
	tab  map[string]*Term
	n    int
	tstr map[types.Type]string
	pkg  *types.Package
}

func newTermTab(pkg *types.Package) *TermTab {
	return &TermTab{tab: map[string]*Term{}, tstr: map[types.Type]string{}, pkg: pkg}
}

func (tt *TermTab) typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := tt.tstr[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	tt.tstr[t] = s
	return s
}

func (tt *TermTab) mk(t Term) *Term {
	if t.Op == OStruct && len(t.A) > 0 && t.A[0].Op == OField {
		// a structure rebuilt from all the fields of another
		x, same := t.A[0].A[0], true
		for i, a := range t.A {
			same = same && a.Op == OField && a.N == int64(i) && a.A[0] == x
		}
		if same && x.T != nil && t.T != nil && types.Identical(x.T, t.T) {
			return x
		}
	}
	var b strings.Builder
	b.WriteByte(byte('A' + t.Op))
	b.WriteString(t.S)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.N, 10))
	switch t.Op {
	case OConst:
		b.WriteString("|" + t.C.ExactString() + "|" + t.C.Kind().String())
	case OConv, OIface, OAssert, OTypeIs, OZero:
		b.WriteString("|" + tt.typeStr(t.T))
	}
	for i, a := range t.A {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
		if t.Coef != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(t.Coef[i], 10))
		}
	}
	k := b.String()
	if x, ok := tt.tab[k]; ok {
		return x
	}
	tt.n++
	t.ID = tt.n
	t.key = k
	n := new(Term)
	*n = t
	tt.tab[k] = n
	return n
}

func (tt *TermTab) fresh(op Op, name string, typ types.Type) *Term {
	return tt.mk(Term{Op: op, S: name, N: int64(tt.n + 1), T: typ})
}

func (tt *TermTab) Nil() *Term { return tt.mk(Term{Op: ONil}) }
func (tt *TermTab) Const(c constant.Value, typ types.Type) *Term {
	if c.Kind() == constant.Float || c.Kind() == constant.Int {
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return tt.mk(Term{Op: OConst, C: constant.ToFloat(c), S: "f", T: typ})
		}
		if x := constant.ToInt(c); x.Kind() == constant.Int {
			c = x
		}
	}
	return tt.mk(Term{Op: OConst, C: c, T: typ})
}
func (tt *TermTab) Int(n int64) *Term {
	return tt.mk(Term{Op: OConst, C: constant.MakeInt64(n), T: types.Typ[types.Int]})
}
func (tt *TermTab) Bool(b bool) *Term {
	return tt.mk(Term{Op: OConst, C: constant.MakeBool(b), T: types.Typ[types.Bool]})
}
func (tt *TermTab) Str(s string) *Term {
	return tt.mk(Term{Op: OConst, C: constant.MakeString(s), T: types.Typ[types.String]})
}

func (t *Term) isConst() bool { return t.Op == OConst }
func (t *Term) intVal() (int64, bool) {
	if t.Op == OConst && t.C.Kind() == constant.Int && t.S != "f" {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.Op == OConst && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) boolVal() (bool, bool) {
	if t.Op == OConst && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *Term) isTrue() bool  { b, ok := t.boolVal(); return ok && b }
func (t *Term) isFalse() bool { b, ok := t.boolVal(); return ok && !b }

// zero value of a type
func (tt *TermTab) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool(false)
		case u.Info()&types.IsString != 0:
			return tt.Str("")
		case u.Info()&types.IsNumeric != 0:
			return tt.Const(constant.MakeInt64(0), t)
		}
		return tt.Nil()
	case *types.Struct:
		if !tt.decomposable(t) {
			return tt.mk(Term{Op: OZero, T: t})
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, tt.Zero(u.Field(i).Type()))
		}
		return tt.mk(Term{Op: OStruct, A: fs, T: t, S: tt.typeStr(t)})
	case *types.Array:
		return tt.mk(Term{Op: OZero, T: t})
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, tt.Zero(u.At(i).Type()))
		}
		return tt.mk(Term{Op: OTuple, A: fs})
	}
	return tt.Nil()
}

// decomposable: a struct whose fields the analysed package can access
func (tt *TermTab) decomposable(t types.Type) bool {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() == tt.pkg
	}
	_ = u
	return true
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool { return t != nil && types.IsInterface(t) }

// ---- linear integer terms ----

type lin struct {
	m map[*Term]int64
	c int64
}

func toLin(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	switch t.Op {
	case OConst:
		if n, ok := t.intVal(); ok {
			l.c = n
			return l
		}
	case OLin:
		l.c = t.N
		for i, a := range t.A {
			l.m[a] = t.Coef[i]
		}
		return l
	}
	l.m[t] = 1
	return l
}

func (l lin) add(o lin, k int64) lin {
	r := lin{m: map[*Term]int64{}, c: l.c + k*o.c}
	for t, c := range l.m {
		r.m[t] = c
	}
	for t, c := range o.m {
		r.m[t] += k * c
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (tt *TermTab) fromLin(l lin) *Term {
	if len(l.m) == 0 {
		return tt.Int(l.c)
	}
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	if len(ts) == 1 && l.m[ts[0]] == 1 && l.c == 0 {
		return ts[0]
	}
	cs := make([]int64, len(ts))
	for i, t := range ts {
		cs[i] = l.m[t]
	}
	return tt.mk(Term{Op: OLin, A: ts, Coef: cs, N: l.c, T: types.Typ[types.Int]})
}

func (tt *TermTab) Add(a, b *Term) *Term { return tt.fromLin(toLin(a).add(toLin(b), 1)) }
func (tt *TermTab) Sub(a, b *Term) *Term { return tt.fromLin(toLin(a).add(toLin(b), -1)) }
func (tt *TermTab) AddN(a *Term, n int64) *Term {
	return tt.Add(a, tt.Int(n))
}
func (tt *TermTab) Neg(a *Term) *Term { return tt.fromLin(lin{m: map[*Term]int64{}}.add(toLin(a), -1)) }

// Le: a <= b
func (tt *TermTab) LeT(a, b *Term) *Term {
	d := tt.Sub(a, b)
	if n, ok := d.intVal(); ok {
		return tt.Bool(n <= 0)
	}
	return tt.mk(Term{Op: OLe, A: []*Term{d}})
}
func (tt *TermTab) LtT(a, b *Term) *Term { return tt.LeT(tt.AddN(a, 1), b) }

func (tt *TermTab) EqInt(a, b *Term) *Term {
	d := tt.Sub(a, b)
	if n, ok := d.intVal(); ok {
		return tt.Bool(n == 0)
	}
	// sign normal form: first coefficient positive
	l := toLin(d)
	first := d
	if d.Op == OLin {
		first = d.A[0]
	}
	if l.m[first] < 0 {
		d = tt.Neg(d)
	}
	return tt.mk(Term{Op: OEqz, A: []*Term{d}})
}

func (tt *TermTab) Not(a *Term) *Term {
	switch a.Op {
	case OConst:
		if b, ok := a.boolVal(); ok {
			return tt.Bool(!b)
		}
	case ONot:
		return a.A[0]
	case OLe: // !(d<=0) = d>=1 = 1-d<=0
		return tt.LeT(tt.Int(1), a.A[0])
	}
	return tt.mk(Term{Op: ONot, A: []*Term{a}})
}

// intLike reports whether equality of the term is decided by the linear form
func intLike(t *Term) bool {
	switch t.Op {
	case OConst:
		return t.C.Kind() == constant.Int && t.S != "f"
	case OLin, OLen, OMapLen:
		return true
	}
	return isIntType(t.T) && t.Op != OIface
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.Bool(true)
	}
	// a conversion that gives zero for zero only
	for i := 0; i < 2; i++ {
		if a.Op == OConv && b.isConst() && a.A[0].T != nil && (b.C.Kind() == constant.Int || b.C.Kind() == constant.Float) && constant.Sign(b.C) == 0 {
			if from := a.A[0].T; (isIntType(from) && isIntType(a.T) || losslessConv(from, a.T)) && intBits(from) <= intBits(a.T) || isIntType(from) && !isIntType(a.T) {
				return tt.Eq(a.A[0], tt.Zero(from))
			}
		}
		a, b = b, a
	}
	if intLike(a) && intLike(b) {
		return tt.EqInt(a, b)
	}
	if a.isConst() && b.isConst() {
		if a.C.Kind() == b.C.Kind() {
			return tt.Bool(constant.Compare(a.C, token.EQL, b.C))
		}
	}
	if isBoolConst(a) {
		a, b = b, a
	}
	if isBoolConst(b) {
		if b.isTrue() {
			return a
		}
		return tt.Not(a)
	}
	if r, ok := structEq(a, b); ok {
		return tt.Bool(r)
	}
	if a.Op == OIface && b.Op == OIface && types.Identical(a.T, b.T) {
		return tt.Eq(a.A[0], b.A[0])
	}
	if a.Op == OStruct && b.Op == OStruct && len(a.A) == len(b.A) {
		// conjunction not expressed; only decided cases
		all := true
		for i := range a.A {
			e := tt.Eq(a.A[i], b.A[i])
			if e.isFalse() {
				return e
			}
			if !e.isTrue() {
				all = false
			}
		}
		if all {
			return tt.Bool(true)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return tt.mk(Term{Op: OEq, A: []*Term{a, b}})
}

func isBoolConst(t *Term) bool { _, ok := t.boolVal(); return ok }

// structEq decides equality of terms that are known to be equal/different whatever the state
func structEq(a, b *Term) (bool, bool) {
	nn := func(t *Term) bool { // certainly not nil
		switch t.Op {
		case OAlloc, OGlobal, OFunc, OClosure, OFieldAddr, OIndexAddr, OIface, OStruct:
			return true
		}
		return false
	}
	if (a.Op == ONil && nn(b)) || (b.Op == ONil && nn(a)) {
		return false, true
	}
	if (a.Op == OAlloc && (b.Op == OAlloc || b.Op == OGlobal)) || (a.Op == OGlobal && b.Op == OAlloc) {
		return a == b, true
	}
	if a.Op == OIface && b.Op == OIface && !types.Identical(a.T, b.T) {
		return false, true
	}
	return false, false
}

func (tt *TermTab) Pure(name string, typ types.Type, args ...*Term) *Term {
	return tt.mk(Term{Op: OPure, S: name, A: args, T: typ})
}

func (tt *TermTab) Tuple(ts ...*Term) *Term { return tt.mk(Term{Op: OTuple, A: ts}) }

func (tt *TermTab) Extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == OTuple {
		return t.A[i]
	}
	return tt.mk(Term{Op: OExtract, A: []*Term{t}, N: int64(i), T: typ})
}

func (tt *TermTab) FieldAddr(b *Term, i int, typ types.Type) *Term {
	return tt.mk(Term{Op: OFieldAddr, A: []*Term{b}, N: int64(i), T: typ})
}
func (tt *TermTab) IndexAddr(b, i *Term, typ types.Type) *Term {
	return tt.mk(Term{Op: OIndexAddr, A: []*Term{b, i}, T: typ})
}

func (tt *TermTab) Field(x *Term, i int, typ types.Type) *Term {
	if x.Op == OStruct {
		return x.A[i]
	}
	return tt.mk(Term{Op: OField, A: []*Term{x}, N: int64(i), T: typ})
}

// ---- strings ----

func (tt *TermTab) Concat(a, b *Term) *Term {
	var ps []*Term
	add := func(t *Term) {
		if t.Op == OConcat {
			ps = append(ps, t.A...)
		} else {
			ps = append(ps, t)
		}
	}
	add(a)
	add(b)
	var out []*Term
	for _, p := range ps {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if len(out) > 0 {
				if s0, ok := out[len(out)-1].strVal(); ok {
					out[len(out)-1] = tt.Str(s0 + s)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return tt.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return tt.mk(Term{Op: OConcat, A: out, T: types.Typ[types.String]})
}

// ---- sequences ----

// parts decomposes a slice value into segments of other slices and single elements
func (tt *TermTab) parts(t *Term) []*Term {
	switch t.Op {
	case ONil:
		return nil
	case OCat:
		return t.A
	case OSub, OElem:
		return []*Term{t}
	}
	return []*Term{t} // whole slice
}

func (tt *TermTab) partLen(p *Term) *Term {
	switch p.Op {
	case OElem:
		return tt.Int(1)
	case OSub:
		return tt.Sub(p.A[2], p.A[1])
	}
	return tt.Len(p)
}

func (tt *TermTab) Len(t *Term) *Term {
	switch t.Op {
	case ONil:
		return tt.Int(0)
	case OCat, OSub, OElem:
		n := tt.Int(0)
		for _, p := range tt.parts(t) {
			n = tt.Add(n, tt.partLen(p))
		}
		return n
	case OConst:
		if s, ok := t.strVal(); ok {
			return tt.Int(int64(len(s)))
		}
	case OPure:
		if t.S == "copyof" || t.S == "bytes" {
			return tt.Len(t.A[0])
		}
		if t.S == "slice" {
			return tt.Sub(t.A[2], t.A[1])
		}
	case OIndex:
		if n, ok := reLen(t); ok {
			return tt.Int(n)
		}
	}
	return tt.mk(Term{Op: OLen, A: []*Term{t}, T: types.Typ[types.Int]})
}

func (tt *TermTab) Cat(ps []*Term) *Term {
	var out []*Term
	for _, p := range ps {
		if p.Op == OSub {
			if p.A[1] == p.A[2] {
				continue
			}
			// whole
			if n, ok := p.A[1].intVal(); ok && n == 0 && p.A[2] == tt.Len(p.A[0]) {
				p = p.A[0]
			}
		}
		if len(out) > 0 && p.Op == OSub && out[len(out)-1].Op == OSub && out[len(out)-1].A[0] == p.A[0] && out[len(out)-1].A[2] == p.A[1] {
			q := tt.mk(Term{Op: OSub, A: []*Term{p.A[0], out[len(out)-1].A[1], p.A[2]}, T: p.T})
			if n, ok := q.A[1].intVal(); ok && n == 0 && q.A[2] == tt.Len(q.A[0]) {
				q = q.A[0]
			}
			out[len(out)-1] = q
			continue
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return tt.Nil()
	case 1:
		return out[0]
	}
	return tt.mk(Term{Op: OCat, A: out})
}

func (tt *TermTab) Elem(v *Term) *Term { return tt.mk(Term{Op: OElem, A: []*Term{v}}) }

func (tt *TermTab) SubSeq(base, lo, hi *Term) *Term {
	if base.Op == OSub {
		return tt.Cat([]*Term{tt.mk(Term{Op: OSub, A: []*Term{base.A[0], tt.Add(base.A[1], lo), tt.Add(base.A[1], hi)}, T: base.T})})
	}
	return tt.Cat([]*Term{tt.mk(Term{Op: OSub, A: []*Term{base, lo, hi}, T: base.T})})
}

// ---- printing ----

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", t.ID)
	}
	as := func() string {
		var s []string
		for _, a := range t.A {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		return t.C.String()
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + shortType(t.T) + ")"
	case OSym, OAlloc, OMapSym:
		return fmt.Sprintf("%s@%d", t.S, t.N)
	case OMapEmpty:
		return "{}"
	case OGlobal, OFunc:
		return t.S
	case OFieldAddr:
		return "&" + t.A[0].str(d-1) + "." + fieldName(t)
	case OIndexAddr:
		return "&" + t.A[0].str(d-1) + "[" + t.A[1].str(d-1) + "]"
	case OLoad:
		s := t.A[0].str(d - 1)
		e := ""
		if t.N > 0 {
			e = fmt.Sprintf("'%d", t.N)
		}
		if strings.HasPrefix(s, "&") {
			return s[1:] + e
		}
		return "*" + s + e
	case OField:
		return fmt.Sprintf("%s.%d", t.A[0].str(d-1), t.N)
	case OLin:
		var s []string
		for i, a := range t.A {
			c := ""
			if t.Coef[i] == -1 {
				c = "-"
			} else if t.Coef[i] != 1 {
				c = fmt.Sprintf("%d*", t.Coef[i])
			}
			s = append(s, c+a.str(d-1))
		}
		if t.N != 0 {
			s = append(s, strconv.FormatInt(t.N, 10))
		}
		return "(" + strings.Join(s, "+") + ")"
	case OBin:
		return "(" + t.A[0].str(d-1) + t.S + t.A[1].str(d-1) + ")"
	case OConv:
		return shortType(t.T) + "(" + as() + ")"
	case OIface:
		return "iface<" + shortType(t.T) + ">(" + as() + ")"
	case OAssert:
		return t.A[0].str(d-1) + ".(" + shortType(t.T) + ")"
	case OTypeIs:
		return t.A[0].str(d-1) + " is " + shortType(t.T)
	case OLookup:
		return t.A[0].str(d-1) + "[" + t.A[1].str(d-1) + "]"
	case OHas:
		return t.A[1].str(d-1) + " in " + t.A[0].str(d-1)
	case OMapInit:
		return "map(" + as() + fmt.Sprintf(")'%d", t.N)
	case OSub:
		return t.A[0].str(d-1) + "[" + t.A[1].str(d-1) + ":" + t.A[2].str(d-1) + "]"
	case OIndex:
		return t.A[0].str(d-1) + "[" + t.A[1].str(d-1) + "]"
	case OElem:
		return "<" + as() + ">"
	case OCat, OConcat:
		var s []string
		for _, a := range t.A {
			s = append(s, a.str(d-1))
		}
		return "(" + strings.Join(s, " ++ ") + ")"
	case OPure:
		return t.S + "(" + as() + ")"
	case OExtract:
		return fmt.Sprintf("%s#%d", t.A[0].str(d-1), t.N)
	case ONot:
		return "!" + t.A[0].str(d-1)
	case OLe:
		return t.A[0].str(d-1) + "<=0"
	case OEqz:
		return t.A[0].str(d-1) + "==0"
	case OEq:
		return t.A[0].str(d-1) + "==" + t.A[1].str(d-1)
	}
	return opNames[t.Op] + "(" + as() + ")"
}

func fieldName(t *Term) string {
	if t.S != "" {
		return t.S
	}
	return strconv.FormatInt(t.N, 10)
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string {
		if strings.Contains(p.Path(), "xcore") {
			return ""
		}
		return p.Name()
	})
}

// walk visits t and its sub terms
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.A {
			rec(a)
		}
	}
	rec(t)
}

func (t *Term) contains(x *Term) bool {
	found := false
	t.walk(func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}
