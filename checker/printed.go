package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C33: printed forms list everything ----

type printed struct {
	c  *Ctx
	r  *Report
	m  *Module
	fn *ssa.Function
	e  *Engine
}

func printedCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		lr := findLangRoles(m, r)
		for _, tn := range []string{"XDataset", "XDatasetCollection", "XDatasetCollectionTS", "XLanguage", "XTemplate"} {
			T := m.Named(tn)
			if T == nil {
				continue
			}
			for _, mn := range []string{"String", "GoString"} {
				fn := m.Method(tn, mn)
				if fn == nil {
					continue
				}
				x := &printed{c: c, r: r, m: m, fn: fn}
				x.form(T, tn, lr)
			}
		}
	}
	r.need("all-listed", 6)
}

// holder: where the type keeps what is printed, in a state: a table or a list
func (x *printed) holder(st *State, recv *Term, T *types.Named, tn string, lr *langRoles) (ver, seq *Term) {
	e := x.e
	switch u := T.Underlying().(type) {
	case *types.Map:
		return e.mapVer(st, st.f.norm(e.load(st, recv, T))), nil
	case *types.Slice:
		return nil, st.f.norm(e.load(st, recv, T))
	case *types.Struct:
		if tn == "XLanguage" {
			if lr == nil {
				return nil, nil
			}
			return e.mapVer(st, st.f.norm(e.loadField(st, recv, lr.typ, lr.entries))), nil
		}
		if tn == "XTemplate" {
			for i := 0; i < u.NumFields(); i++ {
				if pt, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok && sliceElem(pt.Elem()) != nil {
					return nil, st.f.norm(e.load(st, st.f.norm(e.loadField(st, recv, T, i)), pt.Elem()))
				}
			}
			return nil, nil
		}
		if a := listAddr(e, x.m, tn, recv); a != nil {
			return nil, st.f.norm(e.load(st, a, contentType(a)))
		}
	}
	return nil, nil
}

func (x *printed) form(T *types.Named, tn string, lr *langRoles) {
	r, m, fn := x.r, x.m, x.fn
	var recv *Term
	e, outs := r.analyse(m, fn, Config{}, func(st *State, as []*Term) { recv = as[0] })
	x.e = e
	e.anySep = true
	tt := e.tt
	for _, o := range outs {
		if o.Panic || o.Ret == nil || o.St.f.bad {
			continue
		}
		st := o.St
		ver, seq := x.holder(st, recv, T, tn, lr)
		if ver == nil && seq == nil {
			continue
		}
		size := (*Term)(nil)
		if ver != nil {
			size = e.mapLen(st, ver)
		} else {
			size = tt.Len(seq)
		}
		ps, why := e.xmlParts(st, st.f.norm(o.Ret.A[0]), 0)
		if why == cutList {
			r.ob("all-listed")
			r.fail(m, "all-listed", fn, o.Pos, st, "the text does not list the whole content: %s", why)
			continue
		}
		if why != "" {
			r.notes = append(r.notes, fmt.Sprintf("%s %s: %s; what it contains is not judged", m.Name, fn.RelString(nil), why))
			continue
		}
		r.ob("all-listed")
		if st.f.known(tt.EqInt(size, tt.Int(0)), true) || tn == "XTemplate" && x.nothing(st, recv, T) {
			continue
		}
		loops := 0
		foreign := false
		for _, p := range ps {
			if p.val != nil && p.loop == nil {
				foreign = true
			}
			if p.loop == nil {
				continue
			}
			if x.listed(st, p, ver, seq, T, tn, 0) {
				loops++
			}
		}
		switch {
		case loops == 1:
		case loops > 1:
			r.fail(m, "all-listed", fn, o.Pos, st, "the content is listed twice")
		case foreign:
			r.notes = append(r.notes, fmt.Sprintf("%s %s: the text contains a value that is not judged", m.Name, fn.RelString(nil)))
		default:
			r.fail(m, "all-listed", fn, o.Pos, st, "the text does not list the whole content")
		}
	}
}

// listed: the loop runs over the whole content, or over the list of the texts made for it
func (x *printed) listed(st *State, p xmlPart, ver, seq *Term, T types.Type, tn string, depth int) bool {
	e := x.e
	for _, it := range e.over(st, p.loop) {
		if ver != nil && it.ver != nil && e.sameTable(st, it.ver, ver, T.Underlying()) || seq != nil && it.seq != nil && e.seqSame(st, it.seq, seq) {
			if it.seq != nil && it.step != 1 && tn != "XTemplate" {
				x.r.fail(x.m, "entry-listed", x.fn, p.loop.Pos, st, "the elements are not listed in order")
			}
			x.entries(st, p, it, tn)
			return true
		}
		if it.seq == nil || depth > 3 {
			continue
		}
		im := e.builtBy(st, it.seq)
		if im == nil || im.info == p.loop || len(e.qsegs(st, im.prefix)) > 0 {
			continue
		}
		// each text of the list once
		once := true
		for i, each := range p.each {
			n := 0
			b := p.loop.Backs[i]
			for _, q := range each {
				if q.val != nil && b.f.norm(q.val) != b.f.norm(e.index(b, it.seq, it.idx, types.Typ[types.String])) {
					n = 2
				}
				if q.val != nil {
					n++
				}
			}
			once = once && n == 1
		}
		if !once {
			continue
		}
		inner := xmlPart{loop: im.info, st: st}
		for i, el := range im.el {
			ps, why := e.xmlParts(im.info.Backs[i], el, 0)
			if why != "" {
				return false
			}
			inner.each = append(inner.each, ps)
		}
		if x.listed(st, inner, ver, seq, T, tn, depth+1) {
			return true
		}
	}
	return false
}

// nothing: a template without tokens
func (x *printed) nothing(st *State, recv *Term, T *types.Named) bool {
	u := T.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if pt, ok := u.Field(i).Type().Underlying().(*types.Pointer); ok && sliceElem(pt.Elem()) != nil {
			return st.f.isNil(st.f.norm(x.e.loadField(st, recv, T, i)))
		}
	}
	return false
}

// entries: each iteration writes the key (position) and the value of its entry, and no other
func (x *printed) entries(st *State, p xmlPart, it iterOver, tn string) {
	r, m, fn, e, tt := x.r, x.m, x.fn, x.e, x.e.tt
	for i, each := range p.each {
		if i >= len(p.loop.Backs) {
			break
		}
		b := p.loop.Backs[i]
		var key, val *Term
		if it.ver != nil {
			key = b.f.norm(it.keys[i])
		} else if tn != "XTemplate" {
			key = b.f.norm(tt.Pure("strconv.Itoa", types.Typ[types.String], b.f.norm(it.idx)))
		}
		isVal := func(v *Term) bool {
			v = b.f.norm(v)
			if v.Op == OIface && len(v.A) == 1 {
				v = b.f.norm(v.A[0])
			}
			if it.ver != nil {
				w := b.f.norm(e.lookupTerm(b, it.ver, it.keys[i], v.T))
				val = w
				return v == w || e.sameVal(b, v, w)
			}
			w := b.f.norm(e.index(b, it.seq, it.idx, v.T))
			val = w
			return v == w || e.sameVal(b, v, w)
		}
		r.ob("entry-listed")
		keys, vals := 0, 0
		var other *Term
		for _, q := range each {
			if q.val == nil {
				continue
			}
			v := b.f.norm(q.val)
			switch {
			case key != nil && v == key && (vals == 0 || keys > 0 && !isVal(v)):
				if keys == 0 {
					keys++
				} else {
					vals++ // a text equal to its key
				}
			case isVal(v):
				vals++
			case v.Op == OPure && len(v.A) > 0 && (v.S == "fmt.Sprint" || v.S == "fmt.Sprintf" || v.S == "strconv.Quote") && isVal(v.A[len(v.A)-1]):
				vals++
				if f, ok := v.A[0].strVal(); ok && v.S == "fmt.Sprintf" && fn.Name() == "String" && strings.Contains(f, "#") {
					r.fail(m, "entry-listed", fn, p.loop.Pos, b, "the value is printed in its Go form")
				}
			case v.Op == OSym && strings.Contains(v.S, "String"):
				vals++ // printed by its own method
			default:
				other = v
			}
		}
		_ = val
		switch {
		case other != nil:
			r.fail(m, "entry-listed", fn, p.loop.Pos, b, "the text of an entry contains something else than the entry: %s", other.str(4))
		case key != nil && keys == 0:
			r.fail(m, "entry-listed", fn, p.loop.Pos, b, "an entry is listed without its key")
		case vals != 1:
			r.fail(m, "entry-listed", fn, p.loop.Pos, b, "an iteration over the entries lists %d values", vals)
		}
	}
}

func init() {
	register("C33", "printed content", "The text returned by String and GoString is cut in the pieces it is put together from on each abstract path. A loop that runs over the whole table or list must write, in each kind of iteration, the key (position) and the printed value of the entry it visits, and nothing of another entry.", printedCheck)
}
