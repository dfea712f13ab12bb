package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C23: printed text does not depend on the iteration order of tables ----

// orderTaint follows the values whose content depends on the order a table was iterated in
type orderTaint struct {
	e      *Engine
	m      *Module
	where  map[*Term]token.Pos // tainted -> the loop
	sorted map[*Term]bool
	clean  map[*Term]bool // computed from sorted sequences
	chance map[*Term]string
}

func newOrderTaint(e *Engine, m *Module) *orderTaint {
	return &orderTaint{e: e, m: m, where: map[*Term]token.Pos{}, sorted: map[*Term]bool{}, clean: map[*Term]bool{}, chance: map[*Term]string{}}
}

// find looks for something that depends on the order
func (o *orderTaint) find(t *Term) *Term {
	var hit *Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if hit != nil || x == nil || seen[x] || o.clean[x] {
			return
		}
		seen[x] = true
		if _, ok := o.where[x]; ok && !o.sorted[x] {
			hit = x
			return
		}
		if _, ok := o.chance[x]; ok {
			hit = x
			return
		}
		if x.Op == OLen || x.Op == OMapLen {
			return
		}
		for _, a := range x.A {
			walk(a)
		}
	}
	walk(t)
	return hit
}

func wholeSlice(tt *TermTab, s *Term) *Term {
	for s.Op == OIface || s.Op == OConv {
		s = s.A[0]
	}
	if s.Op == OSub {
		if lo, ok := s.A[1].intVal(); ok && lo == 0 && s.A[2] == tt.Len(s.A[0]) {
			return wholeSlice(tt, s.A[0])
		}
	}
	return s
}

func orderKind(t *Term) bool {
	switch t.Op {
	case OMapSym, OMapInit, OMapEmpty:
		return false
	}
	if t.T == nil {
		return true
	}
	switch u := t.T.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Map, *types.Pointer, *types.Signature, *types.Chan:
		return false
	}
	return true
}

// through follows the events of a path
func (o *orderTaint) through(evs []*Ev) {
	for _, ev := range evs {
		switch ev.Kind {
		case "loopexit":
			if ev.Info != nil {
				o.loop(ev.Info)
			}
		case "ext":
			switch {
			case strings.HasPrefix(ev.Name, "sort.") && !strings.HasPrefix(ev.Name, "sort.Search") || strings.HasPrefix(ev.Name, "slices.Sort"):
				if len(ev.A) > 0 {
					s := wholeSlice(o.e.tt, ev.A[0])
					if len(ev.A) < 2 || o.total(ev, s) {
						o.sorted[s] = true
					}
				}
			case strings.HasPrefix(ev.Name, "math/rand.") || strings.HasPrefix(ev.Name, "(*math/rand.") || ev.Name == "time.Now":
				if ev.Res != nil {
					o.chance[ev.Res] = ev.Name
				}
			default:
				if ev.Res == nil || ev.Res.Op == OConst {
					continue
				}
				used, bad := false, false
				for _, a := range ev.A {
					if o.find(a) != nil {
						bad = true
					}
					for x := range o.sorted {
						if a == x || a.contains(x) {
							used = true
						}
					}
				}
				if used && !bad {
					o.clean[ev.Res] = true
				}
			}
		}
	}
}

// total: the comparison looks at the elements themselves
func (o *orderTaint) total(ev *Ev, s *Term) bool {
	c := ev.A[1]
	var fn *ssa.Function
	switch c.Op {
	case OClosure, OFunc:
		fn, _ = c.Ref.(*ssa.Function)
	}
	if fn == nil || fn.Blocks == nil {
		return true
	}
	// a comparison of lengths, counts or changed texts is not one of the elements
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			op, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch op.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
			default:
				continue
			}
			if partial(op.X) && partial(op.Y) && !moreTests(fn, op) {
				return false
			}
		}
	}
	return true
}

func partial(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "len"
	}
	f := c.Call.StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "strings" && f.Name() != "Compare"
}

// moreTests: the function has other comparisons to decide ties
func moreTests(fn *ssa.Function, op *ssa.BinOp) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.BinOp)
			if !ok || x == op {
				continue
			}
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if !partial(x.X) || !partial(x.Y) {
					return true
				}
			}
		}
	}
	return false
}

func (o *orderTaint) loop(info *LoopInfo) {
	for _, evs := range info.Events {
		o.through(evs)
	}
	mark := func(t *Term) {
		if _, ok := o.where[t]; !ok && !o.sorted[t] {
			o.where[t] = info.Pos
		}
	}
	for s, bs := range info.Back {
		if !orderKind(s) {
			continue
		}
		for i, v := range bs {
			v = info.Backs[i].f.norm(v)
			if v == s || v == info.Backs[i].f.norm(s) {
				continue
			}
			if info.IsMap && dependsOnBody(v, info) || o.find(v) != nil {
				mark(s)
			}
		}
	}
	if info.IsMap {
		for _, evs := range info.Events {
			for _, ev := range evs {
				if ev.Kind == "store" && ev.A[0].Op == OIndexAddr {
					b := ev.A[0].A[0]
					if b.ID <= info.Mark {
						mark(b)
					}
				}
			}
		}
	}
}

func printCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		var fns []*ssa.Function
		for _, fn := range m.EntryPoints() {
			switch fn.Name() {
			case "String", "GoString", "GetXML", "Execute", "GetTemplate":
				fns = append(fns, fn)
			}
		}
		if len(fns) < 4 {
			r.errf("%s: only %d printing functions found", m.Name, len(fns))
		}
		for _, fn := range fns {
			e, outs := r.analyse(m, fn, Config{Opaque: otherLookups(m, fn)}, nil)
			for _, o := range outs {
				if o.Panic || o.Ret == nil || o.St.f.bad {
					continue
				}
				t := newOrderTaint(e, m)
				evs := o.St.tr.list()
				t.through(evs)
				early := map[*Term]bool{}
				for _, ev := range evs {
					if ev.Kind == "mapnext" {
						early[ev.A[1]] = true
						t.where[ev.A[1]] = ev.Pos
					}
				}
				r.ob("text-independent-of-order")
				for range t.sorted {
					r.ob("sequence-sorted")
				}
				ret := o.St.f.norm(o.Ret)
				if hit := t.find(ret); hit != nil {
					what := "the text depends on the order in which the table is iterated by the loop at " + m.Pos(t.where[hit])
					if s, ok := t.chance[hit]; ok {
						what = "the text depends on " + s
					} else if early[hit] {
						what = "the text depends on which entry of a table comes first"
					}
					r.fail(m, "text-independent-of-order", fn, o.Pos, o.St, "%s", what)
				}
			}
		}
	}
	r.need("text-independent-of-order", 8)
}

func init() {
	register("C23", "printing", "Order taint: a sequence or text that a loop over a table fills depends on the order of iteration, and so does everything computed from it, until the whole sequence is sorted by a comparison of its elements. No text returned by a printing function, nor the result of executing a template, may be tainted on any abstract path.", printCheck)
}
