package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C16: executing a template only reads ----

// foreign: memory that the analysed function did not create
func (s *State) foreign(t *Term, depth int) *Term {
	if t == nil || depth > 20 {
		return nil
	}
	t = s.f.norm(t)
	switch t.Op {
	case OFieldAddr, OIndexAddr, OSub, OIface, OAssert, OField, OIndex, OLoad, OExtract, OConv:
		return s.foreign(t.A[0], depth+1)
	case OLookup, OMapInit, OMapSym:
		if x := s.foreign(verObj(t.A[0]), depth+1); x != nil {
			return x
		}
		return s.foreign(t.A[0], depth+1)
	case OMapPut, OMapDel:
		return s.foreign(verObj(t), depth+1)
	case OCat:
		for _, a := range t.A {
			if a.Op != OElem {
				if x := s.foreign(a, depth+1); x != nil {
					return x
				}
			}
		}
	case OPure:
		if strings.HasPrefix(t.S, "invoke:") || strings.HasPrefix(t.S, "call:") {
			for _, a := range t.A {
				if x := s.foreign(a, depth+1); x != nil {
					return x
				}
			}
		}
	case OGlobal:
		return t
	case OSym:
		if strings.HasPrefix(t.S, "param:") {
			return t
		}
		if o, ok := s.orig[t]; ok && o != t {
			return s.foreign(o, depth+1)
		}
	}
	return nil
}

// foreignWrite: the event changes memory the analysed function did not create
func (s *State) foreignWrite(ev *Ev) (what *Term) {
	switch ev.Kind {
	case "store", "mapput", "mapdel", "mapclear", "copy", "appendto":
		return s.foreign(ev.A[0], 0)
	case "append":
		// appending to a part of a list overwrites what comes after it
		if b := s.f.norm(ev.A[0]); b.Op == OSub {
			return s.foreign(b, 0)
		}
	case "invoke", "call":
		if len(ev.A) > 0 && mutators[ev.Name[strings.LastIndex(ev.Name, ".")+1:]] {
			return s.foreign(ev.A[0], 0)
		}
	case "ext":
		if strings.HasPrefix(ev.Name, "sort.") && len(ev.A) > 0 && !strings.HasPrefix(ev.Name, "sort.Search") {
			return s.foreign(ev.A[0], 0)
		}
	}
	return nil
}

// readersOf: the methods of the type that are not there to change it leave everything as it is
func readersOf(m *Module, r *Report, tn string) {
	for _, fn := range m.ExportedMethods(tn) {
		if mutators[fn.Name()] {
			continue
		}
		fn := fn
		_, outs := r.analyse(m, fn, Config{Opaque: func(f *ssa.Function) bool { return f != fn && f.Name() == "Clone" }}, nil)
		r.ob("reading-changes-nothing")
		eachEvent(outs, func(st *State, ev *Ev) {
			if st.foreignWrite(ev) != nil {
				r.fail(m, "reading-changes-nothing", fn, ev.Pos, st, "%s changes %s, which it did not create", fn.Name(), ev.A[0].str(4))
			}
		})
	}
}

// eachEvent visits the events of all the paths, those of loops with the state of their iteration
func eachEvent(outs []Outcome, visit func(st *State, ev *Ev)) {
	seen := map[*LoopInfo]bool{}
	var walk func(st *State, evs []*Ev)
	walk = func(st *State, evs []*Ev) {
		for _, ev := range evs {
			visit(st, ev)
			if ev.Kind == "loopexit" && ev.Info != nil && !seen[ev.Info] {
				seen[ev.Info] = true
				for i, bs := range ev.Info.Backs {
					walk(bs, ev.Info.Events[i])
				}
			}
		}
	}
	for _, o := range outs {
		walk(o.St, o.St.tr.list())
	}
}

// args: template, scopes and language given to the renderer
func (g *rendering) args(st *State, ev *Ev) (t, col, lang *Term) {
	for i, p := range g.fn.Params {
		if i >= len(ev.A) {
			break
		}
		switch g.role(p.Type()) {
		case 't':
			if t == nil {
				t = st.f.norm(ev.A[i])
			}
		case 'c':
			col = st.f.norm(ev.A[i])
		case 'l':
			lang = st.f.norm(ev.A[i])
		case 's':
			col, lang = g.context(st, st.f.norm(ev.A[i]), p.Type())
			col, lang = st.f.norm(col), st.f.norm(lang)
		}
	}
	return
}

// executeOf analyses Execute with the renderer left out
func executeOf(m *Module, r *Report, g *rendering) (*ssa.Function, *Engine, []Outcome, []*Term) {
	ex := m.Method("XTemplate", "Execute")
	var args []*Term
	e, outs := r.analyse(m, ex, Config{OpaqueImp: func(f *ssa.Function) bool { return f == g.fn }}, func(st *State, a []*Term) {
		args = a
	})
	return ex, e, outs, args
}

// execute: Execute renders the template itself, with the data as only scope and the language found in it
func (g *rendering) execute() {
	m, r := g.m, g.r
	ex, e, outs, args := executeOf(m, r, g)
	tt := e.tt
	var data *Term
	for i, p := range ex.Params {
		if typeName(p.Type()) == "XDatasetDef" {
			data = args[i]
		}
	}
	if data == nil {
		r.errf("%s: the data given to Execute was not found", m.Name)
		return
	}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		r.ob("execute")
		var calls []*Ev
		for _, ev := range flatEvents(st.tr.list()) {
			if ev.Kind == "reccall" && g.renders(ev) {
				calls = append(calls, ev)
			}
		}
		if len(calls) != 1 {
			r.fail(m, "execute", ex, o.Pos, st, "renders %d templates on this path, not the template itself", len(calls))
			continue
		}
		ev := calls[0]
		h := *g
		h.e = e
		t, col, lang := h.args(st, ev)
		ps := h.flat(st, resultTerms(o.Ret)[0], 0)
		if len(ps) != 1 || ps[0] != st.f.norm(resultTerms(ev.Res)[0]) {
			r.fail(m, "execute", ex, o.Pos, st, "does not return the text that was rendered")
		}
		if t != st.f.norm(args[0]) {
			r.fail(m, "execute", ex, ev.Pos, st, "renders %s, not the template itself", t.str(4))
		}
		if st.f.isNil(data) {
			continue
		}
		s := st.clone()
		if s.f.assume(tt.Eq(data, tt.Nil()), false); s.f.bad {
			continue
		}
		// scopes
		r.ob("execute-data")
		b := col
		for b.Op == OIface {
			b = b.A[0]
		}
		if tn := typeName(elemType(b.T)); b.Op != OAlloc || m.Named(tn) == nil {
			r.fail(m, "execute-data", ex, ev.Pos, s, "renders with %s as scopes, not with the data", col.str(4))
		} else if addr := listAddr(e, m, tn, b); addr != nil && !e.seqSame(s, e.load(s, addr, contentType(addr)), tt.Elem(data)) {
			r.fail(m, "execute-data", ex, ev.Pos, s, "renders with scopes other than the data alone")
		}
		// language
		var q, has *Term
		for _, x := range s.tr.list() {
			if x.Kind == "invoke" && x.Name == "Get" && s.f.norm(x.A[0]) == s.f.norm(data) && s.f.norm(x.A[1]) == tt.Str("#") {
				q, has = resultTerms(x.Res)[0], resultTerms(x.Res)[1]
			}
		}
		r.ob("execute-language")
		if q == nil {
			r.fail(m, "execute-language", ex, ev.Pos, s, "renders without having looked for the language in the data")
			continue
		}
		want := tt.Nil()
		lt := types.NewPointer(m.Named("XLanguage"))
		is := tt.mk(Term{Op: OTypeIs, A: []*Term{q}, T: lt})
		if s.f.known(is, true) {
			want = tt.mk(Term{Op: OAssert, A: []*Term{q}, T: lt})
		} else if !s.f.isNil(q) && !s.f.known(is, false) && !s.f.known(has, false) {
			r.fail(m, "execute-language", ex, ev.Pos, s, "does not know whether there is a language in the data")
			continue
		}
		if !e.sameVal(s, lang, want) && s.f.norm(lang) != s.f.norm(want) {
			r.fail(m, "execute-language", ex, ev.Pos, s, "renders with %s as language, not with the one of the data", lang.str(4))
		}
	}
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func effectsCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		g := newRendering(m, r)
		if g == nil {
			continue
		}
		// own: what the execution passes along to collect scopes and text
		own := func(st *State, ev *Ev) bool {
			t := st.f.norm(ev.A[0])
			if ev.Kind == "invoke" || ev.Kind == "call" {
				return t == st.f.norm(g.col)
			}
			for t.Op == OFieldAddr {
				t = st.f.norm(t.A[0])
			}
			for i, p := range g.fn.Params {
				if i < len(g.params) && g.role(p.Type()) == 's' && t == st.f.norm(g.params[i]) {
					return true
				}
			}
			for _, b := range g.bufs {
				if t == st.f.norm(b) {
					return true
				}
			}
			return false
		}
		readers := map[*ssa.Function]bool{}
		addAll := func(name string) {
			for _, n := range m.SSA.Pkg.Scope().Names() {
				if strings.HasPrefix(n, "XDataset") && token.IsExported(n) {
					if f := m.Method(n, name); f != nil && f.Blocks != nil {
						readers[f] = true
					}
				}
			}
		}
		addAll("String")
		addAll("GoString")
		static := map[string]*ssa.Function{}
		for _, f := range allFuncs(m) {
			static[f.RelString(m.Pkg.Types)] = f
		}
		visit := func(fn *ssa.Function, what string) func(st *State, ev *Ev) {
			return func(st *State, ev *Ev) {
				switch ev.Kind {
				case "store", "mapput", "mapdel", "mapclear", "copy", "invoke", "call":
					r.ob(what)
				}
				x := st.foreignWrite(ev)
				if x != nil && !(fn == g.fn && own(st, ev)) {
					r.fail(m, what, fn, ev.Pos, st, "changes %s, which the execution did not create", ev.A[0].str(4))
				}
				if fn != g.fn {
					return
				}
				switch ev.Kind {
				case "call":
					if f := static[ev.Name]; f != nil && !mutators[f.Name()] {
						readers[f] = true
					}
				case "invoke":
					if !mutators[ev.Name] {
						addAll(ev.Name)
					}
				}
			}
		}
		eachEvent(g.outs, visit(g.fn, "rendering-writes"))
		ex, e, outs, args := executeOf(m, r, g)
		eachEvent(outs, visit(ex, "execute-writes"))
		_ = args
		for _, o := range outs {
			for _, ev := range flatEvents(o.St.tr.list()) {
				if ev.Kind != "reccall" || !g.renders(ev) {
					continue
				}
				_, col, _ := g.args(o.St, ev)
				r.ob("own-scopes")
				if x := o.St.foreign(col, 0); x != nil {
					r.fail(m, "own-scopes", ex, ev.Pos, o.St, "executes with %s as scopes, which the execution did not create and will change", x.str(4))
				}
			}
		}
		_ = e
		for _, f := range sortedFuncs(readers) {
			f := f
			_, outs := r.analyse(m, f, Config{}, nil)
			r.ob("reader")
			eachEvent(outs, func(st *State, ev *Ev) {
				if x := st.foreignWrite(ev); x != nil {
					r.fail(m, "reader", f, ev.Pos, st, "is used by the execution and changes %s", x.str(4))
				}
			})
		}
	}
	r.need("rendering-writes", 20)
	r.need("own-scopes", 2)
	r.need("reader", 10)
}

func init() {
	register("C16", "Executing a template changes neither the template nor the data", "Effect analysis: on every abstract path of the function that renders a template, of Execute and of every method of datasets, collections and language tables they use, each write (field, element, table, list operation of an interface) must go to memory created by the call itself; the scopes the renderer pushes on and pops from must be a list Execute created.", effectsCheck)
}
