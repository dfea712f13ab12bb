package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C32: the tree of sub-templates made from nested definitions ----

// nesting is the loop over the tokens that opens and closes nested templates
type nesting struct {
	m    *Module
	r    *Report
	e    *Engine
	fn   *ssa.Function
	info *LoopInfo
	list *Term // tokens
	idx  *Term // position of the token
	pt   int
	dt   int
	unu  int64
	beg  int64
	end  int64
	T    types.Type
	tok  types.Type
	root int
	name int
	sub  int
	fath int

	cur   *Term // variable that holds the open template, nil if it is the last of the list of open ones
	stack *Term // list of templates
	open  *Term // list of positions
}

func nestCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		nestIn(m, r)
	}
}

func nestIn(m *Module, r *Report) {
	x := &nesting{m: m, r: r, fn: m.Method("XTemplate", "LoadString")}
	if x.fn == nil || m.Named("XTemplate") == nil || m.Named("XTemplateParam") == nil {
		r.errf("%s: LoadString not found", m.Name)
		return
	}
	x.T, x.tok = m.Named("XTemplate"), m.Named("XTemplateParam")
	x.pt, x.dt = fieldByName(x.tok, "ParamType"), fieldByName(x.tok, "Data")
	x.root, x.name, x.sub, x.fath = fieldByName(x.T, "Root"), fieldByName(x.T, "Name"), fieldByName(x.T, "SubTemplates"), fieldByName(x.T, "Father")
	for _, k := range []struct {
		n string
		p *int64
	}{{"MetaUnused", &x.unu}, {"MetaTemplateStart", &x.beg}, {"MetaTemplateEnd", &x.end}} {
		v := m.constInt(k.n)
		if v == nil {
			r.errf("%s: no constant %s", m.Name, k.n)
			return
		}
		*k.p = *v
	}
	if x.pt < 0 || x.dt < 0 || x.root < 0 || x.name < 0 || x.sub < 0 {
		r.errf("%s: the fields of templates and tokens were not found", m.Name)
		return
	}
	var args []*Term
	e, outs := r.analyse(m, x.fn, Config{}, func(s *State, as []*Term) { args = as })
	x.e = e
	seen := map[*LoopInfo]bool{}
	any := false
	for _, o := range outs {
		if o.Panic || o.Ret == nil {
			continue
		}
		res := o.St.f.norm(o.Ret.A[len(o.Ret.A)-1])
		if o.St.f.nonNil(res) {
			continue
		}
		var at *nesting
		for _, ev := range o.St.tr.list() {
			if ev.Kind == "loopexit" && ev.Info != nil && x.roles(ev.Info) {
				y := *x
				at = &y
				if !seen[ev.Info] {
					seen[ev.Info] = true
					any = true
					y.iterations()
				}
			}
		}
		if at != nil {
			at.finish(o, args[0])
		}
	}
	if !any {
		r.notes = append(r.notes, m.Name+": the loop over nested definitions has a form that is not covered")
	}
}

func isTmplPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == "XTemplate"
}

// parts of the elements of a list: position and template
func stackParts(t types.Type) (in, tm int, whole bool) {
	in, tm = -1, -1
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return
	}
	if isIntType(s.Elem()) {
		return 0, -1, true
	}
	if isTmplPtr(s.Elem()) {
		return -1, 0, true
	}
	if u, ok := s.Elem().Underlying().(*types.Struct); ok && typeName(s.Elem()) != "XTemplateParam" {
		for i := 0; i < u.NumFields(); i++ {
			if isIntType(u.Field(i).Type()) {
				in = i
			}
			if isTmplPtr(u.Field(i).Type()) {
				tm = i
			}
		}
	}
	return
}

func (x *nesting) roles(info *LoopInfo) bool {
	x.info, x.cur, x.stack, x.open, x.list, x.idx = info, nil, nil, nil, nil, nil
	for _, s := range sortedInit(info) {
		if s.T == nil || len(info.Back[s]) != len(info.Backs) {
			continue
		}
		if isTmplPtr(s.T) && s.Op == OSym {
			if in := info.Init[s]; in.Op == OAlloc || in.Op == OSym {
				x.cur = s
			}
			continue
		}
		in, tm, _ := stackParts(s.T)
		if in >= 0 {
			x.open = s
		}
		if tm >= 0 {
			x.stack = s
		}
	}
	if x.stack == nil || x.open == nil {
		return false
	}
	if x.cur == nil {
		// the open template is the last of the list
		if ps := x.e.tt.parts(info.Init[x.stack]); len(ps) == 0 {
			return false
		}
	}
	for _, evs := range info.Events {
		for _, ev := range evs {
			if ev.Kind != "index" || ev.A[0].T == nil || typeName(sliceElemOrNil(ev.A[0].T)) != "XTemplateParam" || dependsOnBody(ev.A[0], info) {
				continue
			}
			if _, step := info.induction(x.e.tt, ev.A[1]); step == 1 && x.list == nil {
				x.list, x.idx = ev.A[0], ev.A[1]
			}
		}
	}
	return x.list != nil
}

// at is the token at a position when the iteration begins
func (x *nesting) at(st *State, in *LoopInfo, pos *Term) *Term {
	return st.f.norm(x.e.index(in.Hdr.clone(), x.list, pos, x.tok))
}
func (x *nesting) kind(st *State, in *LoopInfo, pos *Term) *Term {
	return st.f.norm(x.e.tt.Field(x.at(st, in, pos), x.pt, types.Typ[types.Int]))
}

// piece of an element of a list of open parts
func (x *nesting) piece(st *State, el *Term, list *Term, tmpl bool) *Term {
	in, tm, whole := stackParts(list.T)
	if whole {
		return st.f.norm(el)
	}
	i, t := in, types.Type(types.Typ[types.Int])
	if tmpl {
		i, t = tm, types.NewPointer(x.T)
	}
	return st.f.norm(x.e.tt.Field(st.f.norm(el), i, t))
}

// lasts: the element of a list counted from its end, written with any of the lengths known to be as long
func (x *nesting) lasts(st *State, list *Term, back int64, tmpl bool) []*Term {
	tt := x.e.tt
	var out []*Term
	for _, n := range []*Term{list, x.stack, x.open} {
		for d := int64(-1); d <= 1; d++ {
			size := tt.AddN(tt.Len(n), d)
			if n == list && d != 0 || n != list && !st.f.known(tt.EqInt(tt.Len(list), size), true) {
				continue
			}
			el := x.e.index(st, st.f.norm(list), st.f.norm(tt.AddN(size, -1-back)), sliceElem(list.T))
			out = append(out, x.piece(st, el, list, tmpl))
		}
	}
	return out
}

// current gives the open template and the one that contains it
func (x *nesting) current(st *State, i int) (cur, up *Term) {
	if x.cur != nil {
		cur = st.f.norm(x.cur)
		for _, up = range x.lasts(st, x.stack, 0, true) {
			if st.f.norm(x.info.Back[x.cur][i]) == up {
				return
			}
		}
		return
	}
	for _, cur = range x.lasts(st, x.stack, 0, true) {
		if _, ok := st.mem[x.e.fieldAddr(cur, x.T, x.root)]; ok {
			break
		}
	}
	for _, up = range x.lasts(st, x.stack, 1, true) {
		for _, ev := range flatEvents(x.info.Events[i]) {
			if ev.Kind == "load" && ev.A[0].Op == OFieldAddr && st.f.norm(ev.A[0].A[0]) == up {
				return
			}
		}
	}
	return
}

func (x *nesting) iterations() {
	r, m, info, tt := x.r, x.m, x.info, x.e.tt
	names := []string{"begin", "end", "other"}
	for i, b := range info.Backs {
		for c, k := range []int64{x.beg, x.end, 0} {
			s := b.clone()
			kind := x.kind(s, info, x.idx)
			if c < 2 {
				s.f.assume(tt.EqInt(kind, tt.Int(k)), true)
			} else {
				s.f.assume(tt.EqInt(kind, tt.Int(x.beg)), false)
				s.f.assume(tt.EqInt(kind, tt.Int(x.end)), false)
			}
			if s.f.bad {
				continue
			}
			r.ob("nested-" + names[c])
			bad := func(f string, a ...interface{}) {
				r.fail(m, "nested-"+names[c], info.Fn, info.Pos, s, f, a...)
			}
			switch c {
			case 0:
				x.begins(s, i, bad)
			case 1:
				x.ends(s, i, bad)
			default:
				for _, v := range []*Term{x.cur, x.stack, x.open} {
					if v != nil && s.f.norm(info.Back[v][i]) != s.f.norm(v) {
						bad("a token that neither begins nor ends a template changes the templates that are open")
					}
				}
				if len(x.marks(s, info.Events[i], info)) > 0 {
					bad("a token that neither begins nor ends a template removes tokens")
				}
			}
		}
	}
}

// pushed gives the element added at the end of the list
func (x *nesting) pushed(s *State, list *Term, i int) *Term {
	ps := x.e.tt.parts(s.f.norm(x.info.Back[list][i]))
	if len(ps) != 2 || s.f.norm(ps[0]) != s.f.norm(list) || ps[1].Op != OElem {
		return nil
	}
	return ps[1].A[0]
}

func (x *nesting) begins(s *State, i int, bad func(string, ...interface{})) {
	info, tt := x.info, x.e.tt
	po, ps := x.pushed(s, x.open, i), x.pushed(s, x.stack, i)
	if po == nil || ps == nil {
		bad("the beginning of a template does not add exactly one open template")
		return
	}
	if !s.f.known(tt.EqInt(x.piece(s, po, x.open, false), x.idx), true) {
		bad("the position kept for the template that begins is %s, not its own", x.piece(s, po, x.open, false).str(4))
	}
	tm := x.piece(s, ps, x.stack, true)
	made := tm
	if x.cur != nil {
		if tm != s.f.norm(x.cur) {
			bad("the template kept as the containing one is not the one that was open")
		}
		made = s.f.norm(info.Back[x.cur][i])
	}
	if made.Op != OAlloc || made.ID <= info.Mark {
		bad("the template that begins is not a new one")
		return
	}
	if s.f.norm(x.e.loadField(s, made, x.T, x.name)) != s.f.norm(tt.Field(x.at(s, info, x.idx), x.dt, types.Typ[types.String])) {
		bad("the template that begins does not have the name of its token")
	}
	if len(x.marks(s, info.Events[i], info)) > 0 {
		bad("the beginning of a template removes tokens")
	}
}

// mark: tokens from lo to before hi are marked as used up
type mark struct{ lo, hi *Term }

// place of a token in the list
func (x *nesting) place(st *State, a *Term) *Term {
	if a.Op != OIndexAddr {
		return nil
	}
	seq, pos := st.f.norm(a.A[0]), a.A[1]
	for seq != st.f.norm(x.list) {
		if seq.Op != OSub {
			return nil
		}
		pos = x.e.tt.Add(seq.A[1], pos)
		seq = seq.A[0]
	}
	return st.f.norm(pos)
}

func (x *nesting) marked(st *State, ev *Ev) *Term {
	if ev.Kind != "store" {
		return nil
	}
	a, v := ev.A[0], st.f.norm(ev.A[1])
	if a.Op == OFieldAddr && int(a.N) == x.pt {
		if n, ok := v.intVal(); ok && n == x.unu {
			return x.place(st, a.A[0])
		}
		return nil
	}
	if a.Op == OIndexAddr && v.Op == OStruct && x.pt < len(v.A) {
		if n, ok := v.A[x.pt].intVal(); ok && n == x.unu {
			return x.place(st, a)
		}
	}
	return nil
}

func (x *nesting) marks(st *State, evs []*Ev, in *LoopInfo) []mark {
	tt := x.e.tt
	var out []mark
	for _, ev := range evs {
		if p := x.marked(st, ev); p != nil {
			out = append(out, mark{p, tt.AddN(p, 1)})
		}
		if ev.Kind != "loopexit" || ev.Info == nil || ev.Info == in {
			continue
		}
		// a loop that marks every token it visits
		info := ev.Info
		var pos *Term
		all := len(info.Backs) > 0
		for i, b := range info.Backs {
			var p *Term
			for _, ev := range info.Events[i] {
				if q := x.marked(b, ev); q != nil {
					p = q
				}
			}
			if p != nil && pos == nil {
				pos = p
			}
		}
		if pos == nil {
			continue
		}
		for i, b := range info.Backs {
			ok := b.f.known(tt.EqInt(x.kind(b, info, pos), tt.Int(x.unu)), true)
			for _, ev := range info.Events[i] {
				if q := x.marked(b, ev); q != nil && b.f.known(tt.EqInt(q, pos), true) {
					ok = true
				}
			}
			all = all && ok
		}
		sym, step := info.induction(tt, pos)
		if !all || sym == nil || step != 1 || !headerExits(info) {
			continue
		}
		out = append(out, mark{substTerm(tt, pos, sym, info.Init[sym]), pos})
	}
	return out
}

func headerExits(info *LoopInfo) bool {
	for _, e := range info.Exits {
		if e.Kind != xPanic && !e.Header {
			return false
		}
	}
	return true
}

// kept: the list holds the tokens from lo to before hi that are not used up, in order
func (x *nesting) kept(st *State, seq *Term, from, to func(st *State, pos *Term) bool) (string, bool) {
	tt := x.e.tt
	seq = x.e.resolveSeq(st, seq)
	info := st.loopOf[seq]
	if info == nil || len(info.Backs) == 0 {
		return "", false
	}
	if n, ok := info.Entry.f.norm(tt.Len(info.Init[seq])).intVal(); !ok || n != 0 {
		return "the list of its tokens is not empty at first", true
	}
	var pos *Term
	for i, evs := range info.Events {
		for _, ev := range evs {
			if ev.Kind == "index" && pos == nil {
				p := x.place(info.Backs[i], tt.IndexAddr(ev.A[0], ev.A[1], x.tok))
				if p == nil {
					continue
				}
				if _, step := info.induction(tt, p); step == 1 || step == -1 {
					pos = p
				}
			}
		}
	}
	if pos == nil || !headerExits(info) {
		return "", false
	}
	sym, step := info.induction(tt, pos)
	if step != 1 {
		return "its tokens are not taken in order", true
	}
	if !from(info.Entry, substTerm(tt, pos, sym, info.Init[sym])) {
		return "its tokens are not taken from the one after its beginning", true
	}
	if !to(st, pos) {
		return "its tokens are not taken up to its end", true
	}
	for i, b := range info.Backs {
		for _, used := range []bool{true, false} {
			s := b.clone()
			s.f.assume(tt.EqInt(x.kind(s, info, pos), tt.Int(x.unu)), used)
			if s.f.bad {
				continue
			}
			x.r.ob("tokens-taken")
			v := s.f.norm(info.Back[seq][i])
			if used {
				if v != s.f.norm(seq) {
					return "a token that is used up already is taken again", true
				}
				continue
			}
			ps := tt.parts(v)
			if len(ps) != 2 || s.f.norm(ps[0]) != s.f.norm(seq) || ps[1].Op != OElem {
				return "a token is left out or taken several times", true
			}
			want := x.at(s, info, pos)
			for f := 0; f < 2; f++ {
				k, t := x.pt, types.Type(types.Typ[types.Int])
				if f == 1 {
					k, t = x.dt, types.Typ[types.String]
				}
				if s.f.norm(tt.Field(s.f.norm(ps[1].A[0]), k, t)) != s.f.norm(tt.Field(want, k, t)) {
					return "what is taken is not the token", true
				}
			}
		}
	}
	return "", true
}

// begin: the position of the token that began the open template
func (x *nesting) begin(st *State) []*Term { return x.lasts(st, x.open, 0, false) }

// removed: the marks cover the tokens from pos to the current one
func (x *nesting) removed(s *State, ms []mark, pos *Term) bool {
	tt := x.e.tt
	end := tt.AddN(x.idx, 1)
	for k := 0; k <= len(ms); k++ {
		for _, y := range ms {
			if s.f.known(tt.LeT(y.lo, pos), true) && s.f.known(tt.LtT(pos, y.hi), true) {
				pos = y.hi
			} else if s.f.known(tt.EqInt(y.lo, pos), true) && y.hi != tt.AddN(y.lo, 1) {
				pos = y.hi // a loop that may visit nothing
			}
			// the end of a loop is known through its test
			if !s.f.known(tt.EqInt(pos, x.idx), true) && s.f.known(tt.LeT(x.idx, pos), true) && !s.f.known(tt.LeT(end, pos), true) {
				pos = x.idx
			}
		}
	}
	return s.f.known(tt.LeT(end, pos), true)
}

func (x *nesting) ends(s *State, i int, bad func(string, ...interface{})) {
	info, tt, e := x.info, x.e.tt, x.e
	// something is open
	none := s.clone()
	min := int64(0)
	if x.cur == nil {
		min = 1
	}
	none.f.assume(tt.LeT(tt.Len(x.stack), tt.Int(min)), true)
	if !none.f.bad {
		bad("an end is accepted although no template is open")
	}
	for _, l := range []*Term{x.open, x.stack} {
		v := s.f.norm(info.Back[l][i])
		if v != s.f.norm(tt.SubSeq(l, tt.Int(0), tt.AddN(tt.Len(l), -1))) && !e.seqSame(s, v, tt.SubSeq(l, tt.Int(0), tt.AddN(tt.Len(l), -1))) {
			bad("the end of a template does not close exactly the last one opened")
			return
		}
	}
	cur, up := x.current(s, i)
	if x.cur != nil && s.f.norm(info.Back[x.cur][i]) != up {
		bad("after the end of a template, the one that contains it is not the open one")
	}
	// tokens marked
	all := false
	for _, begin := range x.begin(s) {
		all = all || x.removed(s, x.marks(s, info.Events[i], info), begin)
	}
	if !all {
		bad("the tokens of the template that ends, from its beginning to its end, are not all removed from the list")
	}
	// tokens taken
	rp := s.f.norm(e.loadField(s, cur, x.T, x.root))
	var seq *Term
	if rp.Op == OAlloc {
		seq = s.f.norm(e.load(s, rp, contentType(rp)))
	}
	if s.f.isNil(rp) || seq == nil {
		bad("the template that ends is given no tokens")
	} else if seq.Op == OSub && s.f.norm(seqBase(seq)) == s.f.norm(seqBase(x.list)) {
		bad("the template that ends shares its tokens with the list they are removed from")
	} else {
		isMarked := func(p *Term) bool {
			for _, ev := range info.Events[i] {
				if ev.Kind == "loopexit" {
					break
				}
				if q := x.marked(s, ev); q != nil && s.f.known(tt.EqInt(q, p), true) {
					return true
				}
			}
			return false
		}
		from := func(st *State, p *Term) bool {
			for _, b := range x.begin(st) {
				if st.f.known(tt.EqInt(p, tt.AddN(b, 1)), true) || st.f.known(tt.EqInt(p, b), true) && isMarked(b) {
					return true
				}
			}
			return false
		}
		to := func(st *State, p *Term) bool {
			if st.f.known(tt.LeT(x.idx, p), true) {
				in := st.loopOf[e.resolveSeq(st, seq)]
				if st.f.known(tt.LeT(tt.AddN(x.idx, 1), p), true) && isMarked(x.idx) {
					return true
				}
				for _, b := range in.Backs {
					if !b.f.known(tt.LtT(p, x.idx), true) {
						return false
					}
				}
				return true
			}
			return false
		}
		msg, ok := x.kept(s, seq, from, to)
		if msg != "" {
			bad("%s", msg)
		} else if !ok {
			x.r.notes = append(x.r.notes, fmt.Sprintf("%s: how the tokens of a nested template are taken has a form that is not covered", x.m.Name))
		}
	}
	x.registered(s, i, cur, up, bad)
}

// put: a template is stored in a table of sub-templates
func (x *nesting) put(ev *Ev) bool {
	if ev.Kind != "mapput" || len(ev.A) < 3 || ev.A[0].T == nil {
		return false
	}
	t, ok := ev.A[0].T.Underlying().(*types.Map)
	return ok && isTmplPtr(t.Elem())
}

// stored: the event puts val in the table of the template in
func (x *nesting) stored(s *State, ev *Ev, in, val *Term) bool {
	return s.f.norm(ev.A[0]) == s.f.norm(x.e.loadField(s, in, x.T, x.sub)) && s.f.norm(ev.A[2]) == s.f.norm(val)
}

func (x *nesting) registered(s *State, i int, cur, up *Term, bad func(string, ...interface{})) {
	tt, e, info := x.e.tt, x.e, x.info
	name := s.f.norm(e.loadField(s, cur, x.T, x.name))
	text := types.Typ[types.String]
	split := s.f.norm(tt.Pure("strings.Split", types.NewSlice(text), name, tt.Str("|")))
	p := &pathTerms{e: e, st: s, sep: "|"}
	lo, hi := p.steps(name)
	done := false
	for _, ev := range info.Events[i] {
		if x.put(ev) {
			x.r.ob("added-under-name")
			key := s.f.norm(ev.A[1])
			switch {
			case s.f.norm(ev.A[2]) != cur:
				bad("another template than the one that ends is added to a template")
			case !x.stored(s, ev, up, cur):
				bad("the template that ends is not added to the one that contains it")
			case key != name && p.canon(key) != p.first(name):
				bad("the template that ends is added under %s, not under its name", key.str(4))
			case hi > 0:
				bad("the template that ends is added under its whole name although it may be a list of names separated by |")
			case x.fath >= 0 && s.f.norm(e.loadField(s, cur, x.T, x.fath)) != up:
				bad("the template that ends does not know the one that contains it")
			}
			done = true
		}
		if ev.Kind != "loopexit" || ev.Info == nil {
			continue
		}
		in := ev.Info
		puts := false
		for _, evs := range in.Events {
			for _, b := range evs {
				puts = puts || x.put(b)
			}
		}
		if !puts {
			continue
		}
		done = true
		whole := false
		var idx *Term
		for _, it := range e.over(s, in) {
			if it.seq != nil && s.f.norm(it.seq) == split {
				whole, idx = true, it.idx
			}
		}
		known := true
		if !whole {
			// another way of cutting the name
			for _, evs := range in.Events {
				for _, b := range evs {
					cut := b.A
					known = known && !(b.Kind == "index" && s.f.norm(cut[0]) != split && cut[0].contains(name) && seqBase(cut[0]) != split && !(seqBase(cut[0]).Op == OPure && strings.HasPrefix(seqBase(cut[0]).S, "strings.Split")))
				}
			}
			if known {
				bad("not every name of the template that ends is used")
			} else {
				x.r.notes = append(x.r.notes, fmt.Sprintf("%s: how a list of names is cut has a form that is not covered", x.m.Name))
			}
			continue
		}
		for j, bs := range in.Backs {
			part := bs.f.norm(e.index(bs, split, idx, text))
			for _, empty := range []bool{true, false} {
				t := bs.clone()
				t.f.assume(tt.EqInt(tt.Len(part), tt.Int(0)), empty)
				if t.f.bad {
					continue
				}
				x.r.ob("added-under-name")
				n := 0
				for _, b := range in.Events[j] {
					if !x.put(b) {
						continue
					}
					n++
					switch {
					case !x.stored(t, b, up, cur):
						bad("the template that ends is not added to the one that contains it")
					case t.f.norm(b.A[1]) != t.f.norm(part):
						bad("the template that ends is added under %s, not under each of its names", b.A[1].str(4))
					case x.fath >= 0 && t.f.norm(e.loadField(t, cur, x.T, x.fath)) != t.f.norm(up):
						bad("the template that ends does not know the one that contains it")
					}
				}
				if !empty && n != 1 || empty && n > 0 {
					bad("a name of the template that ends is not used exactly once, or an empty one is")
				}
			}
		}
	}
	_ = lo
	if !done {
		bad("the template that ends is added to no template")
	}
}

// finish: what the loaded template gets
func (x *nesting) finish(o Outcome, t *Term) {
	r, m, e, tt, st := x.r, x.m, x.e, x.e.tt, o.St
	r.ob("all-closed")
	min := int64(0)
	if x.cur == nil {
		min = 1
	}
	if !st.f.known(tt.LeT(tt.Len(x.stack), tt.Int(min)), true) {
		r.fail(m, "all-closed", x.fn, o.Pos, st, "success is returned although a template may still be open")
	}
	whole := false
	for _, it := range e.over(st, x.info) {
		whole = whole || it.seq != nil && st.f.norm(it.seq) == st.f.norm(x.list)
	}
	r.ob("every-token")
	for _, ex := range x.info.Exits {
		// leaving with an error is allowed
		if ex.Kind == xPanic || ex.Header || ex.Kind == xReturn {
			continue
		}
		whole = false
	}
	if !whole && headerExits(x.info) {
		r.fail(m, "every-token", x.fn, o.Pos, st, "not every token is looked at for nested templates")
	}
	// tokens left
	rp := st.f.norm(e.loadField(st, t, x.T, x.root))
	if rp.Op == OAlloc {
		seq := st.f.norm(e.load(st, rp, contentType(rp)))
		r.ob("tokens-left")
		if e.heldBefore(st, seq, t) {
			r.fail(m, "tokens-left", x.fn, o.Pos, st, "the loaded template keeps tokens it had before")
		}
		if msg := x.left(st, seq); msg != "" {
			r.fail(m, "tokens-left", x.fn, o.Pos, st, "%s", msg)
		}
	} else {
		r.fail(m, "tokens-left", x.fn, o.Pos, st, "the loaded template is given no tokens")
	}
	// templates of the outermost level
	root := x.info.Init[x.stack]
	if x.cur != nil {
		root = x.info.Init[x.cur]
	} else {
		ps := tt.parts(root)
		root = x.piece(st, ps[0].A[0], x.stack, true)
	}
	root = st.f.norm(root)
	if root == st.f.norm(t) {
		return
	}
	r.ob("outermost-added")
	tab := st.f.norm(e.loadField(x.after(st), root, x.T, x.sub))
	if st.f.isNil(tab) {
		return
	}
	good := false
	for _, ev := range st.tr.list() {
		if ev.Kind != "loopexit" || ev.Info == nil {
			continue
		}
		for _, it := range e.over(st, ev.Info) {
			if it.ver == nil || verObj(it.ver) == nil || st.f.norm(verObj(it.ver)) != tab {
				continue
			}
			all := true
			for i, b := range ev.Info.Backs {
				n := 0
				for _, p := range ev.Info.Events[i] {
					val := b.f.norm(e.lookupTerm(b, it.ver, it.keys[i], types.NewPointer(x.T)))
					if x.put(p) && x.stored(b, p, t, val) && b.f.norm(p.A[1]) == b.f.norm(it.keys[i]) && (x.fath < 0 || b.f.norm(e.loadField(b, val, x.T, x.fath)) == b.f.norm(t)) {
						n++
					}
				}
				all = all && n == 1
			}
			good = good || all
		}
	}
	if !good {
		r.fail(m, "outermost-added", x.fn, o.Pos, st, "the sub-templates of the outermost level are not all added to the loaded template under their names")
	}
}

// after: the state when the loop over nested definitions was left
func (x *nesting) after(st *State) *State {
	for _, ex := range x.info.Exits {
		if ex.Header && ex.Kind != xPanic {
			return ex.St
		}
	}
	return st
}

// left: the list holds the tokens that were not used up
func (x *nesting) left(st *State, seq *Term) string {
	tt, e := x.e.tt, x.e
	list := st.f.norm(x.list)
	if st.f.norm(seq) == list {
		return ""
	}
	zero := func(s *State, p *Term) bool { return s.f.known(tt.EqInt(p, tt.Int(0)), true) }
	over := func(s *State, p *Term) bool { return s.f.known(tt.LeT(tt.Len(x.list), p), true) }
	if msg, ok := x.kept(st, seq, zero, over); ok {
		if msg != "" {
			return "the tokens of the loaded template: " + msg
		}
		return ""
	}
	if seq.Op != OSub || st.f.norm(seq.A[0]) != list {
		x.r.notes = append(x.r.notes, fmt.Sprintf("%s: how the tokens of the loaded template are made has a form that is not covered", x.m.Name))
		return ""
	}
	if n, ok := seq.A[1].intVal(); !ok || n != 0 {
		return "the first tokens of the loaded template are cut off"
	}
	n := st.f.norm(seq.A[2])
	info := st.loopOf[n]
	if info == nil {
		return "the tokens of the loaded template are not as many as are left"
	}
	if v, ok := info.Init[n].intVal(); !ok || v != 0 {
		return "the tokens that are left are not counted from zero"
	}
	whole := false
	for _, it := range e.over(st, info) {
		if it.seq == nil || st.f.norm(it.seq) != list || it.step != 1 {
			continue
		}
		whole = true
		for i, b := range info.Backs {
			for _, used := range []bool{true, false} {
				s := b.clone()
				s.f.assume(tt.EqInt(x.kind(s, info, it.idx), tt.Int(x.unu)), used)
				if s.f.bad {
					continue
				}
				x.r.ob("tokens-taken")
				next := s.f.norm(info.Back[n][i])
				moved, other := s.f.known(tt.EqInt(n, it.idx), true), false
				for _, ev := range info.Events[i] {
					if ev.Kind != "store" || innermostIndex(ev.A[0]) == nil {
						continue
					}
					p := x.place(s, innermostIndex(ev.A[0]))
					if p == nil {
						continue
					}
					if ev.A[0].Op == OIndexAddr && s.f.known(tt.EqInt(p, n), true) && s.f.norm(ev.A[1]) == x.at(s, info, it.idx) {
						moved = true
					} else {
						other = true
					}
				}
				switch {
				case other:
					return "tokens are overwritten while those that are left are put together"
				case used && next != n:
					return "a token that is used up already is kept in the loaded template"
				case !used && (!s.f.known(tt.EqInt(next, tt.AddN(n, 1)), true) || !moved):
					return "a token of the loaded template is lost"
				}
			}
		}
	}
	if !whole {
		return "not every token is looked at when those that are left are put together"
	}
	return ""
}

func init() {
	register("C32", "Nested template definitions give the tree they describe", "Abstract interpretation of the loading of a template from a text; the loop over the tokens is found by its list of open positions and its list of open templates, whatever their names and wherever the code is. Obligations for a generic iteration: a beginning opens exactly one new template of its own name and remembers its own position and the template open before; an end is accepted only if something is open, closes exactly the last one, gives it in order each token since its beginning that is not used up, marks all of them as used up, adds it to the containing template under each of its names and makes that one the open template; other tokens change nothing. After the loop: nothing is open, the tokens left are those not used up, in order, and each template of the outermost level is added to the loaded one.", nestCheck)
}
