package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cacheModel names the parts of the cache by their role, found through types and exported names.
type cacheModel struct {
	m          *Module
	typ        types.Type
	tab, list  int // table and order list fields
	tabT       types.Type
	listT      types.Type
	ent        types.Type
	ctime      int
	ttl, data  int
	maxi, expi int
	vali       int
	mutable    map[string]bool
}

func fieldByName(t types.Type, n string) int {
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == n {
				return i
			}
		}
	}
	return -1
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// fieldAddr builds the address of a field the way the engine does
func (e *Engine) fieldAddr(base *Term, t types.Type, i int) *Term {
	f := t.Underlying().(*types.Struct).Field(i)
	return e.tt.mk(Term{Op: OFieldAddr, A: []*Term{base}, N: int64(i), S: f.Name(), T: f.Type(), Ref: t})
}

func (e *Engine) loadField(st *State, base *Term, t types.Type, i int) *Term {
	return e.load(st, e.fieldAddr(base, t, i), t.Underlying().(*types.Struct).Field(i).Type())
}

func newCacheModel(m *Module, r *Report) *cacheModel {
	n := m.Named("XCache")
	if n == nil {
		r.errf("%s: type XCache not found", m.Name)
		return nil
	}
	cm := &cacheModel{m: m, typ: n, tab: -1, list: -1, ttl: -1, data: -1, ctime: -1}
	u, ok := n.Underlying().(*types.Struct)
	if !ok {
		r.errf("%s: XCache is not a struct", m.Name)
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		switch x := u.Field(i).Type().Underlying().(type) {
		case *types.Map:
			if p, ok := x.Elem().Underlying().(*types.Pointer); ok && cm.tab < 0 {
				cm.tab, cm.tabT, cm.ent = i, u.Field(i).Type(), p.Elem()
			}
		case *types.Slice:
			if isStringType(x.Elem()) && cm.list < 0 {
				cm.list, cm.listT = i, u.Field(i).Type()
			}
		}
	}
	cm.maxi, cm.expi, cm.vali = fieldByName(n, "Maxitems"), fieldByName(n, "Expire"), fieldByName(n, "Validator")
	if cm.tab < 0 || cm.list < 0 || cm.maxi < 0 || cm.expi < 0 || cm.vali < 0 {
		r.errf("%s: table, order list or settings of XCache not found", m.Name)
		return nil
	}
	eu := cm.ent.Underlying().(*types.Struct)
	for i := 0; i < eu.NumFields(); i++ {
		t := eu.Field(i).Type()
		switch {
		case isNamed(t, "time", "Duration"):
			cm.ttl = i
		case isIface(t):
			cm.data = i
		}
	}
	if cm.data < 0 {
		r.errf("%s: the value of a cache entry was not found", m.Name)
		return nil
	}
	// the storage time is the time the validity tests look at
	votes := map[int]map[token.Pos]bool{}
	vote := func(t *Term, pos token.Pos) {
		t.walk(func(x *Term) bool {
			if x.Op == OLoad && x.A[0].Op == OFieldAddr && structTypeOf(x.A[0]) != nil && types.Identical(structTypeOf(x.A[0]), cm.ent) && isNamed(x.A[0].T, "time", "Time") {
				i := int(x.A[0].N)
				if votes[i] == nil {
					votes[i] = map[token.Pos]bool{}
				}
				votes[i][pos] = true
			}
			return x.Op == OLin || x == t
		})
	}
	cm.mutable = map[string]bool{}
	for _, fn := range m.ExportedMethods("XCache") {
		e := newEngine(m, newTermTab(m.Pkg.Types), Config{Record: func(st *State, ev *Ev) {
			switch ev.Kind {
			case "usercall":
				if len(ev.A) > 2 {
					vote(ev.A[2], ev.Pos)
				}
			case "ext":
				if strings.HasPrefix(ev.Name, "(time.Time).") && len(ev.A) > 0 {
					for _, a := range ev.A {
						vote(a, ev.Pos)
					}
				}
			case "store":
				if o := st.ownerOfAddr(ev.A[0], 0); o != nil && typeName(o.Type) == "XCache" && !(st.initialising(ev) && modeOf(st, o) == 2) {
					cm.mutable[ownerKey(st.e, o)] = true
				}
			case "mapput", "mapdel", "mapclear":
				cm.mutable[fmt.Sprintf("%s.%d", shortType(cm.typ), cm.tab)] = true
			}
		}})
		e.Run(fn, nil)
	}
	best := -1
	for i := 0; i < eu.NumFields(); i++ {
		if len(votes[i]) > 0 && (best < 0 || len(votes[i]) > len(votes[best])) {
			best = i
		}
	}
	cm.ctime = best
	if best < 0 {
		r.errf("%s: the storage time of a cache entry was not found", m.Name)
		return nil
	}
	return cm
}

// ---- consistency of table and order list ----

type pitem struct {
	kind  string // stale, missing, extra, staleseg, missingseg, stalesome, staleall, blank, unknown
	k     *Term
	S     *Term
	lo    *Term
	hi    *Term
	where string
	pos   token.Pos
	msg   string
}

func (p pitem) String() string { return fmt.Sprint(p.kind, "(", p.k, p.S, p.lo, p.hi, ")") }

type cacheMon struct {
	pend   []pitem
	issues []cacheIssue
	notes  []cacheNote
	added  []*Term // keys put at an end of the list
}

type cacheIssue struct {
	rule, msg string
	blank     bool // about an overwritten place
}

type cacheNote struct {
	kind  string // add, evict
	where string
	k     *Term
	valid bool // the removed entry was not shown invalid
	why   []string
	pos   token.Pos
	fn    *ssa.Function
}

func (c *cacheMon) cloneMon() interface{} {
	n := &cacheMon{pend: append([]pitem(nil), c.pend...), added: append([]*Term(nil), c.added...)}
	n.issues = append([]cacheIssue(nil), c.issues...)
	n.notes = append([]cacheNote(nil), c.notes...)
	return n
}

// cacheRun analyses one method of the cache with the consistency monitor.
type cacheRun struct {
	cm   *cacheModel
	r    *Report
	fn   *ssa.Function
	e    *Engine
	recv *Term
	key  *Term // the key parameter, if any
	// callbacks in the final pass
	onNote  func(st *State, n cacheNote)
	onIssue func(st *State, ev *Ev, is cacheIssue)
	onEvent func(st *State, ev *Ev)
	onLoop  func(info *LoopInfo)
	conc    bool
	logOn   bool
}

var cacheDebug = os.Getenv("XVERIF_DEBUG") != ""

func (c *cacheRun) taddr() *Term { return c.e.fieldAddr(c.recv, c.cm.typ, c.cm.tab) }
func (c *cacheRun) laddr() *Term { return c.e.fieldAddr(c.recv, c.cm.typ, c.cm.list) }
func (c *cacheRun) table(st *State) *Term {
	return c.e.load(st, c.taddr(), c.cm.tabT)
}
func (c *cacheRun) ver(st *State) *Term  { return c.e.mapVer(st, c.table(st)) }
func (c *cacheRun) list(st *State) *Term { return c.e.load(st, c.laddr(), c.cm.listT) }
func (c *cacheRun) has(st *State, k *Term) (bool, bool) {
	return st.f.eval(c.e.hasTerm(st, c.ver(st), k))
}
func (c *cacheRun) setting(st *State, i int) *Term {
	return c.e.loadField(st, c.recv, c.cm.typ, i)
}

func (c *cacheRun) mon(st *State) *cacheMon {
	if st.mon == nil {
		st.mon = &cacheMon{}
	}
	return st.mon.(*cacheMon)
}

// run analyses the method; pre may add assumptions on the arguments.
func (c *cacheRun) run(pre func(st *State, args []*Term)) []Outcome {
	cfg := Config{Concurrent: c.conc, LogOn: c.logOn, Mutable: c.cm.mutable}
	if !c.conc {
		cfg.Mutable = nil
	}
	cfg.SplitMap = func(s *State, m *Term) bool { return m == c.table(s) }
	cfg.KeepElems = func(s *State, l *Term) bool { return c.recv != nil && c.ofList(s, l) }
	cfg.Hook = c.hook
	cfg.Record = func(s *State, ev *Ev) {
		mon := c.mon(s)
		for _, is := range mon.issues {
			if c.onIssue != nil {
				c.onIssue(s, ev, is)
			}
		}
		for _, n := range mon.notes {
			if c.onNote != nil {
				c.onNote(s, n)
			}
		}
		if c.onEvent != nil {
			c.onEvent(s, ev)
		}
	}
	cfg.Prune = c.prune
	cfg.LoopHeader = c.loopHeader
	cfg.Widen = c.widen
	cfg.LoopDone = func(info *LoopInfo) {
		if !c.e.recording() {
			return
		}
		for i := range info.Backs {
			x, mi := c.unmatched(info, i)
			if cacheDebug && len(x)+len(mi) > 0 {
				fmt.Println("LOOP", c.cm.m.Pos(info.Pos), "header", c.mon(info.Hdr).pend, "back", c.mon(info.Backs[i]).pend)
				for s, v := range info.Back {
					fmt.Println("   ", s, ":", info.Init[s], "->", v[i])
				}
			}
			for _, p := range append(x, mi...) {
				if c.onIssue != nil {
					ev := &Ev{Kind: "loop", Pos: info.Pos, Fn: info.Fn}
					c.onIssue(info.Backs[i], ev, cacheIssue{"loop-balance", "an iteration of the loop leaves table and order different: " + c.describe(p), p.kind == "blank"})
				}
			}
		}
		if c.onLoop != nil {
			c.onLoop(info)
		}
	}
	e := newEngine(c.cm.m, newTermTab(c.cm.m.Pkg.Types), cfg)
	c.e = e
	outs := e.Run(c.fn, func(s *State, args []*Term) {
		if len(args) > 0 {
			c.recv = args[0]
		}
		if len(args) > 1 && isStringType(args[1].T) {
			c.key = args[1]
		}
		s.mon = &cacheMon{}
		s.ghost["removed"] = e.tt.Int(0)
		if pre != nil {
			pre(s, args)
		}
	})
	m, r := c.cm.m, c.r
	r.entry[m.Name+" "+c.fn.RelString(m.Pkg.Types)] = true
	for f := range e.Funcs {
		r.funcs[m.Name+" "+f.RelString(m.Pkg.Types)] = true
	}
	r.paths += len(outs)
	r.instrs += e.NInstr
	r.loops += e.NLoops
	if e.Overflow {
		r.errf("%s %s: too many abstract paths", m.Name, c.fn.RelString(m.Pkg.Types))
	}
	for u := range e.Unsup {
		r.notes = append(r.notes, fmt.Sprintf("%s %s: not modelled: %s", m.Name, c.fn.RelString(m.Pkg.Types), u))
	}
	return outs
}

func (c *cacheRun) hook(st *State, ev *Ev) {
	mon := c.mon(st)
	mon.issues = nil
	mon.notes = nil
	c.drop(st, mon)
	switch ev.Kind {
	case "acquired":
		if ev.A[0].Op == OFieldAddr && ev.A[0].A[0] == c.recv {
			mon.pend = nil
		}
	case "load":
		// a stored key is in the list
		if ev.A[0] == c.laddr() && len(mon.pend) == 0 && c.key != nil {
			if h, k := c.has(st, c.key); h && k {
				st.f.assume(c.e.tt.LtT(c.e.tt.Int(0), c.e.tt.Len(c.list(st))), true)
			}
		}
	case "mapput":
		if ev.A[0] == c.table(st) {
			had, known := st.f.eval(c.e.hasTerm(st, ev.A[3], ev.A[1]))
			c.put(st, mon, ev.A[1], had && known, ev)
		}
	case "mapdel":
		if ev.A[0] == c.table(st) {
			had, known := st.f.eval(c.e.hasTerm(st, ev.A[2], ev.A[1]))
			c.del(st, mon, ev.A[1], ev.A[2], had || !known, ev)
		}
	case "mapget":
		if ev.A[0] == c.table(st) && c.inList(st, mon, ev.A[1]) {
			// a listed key has an entry
			st.f.assume(c.e.hasTerm(st, ev.A[2], ev.A[1]), true)
		}
	case "maplen":
		if ev.A[0] == c.table(st) && len(mon.pend) == 0 {
			// every entry has exactly one place in the list
			st.f.assume(c.e.tt.EqInt(c.e.mapLen(st, ev.A[1]), c.e.tt.Len(c.list(st))), true)
		}
	case "mapclear":
		if ev.A[0] == c.table(st) {
			c.emptied(st, mon)
		}
	case "sorted":
		if c.ofList(st, ev.A[0]) {
			mon.notes = append(mon.notes, cacheNote{kind: "disturb", where: "sorted", pos: ev.Pos, fn: ev.Fn})
		}
	case "store":
		if ia := innermostIndex(ev.A[0]); ia != nil && c.ofList(st, ia.A[0]) && st.f.norm(ev.A[1]) != st.f.norm(ev.A[2]) {
			c.blank(st, mon, ia, ev)
		}
		if ev.A[0] == c.laddr() {
			c.listChange(st, mon, ev.A[2], ev.A[1], ev)
		}
		if ev.A[0] == c.taddr() {
			v := ev.A[1]
			if v.Op == ONil || c.e.mapVer(st, v).Op == OMapEmpty {
				c.emptied(st, mon)
			} else if v != ev.A[2] && !c.tableCopied(st, mon, v, ev) {
				mon.pend = append(mon.pend, pitem{kind: "unknown", msg: "the table is replaced by another one that is not known to be empty"})
			}
		}
	case "unlock", "runlock":
		if ev.A[0].Op == OFieldAddr && ev.A[0].A[0] == c.recv {
			c.settle(st, mon, "when the lock is released")
		}
	case "loopexit":
		if len(mon.pend) > 0 && c.ver(st).Op == OMapEmpty {
			c.emptied(st, mon)
		}
	}
	switch ev.Kind {
	case "mapput", "mapdel", "store":
		c.forget(st, mon)
	}
}

// forget gives a list composed of several parts a name of its own once it agrees with the table
func (c *cacheRun) forget(st *State, mon *cacheMon) {
	tt := c.e.tt
	l := c.list(st)
	ps := tt.parts(contentEq(l))
	if len(mon.pend) > 0 || len(ps) < 2 || st.f.bad {
		return
	}
	n := c.e.newSym("list", c.cm.listT)
	st.f.assume(tt.EqInt(tt.Len(n), tt.Len(l)), true)
	if p := ps[0]; p.Op == OElem {
		st.f.union(c.e.index(st, n, tt.Int(0), types.Typ[types.String]), p.A[0])
	}
	if p := ps[len(ps)-1]; p.Op == OElem {
		st.f.union(c.e.index(st, n, st.f.norm(tt.AddN(tt.Len(n), -1)), types.Typ[types.String]), p.A[0])
	}
	st.f.setRep(l, n)
}

// drop forgets the discrepancies about nothing
func (c *cacheRun) drop(st *State, mon *cacheMon) {
	var keep []pitem
	for _, p := range mon.pend {
		if !c.emptyItem(st, p) {
			keep = append(keep, p)
		}
	}
	mon.pend = keep
}

func (c *cacheRun) emptied(st *State, mon *cacheMon) {
	mon.pend = nil
	l := c.list(st)
	if !c.emptySeq(st, l) {
		mon.pend = append(mon.pend, pitem{kind: "staleall"})
	}
}

func (c *cacheRun) emptySeq(st *State, l *Term) bool {
	return l.Op == ONil || st.f.known(c.e.tt.LeT(c.e.tt.Len(l), c.e.tt.Int(0)), true)
}

// settle reports the discrepancies that are left
func (c *cacheRun) settle(st *State, mon *cacheMon, when string) {
	for _, p := range mon.pend {
		if c.emptyItem(st, p) {
			continue
		}
		mon.issues = append(mon.issues, cacheIssue{"consistent", c.describe(p) + " " + when, p.kind == "blank"})
	}
}

func (c *cacheRun) emptyItem(st *State, p pitem) bool {
	return p.lo != nil && st.f.known(c.e.tt.LeT(p.hi, p.lo), true)
}

func (c *cacheRun) describe(p pitem) string {
	switch p.kind {
	case "stale":
		return "key " + keyText(p.k) + " stays in the order list without an entry"
	case "missing":
		return "key " + keyText(p.k) + " has an entry but is not in the order list"
	case "extra":
		return "key " + keyText(p.k) + " is twice in the order list"
	case "staleseg":
		return "the keys of a part of the order list have no entry any more"
	case "missingseg":
		return "entries whose keys were cut from the order list stay in the table"
	case "stalesome":
		return "keys of removed entries stay in the order list"
	case "staleall":
		return "the order list keeps the keys of the emptied table"
	case "blank":
		return "a place of the order list is overwritten"
	}
	return p.msg
}

func keyText(k *Term) string {
	if k == nil {
		return "?"
	}
	switch k.Op {
	case OSym:
		return strings.TrimPrefix(k.S, "param:")
	case OIndex:
		return "at a position of the list"
	}
	return "computed here"
}

func (c *cacheRun) same(st *State, a, b *Term) (bool, bool) {
	return st.f.eval(c.e.tt.Eq(st.f.norm(a), st.f.norm(b)))
}
func (c *cacheRun) eq(st *State, a, b *Term) bool {
	v, k := c.same(st, a, b)
	return v && k
}

func rm(p []pitem, i int) []pitem {
	return append(append([]pitem(nil), p[:i]...), p[i+1:]...)
}

// asIndex: the key is the element of a sequence
func asIndex(k *Term) (*Term, *Term) {
	if k.Op == OIndex {
		return k.A[0], k.A[1]
	}
	return nil, nil
}

// inList: the key is an element of the current list, and not one of those known to be stale
func (c *cacheRun) inList(st *State, mon *cacheMon, k *Term) bool {
	tt := c.e.tt
	k = st.f.norm(k)
	for _, p := range mon.pend {
		if p.kind == "stalesome" || p.kind == "staleall" || p.kind == "unknown" {
			return false
		}
		if p.kind == "stale" {
			if v, known := c.same(st, p.k, k); !known || v {
				return false
			}
		}
	}
	for _, p := range mon.pend {
		if p.kind == "blank" {
			if S, i := asIndex(k); S == nil || S == p.S && !st.f.known(tt.LtT(i, p.lo), true) && !st.f.known(tt.LeT(p.hi, i), true) {
				return false
			}
		}
	}
	for _, q := range tt.parts(contentEq(c.list(st))) {
		q = contentEq(q)
		if q.Op == OElem {
			if c.eq(st, q.A[0], k) {
				return true
			}
			continue
		}
		S, i := asIndex(k)
		if S == nil {
			continue
		}
		base, lo, hi := q, tt.Int(0), tt.Len(q)
		if q.Op == OSub {
			base, lo, hi = q.A[0], q.A[1], q.A[2]
		}
		if base != S || !st.f.known(tt.LeT(lo, i), true) || !st.f.known(tt.LtT(i, hi), true) {
			continue
		}
		covered := false
		for _, p := range mon.pend {
			if p.kind == "staleseg" && p.S == S {
				if !(st.f.known(tt.LtT(i, p.lo), true) || st.f.known(tt.LeT(p.hi, i), true)) {
					covered = true
				}
			}
		}
		if !covered {
			return true
		}
	}
	return false
}

// collector: the key is an element of a list that a loop filled, under the lock held now
func (c *cacheRun) collector(st *State, k *Term) (*LoopInfo, *Term) {
	S, _ := asIndex(st.f.norm(k))
	if S == nil {
		return nil, nil
	}
	info := st.loopOf[S]
	if info == nil || len(info.Backs) == 0 {
		return nil, nil
	}
	if init := info.Init[S]; init == nil || !c.emptySeq(st, init) {
		return nil, nil
	}
	for ev := st.tr; ev != nil; ev = ev.Prev {
		if ev.Kind == "loopexit" && ev.Info == info {
			return info, S
		}
		if ev.Kind == "acquired" || ev.Kind == "mapput" && ev.A[0] == c.table(st) {
			return nil, nil
		}
	}
	return nil, nil
}

// collectedReasons: every key of the list was put there because its entry was invalid
func (c *cacheRun) collectedReasons(st *State, k *Term) []string {
	info, S := c.collector(st, k)
	if info == nil {
		return nil
	}
	var out map[string]bool
	for i, b := range info.Backs {
		v := info.Back[S][i]
		if v == b.f.norm(S) {
			continue
		}
		ps := c.e.tt.parts(v)
		if len(ps) != 2 || ps[0] != b.f.norm(S) || ps[1].Op != OElem {
			return nil
		}
		ent := c.e.lookupTerm(b, c.ver(b), ps[1].A[0], c.cm.tabT.Underlying().(*types.Map).Elem())
		rs := map[string]bool{}
		for _, w := range c.reasons(b, ent) {
			if out == nil || out[w] {
				rs[w] = true
			}
		}
		out = rs
	}
	return sortedNames(out)
}

// collectedKey: the key is one of the distinct keys collected from the table, not yet removed
func (c *cacheRun) collectedKey(st *State, k *Term) bool {
	info, S := c.collector(st, k)
	if info == nil || !info.IsMap || info.MapObj != c.table(info.Entry) || len(info.Keys) != len(info.Backs) {
		return false
	}
	for i, b := range info.Backs {
		if v := info.Back[S][i]; v != b.f.norm(S) {
			ps := c.e.tt.parts(v)
			if len(ps) != 2 || ps[0] != b.f.norm(S) || ps[1].Op != OElem || !c.eq(b, ps[1].A[0], info.Keys[i]) {
				return false
			}
		}
	}
	dels := 0
	for ev := st.tr; ev != nil && ev.Info != info; ev = ev.Prev {
		if ev.Kind == "mapdel" && ev.A[0] == c.table(st) {
			dels++
		}
	}
	return dels <= 1
}

// cut: the key was cut from the list while it had an entry
func (c *cacheRun) cut(st *State, mon *cacheMon, k *Term) bool {
	tt := c.e.tt
	S, i := asIndex(st.f.norm(k))
	for _, p := range mon.pend {
		if p.kind == "missing" && c.eq(st, p.k, k) {
			return true
		}
		if p.kind == "missingseg" && S == p.S && st.f.known(tt.LeT(p.lo, i), true) && st.f.known(tt.LtT(i, p.hi), true) {
			return true
		}
	}
	return false
}

// reasons why the entry of the key may be dropped on this path: expired, ttl, rejected
func (c *cacheRun) reasons(st *State, ent *Term) []string {
	tt := c.e.tt
	ent = st.f.norm(ent)
	ct := c.e.loadField(st, ent, c.cm.ent, c.cm.ctime)
	var out []string
	if exp := c.setting(st, c.cm.expi); st.f.known(tt.EqInt(exp, tt.Int(0)), false) && c.elapsed(st, ct, exp) {
		out = append(out, "expired")
	}
	if c.cm.ttl >= 0 {
		for _, d := range c.ttls(st, ent) {
			if st.f.known(tt.EqInt(d, tt.Int(0)), false) && c.elapsed(st, ct, d) {
				out = append(out, "ttl")
				break
			}
		}
	}
	for ev := st.tr; ev != nil; ev = ev.Prev {
		if ev.Kind == "usercall" && len(ev.A) == 3 && ev.Res != nil && st.f.known(ev.Res, false) && st.f.norm(ev.A[2]) == ct {
			out = append(out, "rejected")
			break
		}
	}
	return out
}

// ttls: values of the ttl of the entry read on this path
func (c *cacheRun) ttls(st *State, ent *Term) []*Term {
	seen := map[*Term]bool{c.e.loadField(st, ent, c.cm.ent, c.cm.ttl): true}
	for ev := st.tr; ev != nil; ev = ev.Prev {
		if ev.Kind == "load" && ev.A[0].Op == OFieldAddr && int(ev.A[0].N) == c.cm.ttl && st.f.norm(ev.A[0].A[0]) == ent && structTypeOf(ev.A[0]) != nil && types.Identical(structTypeOf(ev.A[0]), c.cm.ent) {
			seen[st.f.norm(ev.A[1])] = true
		}
	}
	return sortedTerms(seen)
}

// nows: the readings of the clock the facts talk about
func nows(st *State) []*Term {
	seen := map[*Term]bool{}
	for _, d := range st.f.le {
		for _, t := range linTerms(d) {
			if t.Op == OSym && t.S == "now" {
				seen[t] = true
			}
		}
	}
	return sortedTerms(seen)
}

func (c *cacheRun) elapsed(st *State, ct, d *Term) bool {
	tt := c.e.tt
	for _, n := range nows(st) {
		if st.f.known(tt.LeT(tt.Add(ct, d), n), true) {
			return true
		}
	}
	return false
}

func (c *cacheRun) notElapsed(st *State, ct, d *Term) bool {
	tt := c.e.tt
	for _, n := range nows(st) {
		if st.f.known(tt.LeT(n, tt.Add(ct, d)), true) {
			return true
		}
	}
	return false
}

// ofList: the memory of the sequence is that of the order list
func (c *cacheRun) ofList(st *State, t *Term) bool {
	t = st.f.norm(t)
	if !isStringType(sliceElemOrNil(t.T)) && t.T != nil {
		return false
	}
	l := c.list(st)
	if t == l {
		return true
	}
	a, b := seqBase(t), seqBase(l)
	return a != nil && a == b
}

// tableCopied: the new table is a changed copy of the old one
func (c *cacheRun) tableCopied(st *State, mon *cacheMon, v *Term, ev *Ev) bool {
	elem := c.cm.tabT.Underlying().(*types.Map).Elem()
	was := c.e.mapVer(st, ev.A[2])
	ver := c.e.uncopied(st, c.e.mapVer(st, v), was, elem)
	var chain []*Term
	base := ver
	for base != was && (base.Op == OMapPut || base.Op == OMapDel) {
		chain = append(chain, base)
		base = base.A[0]
	}
	if base != was {
		if c.key == nil || !c.e.without(st, ver, was, c.key, elem) {
			return false
		}
		ver = c.e.tt.mk(Term{Op: OMapDel, A: []*Term{was, c.key}})
		chain = []*Term{ver}
	}
	for i := len(chain) - 1; i >= 0; i-- {
		x := chain[i]
		had, known := st.f.eval(c.e.hasTerm(st, x.A[0], x.A[1]))
		if x.Op == OMapPut {
			c.put(st, mon, x.A[1], had && known, ev)
		} else {
			c.del(st, mon, x.A[1], x.A[0], had || !known, ev)
		}
	}
	st.maps[v] = ver
	return true
}

func (c *cacheRun) del(st *State, mon *cacheMon, k, oldVer *Term, had bool, ev *Ev) {
	tt := c.e.tt
	if !had {
		if c.inList(st, mon, k) || c.cut(st, mon, k) || c.collectedKey(st, k) {
			st.f.bad = true
		}
		return
	}
	st.ghost["removed"] = tt.AddN(st.ghost["removed"], 1)
	ent := c.e.lookupTerm(st, oldVer, k, c.cm.tabT.Underlying().(*types.Map).Elem())
	why := c.reasons(st, ent)
	if len(why) == 0 {
		why = c.collectedReasons(st, k)
	}
	note := cacheNote{kind: "evict", k: k, why: why, valid: len(why) == 0, pos: ev.Pos, fn: ev.Fn, where: c.whereIs(st, mon, k)}
	done := func() { mon.notes = append(mon.notes, note) }
	for i, p := range mon.pend {
		switch p.kind {
		case "missing":
			if c.eq(st, p.k, k) {
				note.where = p.where
				mon.pend = rm(mon.pend, i)
				done()
				return
			}
		case "missingseg", "staleseg":
			S, x := asIndex(st.f.norm(k))
			if S != p.S {
				continue
			}
			q := p
			if p.kind == "missingseg" {
				note.where = p.where
				switch {
				case c.eq(st, x, p.lo):
					q.lo = tt.AddN(p.lo, 1)
				case c.eq(st, x, tt.AddN(p.hi, -1)):
					q.hi = tt.AddN(p.hi, -1)
				default:
					continue
				}
			} else {
				switch {
				case c.eq(st, x, p.hi):
					q.hi = tt.AddN(p.hi, 1)
				case c.eq(st, x, tt.AddN(p.lo, -1)):
					q.lo = tt.AddN(p.lo, -1)
				default:
					continue
				}
			}
			mon.pend = append(rm(mon.pend, i), q)
			done()
			return
		}
	}
	mon.pend = append(mon.pend, pitem{kind: "stale", k: k, pos: ev.Pos})
	done()
}

// whereIs: position of the key among the listed keys that still have an entry
func (c *cacheRun) whereIs(st *State, mon *cacheMon, k *Term) string {
	tt := c.e.tt
	k = st.f.norm(k)
	sg := c.segs(st, c.list(st))
	if len(sg) == 0 {
		return "other"
	}
	at := func(g seg, first bool) *Term {
		if g.elem != nil {
			return st.f.norm(g.elem)
		}
		i := g.lo
		if !first {
			i = tt.AddN(g.hi, -1)
		}
		for _, p := range mon.pend {
			if p.kind == "staleseg" && p.S == g.base {
				if first && c.eq(st, p.lo, g.lo) {
					i = p.hi
				}
				if !first && c.eq(st, p.hi, g.hi) {
					i = tt.AddN(p.lo, -1)
				}
			}
		}
		return c.e.index(st, g.base, st.f.norm(i), types.Typ[types.String])
	}
	if at(sg[0], true) == k {
		return "front"
	}
	if at(sg[len(sg)-1], false) == k {
		return "back"
	}
	return "other"
}

func (c *cacheRun) put(st *State, mon *cacheMon, k *Term, had bool, ev *Ev) {
	if had {
		return
	}
	for i, p := range mon.pend {
		if p.kind == "stale" && c.eq(st, p.k, k) {
			mon.pend = rm(mon.pend, i)
			return
		}
	}
	mon.pend = append(mon.pend, pitem{kind: "missing", k: k, pos: ev.Pos})
}

// addElem: the key gets one more place in the list
func (c *cacheRun) addElem(st *State, mon *cacheMon, k *Term, where string, ev *Ev) {
	mon.notes = append(mon.notes, cacheNote{kind: "add", where: where, k: k, pos: ev.Pos, fn: ev.Fn})
	mon.added = append(mon.added, k)
	for i, p := range mon.pend {
		if p.kind == "missing" && c.eq(st, p.k, k) {
			mon.pend = rm(mon.pend, i)
			return
		}
	}
	h, known := c.has(st, k)
	switch {
	case known && h:
		mon.pend = append(mon.pend, pitem{kind: "extra", k: k, pos: ev.Pos})
	case known:
		mon.pend = append(mon.pend, pitem{kind: "stale", k: k, pos: ev.Pos})
	default:
		mon.pend = append(mon.pend, pitem{kind: "unknown", pos: ev.Pos, msg: "key " + keyText(k) + " is added to the order list although it may have no entry or be listed already"})
	}
}

// gap: the element g loses its place in the list
func (c *cacheRun) gap(st *State, mon *cacheMon, g *Term, where string, ev *Ev) {
	for i, p := range mon.pend {
		if (p.kind == "stale" || p.kind == "extra") && c.eq(st, p.k, g) {
			mon.pend = rm(mon.pend, i)
			return
		}
	}
	if h, known := c.has(st, g); known && !h {
		some, maybe := false, -1
		for i, p := range mon.pend {
			switch p.kind {
			case "stalesome", "staleall", "unknown":
				some = true
			case "stale":
				if _, kn := c.same(st, p.k, g); !kn {
					maybe = i
				}
			case "staleseg":
				some = true
			}
		}
		switch {
		case some:
		case maybe >= 0:
			mon.pend = rm(mon.pend, maybe)
		default:
			st.f.bad = true // a listed key always has an entry
		}
		return
	}
	mon.pend = append(mon.pend, pitem{kind: "missing", k: g, where: where, pos: ev.Pos})
}

func (c *cacheRun) gapSeg(st *State, mon *cacheMon, S, lo, hi *Term, where string, ev *Ev) {
	tt := c.e.tt
	lo, hi = st.f.norm(lo), st.f.norm(hi)
	if st.f.known(tt.LeT(hi, lo), true) {
		return
	}
	for i, p := range mon.pend {
		if p.kind == "staleall" {
			return
		}
		if p.kind == "staleseg" && p.S == S && c.eq(st, p.lo, lo) && c.eq(st, p.hi, hi) {
			mon.pend = rm(mon.pend, i)
			return
		}
	}
	if n, ok := st.f.norm(tt.Sub(hi, lo)).intVal(); ok && n <= 3 {
		for j := int64(0); j < n; j++ {
			c.gap(st, mon, c.e.index(st, S, st.f.norm(tt.AddN(lo, j)), types.Typ[types.String]), where, ev)
		}
		return
	}
	mon.pend = append(mon.pend, pitem{kind: "missingseg", S: S, lo: lo, hi: hi, where: where, pos: ev.Pos})
}

// seg is a part of a sequence: an element or base[lo:hi]
type seg struct {
	elem         *Term
	base, lo, hi *Term
}

func (c *cacheRun) segs(st *State, t *Term) []seg {
	tt := c.e.tt
	var out []seg
	t = contentEq(st.f.norm(t))
	if cc, ok := st.content[t]; ok {
		t = contentEq(cc)
	}
	for _, p := range tt.parts(t) {
		p = contentEq(p)
		if cc, ok := st.content[p]; ok {
			p = contentEq(cc)
		}
		switch p.Op {
		case OElem:
			out = append(out, seg{elem: p.A[0]})
		case OSub:
			out = append(out, seg{base: p.A[0], lo: p.A[1], hi: p.A[2]})
		case ONil:
		case OCat:
			out = append(out, c.segs(st, p)...)
		default:
			out = append(out, seg{base: p, lo: tt.Int(0), hi: tt.Len(p)})
		}
	}
	return out
}

// listChange interprets the new list as the old one with places removed and added.
func (c *cacheRun) listChange(st *State, mon *cacheMon, old, nw *Term, ev *Ev) {
	tt := c.e.tt
	if c.compacted(st, mon, st.f.norm(nw)) {
		return
	}
	c.unblank(st, mon, st.f.norm(nw))
	os, ns := c.segs(st, old), c.segs(st, nw)
	if len(ns) == 0 && c.ver(st).Op == OMapEmpty {
		mon.pend = nil
		return
	}
	// rebuilt by a filtering loop
	if len(ns) == 1 && ns[0].base != nil && ns[0].base.Op == OSym {
		if info := st.loopOf[ns[0].base]; info != nil && ns[0].base != contentEq(old) {
			switch k, ok := c.filterLoop(st, info, ns[0].base, contentEq(st.f.norm(old))); {
			case ok && k == nil:
				var keep []pitem
				for _, p := range mon.pend {
					if !strings.HasPrefix(p.kind, "stale") {
						keep = append(keep, p)
					}
				}
				mon.pend = keep
				return
			case ok:
				c.withoutKey(st, mon, k, ev)
				return
			}
		}
	}
	unknown := func() {
		if cacheDebug {
			fmt.Println("UNKNOWN", old, "=>", nw)
		}
		mon.pend = append(mon.pend, pitem{kind: "unknown", msg: "the order list is replaced by one that is not the old one with keys removed and added", pos: ev.Pos})
	}
	type gp struct {
		s     seg
		where string
	}
	var gaps []gp
	type ad struct {
		k     *Term
		where string
	}
	var adds []ad
	oi := 0
	var cur *seg
	if len(os) > 0 {
		x := os[0]
		cur = &x
	}
	next := func() {
		oi++
		cur = nil
		if oi < len(os) {
			x := os[oi]
			cur = &x
		}
	}
	for ni, n := range ns {
		if n.elem == nil && st.f.known(tt.LeT(n.hi, n.lo), true) {
			continue
		}
		if n.elem != nil {
			if cur != nil && cur.elem != nil && c.eq(st, cur.elem, n.elem) {
				next()
				continue
			}
			// kept later? an element that is still ahead in the old list
			ahead := false
			for j := oi; j < len(os); j++ {
				if os[j].elem != nil && c.eq(st, os[j].elem, n.elem) && !(j == oi) {
					ahead = true
				}
			}
			if ahead {
				for cur != nil && !(cur.elem != nil && c.eq(st, cur.elem, n.elem)) {
					gaps = append(gaps, gp{*cur, ""})
					next()
				}
				next()
				continue
			}
			where := "middle"
			if ni == len(ns)-1 {
				where = "back"
			} else if ni == 0 {
				where = "front"
			}
			adds = append(adds, ad{n.elem, where})
			continue
		}
		// a single listed element taken by its index counts as a segment
		for cur != nil && (cur.base != n.base || st.f.known(tt.LeT(cur.hi, n.lo), true)) {
			gaps = append(gaps, gp{*cur, ""})
			next()
		}
		if cur == nil || !st.f.known(tt.LeT(cur.lo, n.lo), true) || !st.f.known(tt.LeT(n.hi, cur.hi), true) {
			unknown()
			return
		}
		if !st.f.known(tt.LeT(n.lo, cur.lo), true) {
			w := ""
			if oi == 0 && st.f.norm(cur.lo) == st.f.norm(os[0].lo) {
				w = "front"
			}
			gaps = append(gaps, gp{seg{base: cur.base, lo: cur.lo, hi: n.lo}, w})
		}
		cur.lo = n.hi
		if st.f.known(tt.LeT(cur.hi, cur.lo), true) {
			next()
		}
	}
	for cur != nil {
		w := ""
		if oi == len(os)-1 {
			w = "back"
		}
		if oi == 0 && cur.base != nil && st.f.norm(cur.lo) == st.f.norm(os[0].lo) {
			w = "front"
		}
		gaps = append(gaps, gp{*cur, w})
		next()
	}
	for _, g := range gaps {
		if g.where == "" {
			g.where = "other"
		}
		if g.s.elem != nil {
			c.gap(st, mon, g.s.elem, g.where, ev)
		} else {
			c.gapSeg(st, mon, g.s.base, g.s.lo, g.s.hi, g.where, ev)
		}
	}
	for _, a := range adds {
		c.addElem(st, mon, a.k, a.where, ev)
	}
}

// blank: a place of the list gets another value; this is of no concern once the place is cut off
func (c *cacheRun) blank(st *State, mon *cacheMon, ia *Term, ev *Ev) {
	tt := c.e.tt
	S, i := rootIndex(tt, st.f.norm(ia.A[0]), ia.A[1])
	S, i = st.f.norm(S), st.f.norm(i)
	end := st.f.norm(tt.AddN(i, 1))
	for j, p := range mon.pend {
		if p.kind == "blank" && p.S == S {
			switch {
			case c.eq(st, p.hi, i):
				p.hi = end
			case c.eq(st, p.lo, end):
				p.lo = i
			case st.f.known(tt.LeT(p.lo, i), true) && st.f.known(tt.LtT(i, p.hi), true):
			default:
				continue
			}
			mon.pend = append(rm(mon.pend, j), p)
			return
		}
	}
	mon.pend = append(mon.pend, pitem{kind: "blank", S: S, lo: i, hi: end, pos: ev.Pos})
}

func rootIndex(tt *TermTab, S, i *Term) (*Term, *Term) {
	for S.Op == OSub {
		i = tt.Add(S.A[1], i)
		S = S.A[0]
	}
	return S, i
}

// shifted: elements of the list were moved by a copy within it
func (c *cacheRun) shifted(st *State, S *Term) bool {
	for ev := st.tr; ev != nil; ev = ev.Prev {
		if ev.Kind == "copy" && seqBase(st.f.norm(ev.A[0])) == S {
			return true
		}
	}
	return false
}

// unblank: overwritten places that are no more part of the list are forgotten
func (c *cacheRun) unblank(st *State, mon *cacheMon, nw *Term) {
	tt := c.e.tt
	var keep []pitem
	for _, p := range mon.pend {
		if p.kind == "blank" {
			if nw.Op == OSub && st.f.norm(nw.A[0]) == p.S && (st.f.known(tt.LeT(p.hi, nw.A[1]), true) || st.f.known(tt.LeT(nw.A[2], p.lo), true)) {
				continue
			}
			if c.shifted(st, p.S) && seqBase(nw) == p.S && st.f.known(tt.LeT(tt.Len(nw), p.lo), true) {
				continue // elements were moved to places before it
			}
			if nw != p.S && !(nw.Op == OSub && st.f.norm(nw.A[0]) == p.S) {
				p = pitem{kind: "unknown", msg: c.describe(p), pos: p.pos}
			}
		}
		keep = append(keep, p)
	}
	mon.pend = keep
}

// compacted: the new list is the first n places of the old one, to which a loop moved the elements that have an entry, or
// all but those of one key
func (c *cacheRun) compacted(st *State, mon *cacheMon, nw *Term) bool {
	tt := c.e.tt
	if nw.Op != OSub {
		return false
	}
	S, n := st.f.norm(nw.A[0]), nw.A[2]
	at := -1
	for j, p := range mon.pend {
		if p.kind == "blank" && p.S == S && c.eq(st, p.lo, tt.Int(0)) && c.eq(st, p.hi, n) && c.eq(st, nw.A[1], p.lo) {
			at = j
		}
	}
	info := st.loopOf[n]
	if at < 0 || info == nil || info.Init[n] == nil || !c.eq(st, info.Init[n], tt.Int(0)) {
		return false
	}
	k, ok := c.filtering(st, info, S, func(b *State, i int, x, idx *Term) (bool, bool) {
		stores, same := 0, true
		for ev := b.tr; ev != nil && ev != info.Hdr.tr; ev = ev.Prev {
			switch ev.Kind {
			case "store":
				if ia := innermostIndex(ev.A[0]); ia != nil && c.ofList(b, ia.A[0]) {
					R, j := rootIndex(tt, b.f.norm(ia.A[0]), ia.A[1])
					stores++
					same = same && b.f.norm(R) == S && c.eq(b, j, n) && c.eq(b, ev.A[1], x)
				}
			case "copy", "loopexit":
				same = false
			}
		}
		moved := c.eq(b, info.Back[n][i], tt.AddN(n, 1))
		kept := stores > 0 || moved // an element that is where it belongs need not be written
		if !kept {
			return false, same && c.eq(b, info.Back[n][i], n)
		}
		return true, same && moved && stores <= 1 && b.f.known(tt.LeT(n, idx), true) && (stores == 1 || c.eq(b, n, idx))
	})
	if !ok {
		return false
	}
	mon.pend = rm(mon.pend, at)
	if k != nil {
		c.withoutKey(st, mon, k, &Ev{Kind: "store", Pos: info.Pos, Fn: info.Fn})
		return true
	}
	var keep []pitem
	for _, p := range mon.pend {
		if !strings.HasPrefix(p.kind, "stale") {
			keep = append(keep, p)
		}
	}
	mon.pend = keep
	return true
}

// withoutKey: the list loses the key, wherever it was
func (c *cacheRun) withoutKey(st *State, mon *cacheMon, k *Term, ev *Ev) {
	found := false
	for i := 0; i < len(mon.pend); i++ {
		if p := mon.pend[i]; (p.kind == "stale" || p.kind == "extra") && c.eq(st, p.k, k) {
			mon.pend = rm(mon.pend, i)
			i--
			found = found || p.kind == "stale"
		}
	}
	if found {
		return
	}
	if h, known := c.has(st, k); !known || h {
		mon.pend = append(mon.pend, pitem{kind: "missing", k: k, where: "other", pos: ev.Pos})
	}
}

// filterLoop: s was built by visiting every element of old and keeping exactly those that have an entry,
// or exactly those that are not the key returned
func (c *cacheRun) filterLoop(st *State, info *LoopInfo, s, old *Term) (*Term, bool) {
	tt := c.e.tt
	if init := info.Init[s]; init == nil || !(init.Op == ONil || st.f.known(tt.LeT(tt.Len(init), tt.Int(0)), true)) {
		return nil, false
	}
	return c.filtering(st, info, old, func(b *State, i int, x, _ *Term) (bool, bool) {
		v := info.Back[s][i]
		ps := tt.parts(v)
		if v == b.f.norm(s) {
			return false, true
		}
		return true, len(ps) == 2 && ps[0] == b.f.norm(s) && ps[1].Op == OElem && c.eq(b, ps[1].A[0], x)
	})
}

// filtering: the loop visits every element of old; kept tells whether an iteration keeps its element x, and whether it does
// nothing else
func (c *cacheRun) filtering(st *State, info *LoopInfo, old *Term, kept func(b *State, i int, x, idx *Term) (bool, bool)) (*Term, bool) {
	tt := c.e.tt
	if len(info.Backs) == 0 || c.e.mapVer(st, c.table(st)) != c.e.mapVer(info.Hdr, c.table(info.Hdr)) {
		return nil, false
	}
	var syms []*Term
	for t := range info.Init {
		if intLike(t) {
			syms = append(syms, t)
		}
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].ID < syms[j].ID })
	for _, t := range syms {
		for _, d := range []int64{0, 1} {
			idx := tt.AddN(t, d)
			if !c.e.exhausted(st, Forall{S: old, Idx: idx, Info: info}) {
				continue
			}
			keep := make([]bool, len(info.Backs))
			shape := true
			for i, b := range info.Backs {
				x := c.e.index(b, old, idx, types.Typ[types.String])
				k, ok := kept(b, i, x, idx)
				keep[i] = k
				shape = shape && ok
			}
			if !shape {
				continue
			}
			if c.filterBy(info, keep, func(b *State) (bool, bool) {
				x := c.e.index(b, old, idx, types.Typ[types.String])
				for ev := b.tr; ev != nil && ev != info.Hdr.tr; ev = ev.Prev {
					if (ev.Kind == "mapdel" || ev.Kind == "mapput") && ev.A[0] == c.table(b) && !c.eq(b, ev.A[1], x) {
						return false, false
					}
				}
				return b.f.eval(c.e.hasTerm(b, c.e.mapVer(b, c.table(b)), x))
			}) {
				return nil, true
			}
			// the key tested in the loop
			x0 := c.e.index(info.Hdr, old, idx, types.Typ[types.String])
			for _, b := range info.Backs {
				for k := range b.f.truth {
					if k.Op != OEq || k.A[0] != x0 && k.A[1] != x0 {
						continue
					}
					key := k.A[0]
					if key == x0 {
						key = k.A[1]
					}
					if !isStringType(key.T) || dependsOnBody(key, info) {
						continue
					}
					if c.filterBy(info, keep, func(b *State) (bool, bool) {
						v, known := b.f.eval(tt.Eq(b.f.norm(x0), b.f.norm(key)))
						return !v, known
					}) {
						return key, true
					}
				}
			}
		}
	}
	return nil, false
}

func (c *cacheRun) filterBy(info *LoopInfo, keep []bool, want func(b *State) (bool, bool)) bool {
	for i, b := range info.Backs {
		v, known := want(b)
		if !known || v != keep[i] {
			return false
		}
	}
	return true
}

// prune: a search that visited the whole list without finding the key contradicts the entry of the key
func (c *cacheRun) prune(st *State) bool {
	if c.recv == nil {
		return false
	}
	mon := c.mon(st)
	for _, fa := range st.foralls {
		if fa.Val || fa.Atom.Op != OEq {
			continue
		}
		var k *Term
		for i := 0; i < 2; i++ {
			if a := fa.Atom.A[i]; a.Op == OIndex && a.A[0] == fa.S && a.A[1] == fa.Idx {
				k = fa.Atom.A[1-i]
			}
		}
		if k == nil || contentEq(c.list(st)) != fa.S {
			continue
		}
		listed, missing := false, false
		for _, p := range mon.pend {
			switch p.kind {
			case "stale":
				listed = listed || c.eq(st, p.k, k)
			case "missing":
				if v, kn := c.same(st, p.k, k); !kn || v {
					missing = true
				}
			case "missingseg", "blank", "unknown":
				missing = true
			}
		}
		if listed {
			return true
		}
		if h, known := c.has(st, k); known && h && !missing {
			return true
		}
	}
	return false
}

// ---- loops ----

type cacheHyp struct {
	pend []pitem
	info *LoopInfo
}

func substItem(tt *TermTab, p pitem, m map[*Term]*Term) pitem {
	n := p
	for _, x := range []**Term{&n.k, &n.S, &n.lo, &n.hi} {
		if *x != nil {
			*x = substAll(tt, *x, m)
		}
	}
	return n
}

func (c *cacheRun) loopHeader(h *State, info *LoopInfo, hyp interface{}) {
	if hyp == nil {
		return
	}
	hy := hyp.(*cacheHyp)
	f := map[*Term]*Term{}
	for s, key := range hy.info.SymKey {
		if n, ok := info.KeySym[key]; ok && n != s {
			f[s] = n
		}
	}
	mon := c.mon(h)
	mon.pend = nil
	for _, p := range hy.pend {
		mon.pend = append(mon.pend, substItem(c.e.tt, p, f))
	}
}

// unmatched compares the discrepancies at a back edge with those the header allows
func (c *cacheRun) unmatched(info *LoopInfo, i int) (extra, missing []pitem) {
	b := info.Backs[i]
	f := map[*Term]*Term{}
	for s, vs := range info.Back {
		f[s] = vs[i]
	}
	some := false
	var exp []pitem
	for _, p := range c.mon(info.Hdr).pend {
		q := substItem(c.e.tt, p, f)
		if !c.emptyItem(b, q) {
			exp = append(exp, q)
		}
		if p.kind == "stalesome" {
			some = true
		}
	}
	used := make([]bool, len(exp))
next:
	for _, p := range c.mon(b).pend {
		if c.emptyItem(b, p) {
			continue
		}
		for j, q := range exp {
			if used[j] || p.kind != q.kind {
				continue
			}
			if p.k != nil && !c.eq(b, p.k, q.k) {
				continue
			}
			if p.kind == "stalesome" && (!c.eq(b, p.lo, q.lo) || !c.eq(b, p.hi, q.hi)) {
				continue
			}
			if p.S != nil && (b.f.norm(p.S) != b.f.norm(q.S) || !c.eq(b, p.lo, q.lo) || !c.eq(b, p.hi, q.hi)) {
				continue
			}
			used[j] = true
			continue next
		}
		if some && (p.kind == "stale" || p.kind == "staleseg" || p.kind == "stalesome") {
			continue // counted by the number of removals
		}
		extra = append(extra, p)
	}
	for j, q := range exp {
		if q.kind == "stalesome" && c.eq(b, q.hi, b.ghost["removed"]) {
			continue
		}
		if !used[j] {
			missing = append(missing, q)
		}
	}
	return
}

func withoutBlanks(all [][]pitem) [][]pitem {
	var out [][]pitem
	for _, x := range all {
		var keep []pitem
		for _, p := range x {
			if p.kind != "blank" {
				keep = append(keep, p)
			}
		}
		out = append(out, keep)
	}
	return out
}

func (c *cacheRun) widen(info *LoopInfo, hyp interface{}) (interface{}, bool) {
	tt := c.e.tt
	H := c.mon(info.Hdr).pend
	var allX [][]pitem
	bad := false
	miss := false
	for i := range info.Backs {
		x, mi := c.unmatched(info, i)
		allX = append(allX, x)
		if len(x) > 0 || len(mi) > 0 {
			bad = true
		}
		if len(mi) > 0 {
			miss = true
		}
	}
	if !bad {
		return nil, false
	}
	// iterations overwrite the places of the list one after the other
	for _, p := range H {
		if p.kind == "blank" {
			allX = withoutBlanks(allX)
		}
	}
	for _, x := range allX {
		for _, p := range x {
			if p.kind != "blank" || dependsOnBody(p.S, info) {
				continue
			}
			for t, k := range toLin(p.lo).m {
				if _, ok := info.Init[t]; ok && k == 1 {
					return &cacheHyp{append(append([]pitem(nil), H...), pitem{kind: "blank", S: p.S, lo: substTerm(tt, p.lo, t, info.Init[t]), hi: p.lo, pos: p.pos}), info}, true
				}
			}
		}
	}
	// every iteration removes the next element of a fixed sequence
	var S, idx *Term
	uniform := true
	for i, x := range allX {
		if len(x) != 1 || x[0].kind != "stale" {
			uniform = false
			break
		}
		s, j := asIndex(info.Backs[i].f.norm(x[0].k))
		if s == nil || dependsOnBody(s, info) || (S != nil && (s != S || j != idx)) {
			uniform = false
			break
		}
		S, idx = s, j
	}
	if uniform && S != nil {
		if sym, step := info.induction(tt, idx); sym != nil && (step == 1 || step == -1) {
			first := substTerm(tt, idx, sym, info.Init[sym])
			ent := info.Entry
			var pend []pitem
			replaced := false
			for _, p := range H {
				if p.kind == "missingseg" && p.S == S && !replaced {
					if step == 1 && c.eq(ent, first, p.lo) {
						p.lo = idx
						replaced = true
					} else if step == -1 && c.eq(ent, first, tt.AddN(p.hi, -1)) {
						p.hi = tt.AddN(idx, 1)
						replaced = true
					}
				}
				pend = append(pend, p)
			}
			if !replaced && !miss {
				it := pitem{kind: "staleseg", S: S, lo: first, hi: idx}
				if step == -1 {
					it.lo, it.hi = tt.AddN(idx, 1), tt.AddN(first, 1)
				}
				pend = append(pend, it)
				replaced = true
			}
			if replaced {
				return &cacheHyp{pend, info}, true
			}
		}
	}
	// some iterations remove elements
	ok := !miss
	for _, x := range allX {
		for _, p := range x {
			if p.kind != "stale" && p.kind != "stalesome" && p.kind != "staleseg" {
				ok = false
			}
		}
	}
	if ok {
		if g := info.KeySym["ghost:removed"]; g != nil {
			return &cacheHyp{append(append([]pitem(nil), H...), pitem{kind: "stalesome", lo: info.Init[g], hi: g}), info}, true
		}
	}
	return nil, false
}
