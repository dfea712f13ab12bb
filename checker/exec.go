package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Engine computes, for one entry point, the disjunctive abstract states that reach each exit.
// In-package callees are analysed in the context of the caller; loops are analysed once from a header state in which
// everything the body can change has been forgotten (a post fixpoint), plus relations shown to be inductive.
type Engine struct {
	m     *Module
	tt    *TermTab
	cfg   Config
	stack []*ssa.Function
	nests map[*ssa.Function]*Nest
	mute  int
	paths int
	uniq  int64
	// statistics
	Funcs    map[*ssa.Function]bool
	NPaths   int
	NInstr   int
	NLoops   int
	Overflow bool
	Unsup    map[string]bool
	anySep   bool                  // texts may be joined with any text between them
	counts   map[*ssa.Next][]*Term // quantities that grow by at most one per key of a loop over a table
}

type Config struct {
	Opaque     func(f *ssa.Function) bool // do not descend: result is a pure function of the arguments
	OpaqueImp  func(f *ssa.Function) bool // do not descend: result unknown
	Concurrent bool
	LogOn      bool
	MaxPaths   int
	NilRecv    bool                   // the receiver can be nil
	Hook       func(s *State, ev *Ev) // called for each event, also in muted passes (must only change s)
	Record     func(s *State, ev *Ev) // called for each event in the final pass only
	Prune      func(s *State) bool    // true: this disjunct is impossible
	// KeepElems: elements of this list keep their terms when others are overwritten; the hook keeps account of them
	KeepElems func(s *State, l *Term) bool
	// SplitMap: decide the presence of the key before a change of the map
	SplitMap func(s *State, m *Term) bool
	// LoopHeader adapts the monitor of the header state to the hypothesis of the current pass
	LoopHeader func(h *State, info *LoopInfo, hyp interface{})
	// Widen compares the monitors of header and back edges; it returns a weaker hypothesis when they differ
	Widen func(info *LoopInfo, hyp interface{}) (interface{}, bool)
	// LoopDone is called after the final pass
	LoopDone   func(info *LoopInfo)
	Derefs     bool            // also report the dereferences shown to be safe
	Mutable    map[string]bool // fields that change after publication (concurrent mode)
	OnLoopExit func(s *State, info *LoopInfo)
}

type Path struct {
	env    map[ssa.Value]*Term
	defers []deferred
	st     *State
}

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
}

func (p *Path) clone() *Path {
	n := &Path{env: make(map[ssa.Value]*Term, len(p.env)+4), st: p.st.clone()}
	for k, v := range p.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), p.defers...)
	return n
}

type Frame struct {
	fn   *ssa.Function
	nest *Nest
	free map[ssa.Value]*Term
}

const (
	xReturn = iota
	xEdge
	xBack
	xPanic
)

type exit struct {
	kind     int
	from, to *ssa.BasicBlock
	p        *Path
	ret      *Term
	pos      token.Pos
}

// Outcome is one way an entry point can end.
type Outcome struct {
	St    *State
	Ret   *Term // tuple of results
	Panic bool
	Pos   token.Pos
}

func newEngine(m *Module, tt *TermTab, cfg Config) *Engine {
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 60000
	}
	return &Engine{m: m, tt: tt, cfg: cfg, nests: map[*ssa.Function]*Nest{}, Funcs: map[*ssa.Function]bool{}, Unsup: map[string]bool{}, counts: map[*ssa.Next][]*Term{}}
}

type tooManyPaths struct{}

// Run analyses fn from unknown arguments. pre may constrain the initial state.
func (e *Engine) Run(fn *ssa.Function, pre func(s *State, args []*Term)) (outs []Outcome) {
	s := newState(e)
	var args []*Term
	for i, prm := range fn.Params {
		t := e.tt.mk(Term{Op: OSym, S: "param:" + prm.Name(), N: int64(i), T: prm.Type()})
		args = append(args, t)
		if i == 0 && fn.Signature.Recv() != nil && !e.cfg.NilRecv {
			s.f.assume(e.tt.Eq(t, e.tt.Nil()), false)
		}
	}
	if pre != nil {
		pre(s, args)
	}
	if s.f.bad {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooManyPaths); ok {
				e.Overflow = true
				outs = nil
				return
			}
			panic(r)
		}
	}()
	return e.call(fn, args, nil, s)
}

func (e *Engine) call(fn *ssa.Function, args []*Term, free map[ssa.Value]*Term, st *State) []Outcome {
	e.stack = append(e.stack, fn)
	e.Funcs[fn] = true
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{fn: fn, nest: e.nest(fn), free: free}
	p := &Path{env: map[ssa.Value]*Term{}, st: st}
	for i, prm := range fn.Params {
		p.env[prm] = args[i]
	}
	exits := e.run(fr, p, fn.Blocks[0], nil, nil)
	var outs []Outcome
	for _, x := range exits {
		switch x.kind {
		case xReturn:
			outs = append(outs, Outcome{St: x.p.st, Ret: x.ret, Pos: x.pos})
		case xPanic:
			outs = append(outs, Outcome{St: x.p.st, Panic: true, Pos: x.pos})
		}
	}
	return outs
}

func (e *Engine) recording() bool { return e.mute == 0 }

func (e *Engine) event(s *State, ev *Ev) {
	if len(e.stack) > 0 && ev.Fn == nil {
		ev.Fn = e.stack[len(e.stack)-1]
	}
	ev.Prev = s.tr
	s.tr = ev
	if e.cfg.Hook != nil {
		e.cfg.Hook(s, ev)
	}
	if e.recording() && e.cfg.Record != nil {
		e.cfg.Record(s, ev)
	}
}

func (e *Engine) prune(s *State) bool {
	if s.f.bad {
		return true
	}
	if e.cfg.Prune != nil && e.cfg.Prune(s) {
		return true
	}
	return false
}

// run continues path p at block b (entered from pred) inside loop L.
func (e *Engine) run(fr *Frame, p *Path, b, pred *ssa.BasicBlock, L *Loop) []exit {
	if L != nil && b == L.Header {
		return []exit{{kind: xBack, from: pred, to: b, p: p}}
	}
	if L != nil && !L.Blocks[b] {
		return []exit{{kind: xEdge, from: pred, to: b, p: p}}
	}
	if LL := fr.nest.header[b]; LL != nil {
		var out []exit
		xs, ok := e.unroll(fr, p, LL, pred, 0)
		if !ok {
			xs = e.runLoop(fr, p, LL, pred)
		}
		for _, x := range xs {
			if x.kind == xEdge {
				out = append(out, e.run(fr, x.p, x.to, x.from, L)...)
			} else {
				out = append(out, x)
			}
		}
		return out
	}
	e.evalPhis(p, b, pred)
	return e.execFrom(fr, p, b, nPhis(b), L)
}

// unroll runs a loop with a constant number of iterations one by one
func (e *Engine) unroll(fr *Frame, p *Path, L *Loop, pred *ssa.BasicBlock, depth int) ([]exit, bool) {
	h := L.Header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || depth > 16 {
		return nil, false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h {
		return nil, false
	}
	q := p.clone()
	e.evalPhis(q, h, pred)
	n := nPhis(h)
	for _, in := range h.Instrs[n : len(h.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.BinOp:
			if x == cmp {
				continue
			}
			q.env[x] = q.st.f.norm(e.binop(x.Op, e.val(q, x.X), e.val(q, x.Y), x.X.Type(), x.Type()))
		case *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil, false
			}
			if _, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
				return nil, false
			}
			q.env[x] = q.st.f.norm(e.tt.Len(q.st.f.norm(e.val(q, x.Call.Args[0]))))
		default:
			return nil, false
		}
	}
	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		if c, ok := q.st.f.norm(e.val(q, v)).intVal(); !ok || c > 16 || c < -1 {
			return nil, false
		}
	}
	p = p.clone()
	e.evalPhis(p, h, pred)
	var out []exit
	for _, x := range e.execFrom(fr, p, h, n, L) {
		if x.kind != xBack {
			out = append(out, x)
			continue
		}
		xs, ok := e.unroll(fr, x.p, L, x.from, depth+1)
		if !ok {
			xs = e.runLoop(fr, x.p, L, x.from)
		}
		out = append(out, xs...)
	}
	return out, true
}

func nPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	return n
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == pred {
			return i
		}
	}
	return -1
}

func (e *Engine) evalPhis(p *Path, b, pred *ssa.BasicBlock) {
	n := nPhis(b)
	if n == 0 {
		return
	}
	i := predIndex(b, pred)
	vals := make([]*Term, n)
	for k := 0; k < n; k++ {
		phi := b.Instrs[k].(*ssa.Phi)
		vals[k] = e.val(p, phi.Edges[i])
	}
	for k := 0; k < n; k++ {
		p.env[b.Instrs[k].(*ssa.Phi)] = vals[k]
	}
}

// execFrom runs the instructions of b from index idx on.
func (e *Engine) execFrom(fr *Frame, p *Path, b *ssa.BasicBlock, idx int, L *Loop) []exit {
	for ; idx < len(b.Instrs); idx++ {
		in := b.Instrs[idx]
		e.NInstr++
		switch x := in.(type) {
		case *ssa.If:
			c := p.st.f.norm(e.val(p, x.Cond))
			if v, k := p.st.f.eval(c); k {
				t := b.Succs[0]
				if !v {
					t = b.Succs[1]
				}
				return e.run(fr, p, t, b, L)
			}
			var out []exit
			q := p.clone()
			if p.st.f.assume(c, true) && !e.prune(p.st) {
				out = append(out, e.run(fr, p, b.Succs[0], b, L)...)
			}
			if q.st.f.assume(c, false) && !e.prune(q.st) {
				out = append(out, e.run(fr, q, b.Succs[1], b, L)...)
			}
			return out
		case *ssa.Jump:
			return e.run(fr, p, b.Succs[0], b, L)
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, p.st.f.norm(e.val(p, r)))
			}
			e.paths++
			e.NPaths++
			if e.paths > e.cfg.MaxPaths {
				panic(tooManyPaths{})
			}
			return []exit{{kind: xReturn, p: p, ret: e.tt.Tuple(rs...), pos: x.Pos()}}
		case *ssa.Panic:
			e.event(p.st, &Ev{Kind: "panic", Pos: x.Pos()})
			return []exit{{kind: xPanic, p: p, pos: x.Pos()}}
		case *ssa.RunDefers:
			paths := []*Path{p}
			for len(paths) > 0 && anyDefers(paths) {
				var next []*Path
				for _, q := range paths {
					if len(q.defers) == 0 {
						next = append(next, q)
						continue
					}
					d := q.defers[len(q.defers)-1]
					q.defers = q.defers[:len(q.defers)-1]
					next = append(next, e.runDeferred(fr, q, d)...)
				}
				paths = next
			}
			if len(paths) == 1 && paths[0] == p {
				continue
			}
			var out []exit
			for _, q := range paths {
				out = append(out, e.execFrom(fr, q, b, idx+1, L)...)
			}
			return out
		default:
			ps := e.step(fr, p, in)
			if len(ps) == 1 && ps[0] == p {
				continue
			}
			var out []exit
			for _, q := range ps {
				if e.prune(q.st) {
					continue
				}
				out = append(out, e.execFrom(fr, q, b, idx+1, L)...)
			}
			return out
		}
	}
	return nil
}

func anyDefers(ps []*Path) bool {
	for _, p := range ps {
		if len(p.defers) > 0 {
			return true
		}
	}
	return false
}

func (e *Engine) val(p *Path, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.tt.Zero(x.Type())
		}
		return e.tt.Const(x.Value, x.Type())
	case *ssa.Global:
		return e.tt.mk(Term{Op: OGlobal, S: x.Name(), T: elemType(x.Type())})
	case *ssa.Function:
		return e.tt.mk(Term{Op: OFunc, S: x.String(), Ref: x, T: x.Type()})
	case *ssa.Builtin:
		return e.tt.mk(Term{Op: OFunc, S: "builtin." + x.Name()})
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	t := e.tt.fresh(OSym, "undef:"+v.Name(), v.Type())
	p.env[v] = t
	return t
}

func (e *Engine) newSym(name string, typ types.Type) *Term { return e.tt.fresh(OSym, name, typ) }

// tupleSym makes unknown results of the given type
func (e *Engine) tupleSym(name string, typ types.Type) *Term {
	if tp, ok := typ.(*types.Tuple); ok {
		var ts []*Term
		for i := 0; i < tp.Len(); i++ {
			ts = append(ts, e.newSym(fmt.Sprintf("%s#%d", name, i), tp.At(i).Type()))
		}
		return e.tt.Tuple(ts...)
	}
	return e.newSym(name, typ)
}

func (e *Engine) pureRes(name string, typ types.Type, args ...*Term) *Term {
	t := e.tt.Pure(name, typ, args...)
	if tp, ok := typ.(*types.Tuple); ok {
		var ts []*Term
		for i := 0; i < tp.Len(); i++ {
			ts = append(ts, e.tt.Extract(t, i, tp.At(i).Type()))
		}
		return e.tt.Tuple(ts...)
	}
	return t
}

// step executes one non-control instruction; it may split the state.
func (e *Engine) step(fr *Frame, p *Path, in ssa.Instruction) []*Path {
	tt := e.tt
	st := p.st
	one := []*Path{p}
	nv := func(v ssa.Value) *Term { return st.f.norm(e.valF(fr, p, v)) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := tt.fresh(OAlloc, x.Comment, elemType(x.Type()))
		p.env[x] = t
	case *ssa.FieldAddr:
		b := nv(x.X)
		stt := elemType(x.X.Type())
		f := stt.Underlying().(*types.Struct).Field(x.Field)
		e.checkNil(st, b, x.Pos(), "field of a nil pointer")
		p.env[x] = tt.mk(Term{Op: OFieldAddr, A: []*Term{b}, N: int64(x.Field), S: f.Name(), T: f.Type(), Ref: stt})
	case *ssa.Field:
		b := nv(x.X)
		p.env[x] = tt.Field(b, x.Field, x.Type())
	case *ssa.IndexAddr:
		b := nv(x.X)
		i := nv(x.Index)
		e.checkBounds(st, b, i, x.X.Type(), x.Pos())
		// address inside a slice of a slice: use the base
		for b.Op == OSub {
			i = tt.Add(b.A[1], i)
			b = b.A[0]
		}
		p.env[x] = tt.IndexAddr(b, i, elemType(x.Type()))
	case *ssa.Index:
		b := nv(x.X)
		i := nv(x.Index)
		if arr, ok := x.X.Type().Underlying().(*types.Array); !ok {
			e.checkBounds(st, b, i, x.X.Type(), x.Pos())
		} else if n, ok := i.intVal(); !ok || n < 0 || n >= arr.Len() {
			in := st.f.known(tt.LeT(tt.Int(0), i), true) && st.f.known(tt.LtT(i, tt.Int(arr.Len())), true)
			e.event(st, &Ev{Kind: "index", A: []*Term{b, i}, Pos: x.Pos(), Mode: b2i(in)})
		}
		p.env[x] = e.index(st, b, i, x.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := nv(x.X)
			e.checkNil(st, a, x.Pos(), "dereference of a nil pointer")
			v := e.load(st, a, x.Type())
			p.env[x] = v
			e.event(st, &Ev{Kind: "load", A: []*Term{a, v}, Pos: x.Pos()})
		case token.NOT:
			p.env[x] = tt.Not(nv(x.X))
		case token.SUB:
			v := nv(x.X)
			if isIntType(x.Type()) {
				p.env[x] = tt.Neg(v)
			} else {
				p.env[x] = tt.mk(Term{Op: OUn, S: "-", A: []*Term{v}, T: x.Type()})
			}
		default:
			p.env[x] = tt.mk(Term{Op: OUn, S: x.Op.String(), A: []*Term{nv(x.X)}, T: x.Type()})
		}
	case *ssa.Store:
		a := nv(x.Addr)
		v := nv(x.Val)
		e.checkNil(st, a, x.Pos(), "store through a nil pointer")
		old := e.load(st, a, x.Val.Type())
		e.store(st, a, v)
		e.event(st, &Ev{Kind: "store", A: []*Term{a, v, old}, Pos: x.Pos()})
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			y := nv(x.Y)
			n, isc := y.intVal()
			e.event(st, &Ev{Kind: "div", A: []*Term{y}, Pos: x.Pos(), Mode: b2i(isc && n != 0 || st.f.known(tt.EqInt(y, tt.Int(0)), false))})
		}
		if it, ok := x.X.Type().Underlying().(*types.Interface); ok && (x.Op == token.EQL || x.Op == token.NEQ) && it.NumMethods() == 0 && types.Identical(x.X.Type(), x.Y.Type()) {
			a, b := nv(x.X), nv(x.Y)
			e.event(st, &Ev{Kind: "compare", A: []*Term{a, b}, Pos: x.Pos(), Mode: b2i(st.f.canCompare(a) || st.f.canCompare(b))})
		}
		p.env[x] = e.binop(x.Op, nv(x.X), nv(x.Y), x.X.Type(), x.Type())
	case *ssa.Convert:
		p.env[x] = e.convert(nv(x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		p.env[x] = nv(x.X)
	case *ssa.ChangeInterface:
		p.env[x] = nv(x.X)
	case *ssa.MakeInterface:
		p.env[x] = tt.mk(Term{Op: OIface, A: []*Term{nv(x.X)}, T: x.X.Type()})
	case *ssa.MakeClosure:
		var as []*Term
		for _, b := range x.Bindings {
			as = append(as, nv(b))
		}
		p.env[x] = tt.mk(Term{Op: OClosure, S: x.Fn.String(), A: as, Ref: x.Fn.(*ssa.Function)})
	case *ssa.MakeMap:
		m := tt.fresh(OAlloc, "makemap", x.Type())
		p.env[x] = m
		st.maps[m] = tt.mk(Term{Op: OMapEmpty, A: []*Term{m}})
	case *ssa.MakeSlice:
		n := nv(x.Len)
		neg := !st.f.known(tt.LeT(tt.Int(0), n), true)
		if c := nv(x.Cap); c != n && !neg {
			neg = !st.f.known(tt.LeT(n, c), true)
		}
		e.event(st, &Ev{Kind: "makeneg", A: []*Term{n}, Pos: x.Pos(), Mode: b2i(!neg)})
		if k, ok := n.intVal(); ok && k == 0 {
			p.env[x] = tt.Cat(nil)
		} else {
			s := tt.fresh(OAlloc, "makeslice", x.Type())
			p.env[x] = s
			st.f.assume(tt.EqInt(tt.Len(s), n), true)
		}
	case *ssa.MakeChan:
		p.env[x] = e.newSym("chan", x.Type())
	case *ssa.Slice:
		return e.sliceInstr(fr, p, x)
	case *ssa.Extract:
		p.env[x] = tt.Extract(nv(x.Tuple), x.Index, x.Type())
	case *ssa.TypeAssert:
		return e.typeAssert(fr, p, x)
	case *ssa.Lookup:
		return e.lookup(fr, p, x)
	case *ssa.MapUpdate:
		m, k, v := nv(x.Map), nv(x.Key), nv(x.Value)
		e.checkNilMap(st, m, x.Pos())
		put := func(st *State) {
			ver := e.mapVer(st, m)
			nver := tt.mk(Term{Op: OMapPut, A: []*Term{ver, k, v}})
			st.maps[m] = nver
			e.publish(st, m, v)
			e.event(st, &Ev{Kind: "mapput", A: []*Term{m, k, v, ver, nver}, Pos: x.Pos()})
		}
		if e.cfg.SplitMap != nil && e.cfg.SplitMap(st, m) {
			var out []*Path
			for _, q := range e.splitHas(p, m, k) {
				put(q.st)
				out = append(out, q)
			}
			return out
		}
		put(st)
	case *ssa.Range:
		r := nv(x.X)
		p.env[x] = tt.mk(Term{Op: OPure, S: "range", A: []*Term{r}})
		e.event(st, &Ev{Kind: "maprange", A: []*Term{r}, Pos: x.Pos()})
	case *ssa.Next:
		return e.next(fr, p, x)
	case *ssa.Call:
		return e.doCall(fr, p, x, &x.Call, x.Pos(), x)
	case *ssa.Go:
		// the new goroutine holds none of the locks of the caller
		q := p
		var late *Path
		if !awaits(fr.fn) {
			late = p.clone() // it may not have run yet when the caller goes on
		}
		saved := st.locks
		st.locks = map[*Term]int{}
		e.event(st, &Ev{Kind: "go", Pos: x.Pos()})
		ps := e.doCall(fr, q, nil, &x.Call, x.Pos(), nil)
		for _, r := range ps {
			r.st.locks = cpTi(saved)
		}
		if late != nil {
			ps = append(ps, late)
		}
		return ps
	case *ssa.Defer:
		d := deferred{call: x}
		if x.Call.IsInvoke() {
			d.fn = nv(x.Call.Value)
		} else {
			d.fn = nv(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, nv(a))
		}
		p.defers = append(p.defers, d)
		e.noteDefer(st, d, +1)
	case *ssa.Phi:
	default:
		if v, ok := in.(ssa.Value); ok {
			p.env[v] = e.newSym("unsup", v.Type())
		}
		e.Unsup[fmt.Sprintf("%T", in)] = true
	}
	return one
}

// valF evaluates a value, looking up free variables of closures
func (e *Engine) valF(fr *Frame, p *Path, v ssa.Value) *Term {
	if fv, ok := v.(*ssa.FreeVar); ok {
		if t, ok := fr.free[fv]; ok {
			return t
		}
	}
	return e.val(p, v)
}

// ---- memory ----

func (e *Engine) epochOf(st *State, a *Term) int64 {
	if !e.cfg.Concurrent {
		return st.epoch[rootOf(a)]
	}
	o := st.ownerOfAddr(a, 0)
	if o == nil {
		return st.epoch[rootOf(a)]
	}
	if e.cfg.Mutable != nil {
		key := ownerKey(e, o)
		if !e.cfg.Mutable[key] {
			return 0
		}
	}
	return st.epoch[o.Base]
}

func ownerKey(e *Engine, o *Owner) string {
	switch o.Inner {
	case "entry":
		return fmt.Sprintf("%s.%d", shortType(o.Ent), o.EntF)
	}
	return fmt.Sprintf("%s.%d", shortType(o.Type), o.Field)
}

func (e *Engine) load(st *State, a *Term, typ types.Type) *Term {
	tt := e.tt
	if v, ok := st.mem[a]; ok {
		return st.f.norm(v)
	}
	// whole struct whose fields have been written one by one
	if tt.decomposable(typ) {
		u := typ.Underlying().(*types.Struct)
		any := false
		for k := range st.mem {
			if (k.Op == OFieldAddr || k.Op == OIndexAddr) && k != a {
				for r := k; r.Op == OFieldAddr || r.Op == OIndexAddr; r = r.A[0] {
					if r.A[0] == a {
						any = true
					}
				}
			}
		}
		if any || a.Op != OIndexAddr && a.Op != OFieldAddr {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fa := tt.mk(Term{Op: OFieldAddr, A: []*Term{a}, N: int64(i), S: u.Field(i).Name(), T: u.Field(i).Type(), Ref: typ})
				fs = append(fs, e.load(st, fa, u.Field(i).Type()))
			}
			return tt.mk(Term{Op: OStruct, A: fs, T: typ, S: tt.typeStr(typ)})
		}
	}
	switch a.Op {
	case OFieldAddr:
		// field of a struct held as a whole
		if v, ok := st.mem[a.A[0]]; ok {
			return st.f.norm(tt.Field(st.f.norm(v), int(a.N), typ))
		}
		if a.A[0].Op == OIndexAddr && structTypeOf(a) != nil && tt.decomposable(structTypeOf(a)) {
			if _, isArr := pointedArray(a.A[0].A[0]); !isArr {
				return st.f.norm(tt.Field(e.load1(st, a.A[0], structTypeOf(a)), int(a.N), typ))
			}
		}
	case OIndexAddr:
		if _, isArr := pointedArray(a.A[0]); !isArr {
			return e.index(st, a.A[0], a.A[1], typ)
		}
	case OGlobal:
		if a.S == "LOG" && !e.cfg.LogOn && isBoolType(typ) {
			return tt.Bool(false)
		}
		if g := e.globalRegexp(a.S); g != nil {
			st.f.assume(tt.Eq(g, tt.Nil()), false)
			return g
		}
	}
	r := rootOf(a)
	if r.Op == OAlloc && st.epoch[r] == 0 {
		return tt.Zero(typ)
	}
	v := tt.mk(Term{Op: OLoad, A: []*Term{a}, N: e.epochOf(st, a), T: typ})
	if a.Op == OFieldAddr && structTypeOf(a) != nil && e.m.nonNil(structTypeOf(a), int(a.N)) {
		st.f.assume(tt.Eq(v, tt.Nil()), false)
	}
	return st.f.norm(v)
}

func (e *Engine) load1(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if a.Op == OIndexAddr {
		return e.index(st, a.A[0], a.A[1], typ)
	}
	return e.load(st, a, typ)
}

func pointedArray(t *Term) (*types.Array, bool) {
	if t.Op == OAlloc {
		a, ok := t.T.Underlying().(*types.Array)
		return a, ok
	}
	return nil, false
}

func (e *Engine) store(st *State, a, v *Term) {
	// forget parts of a struct overwritten as a whole
	for k := range st.mem {
		if k != a && (k.Op == OFieldAddr || k.Op == OIndexAddr) {
			for r := k; r.Op == OFieldAddr || r.Op == OIndexAddr; r = r.A[0] {
				if r.A[0] == a {
					delete(st.mem, k)
					break
				}
			}
		}
	}
	// a field of a struct held as a whole
	if a.Op == OFieldAddr {
		if w, ok := st.mem[a.A[0]]; ok {
			delete(st.mem, a.A[0])
			stt := structTypeOf(a)
			if u, ok := stt.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					fa := e.tt.mk(Term{Op: OFieldAddr, A: []*Term{a.A[0]}, N: int64(i), S: u.Field(i).Name(), T: u.Field(i).Type(), Ref: stt})
					st.mem[fa] = e.tt.Field(w, i, u.Field(i).Type())
				}
			}
		}
		// other objects of the same type may be the same object
		same := map[*Term]bool{}
		for k := range st.mem {
			if k != a && k.Op == OFieldAddr && k.N == a.N && structTypeOf(k) != nil && structTypeOf(a) != nil && types.Identical(structTypeOf(k), structTypeOf(a)) && mayAlias(st, k.A[0], a.A[0]) {
				same[k] = true
			}
		}
		for _, k := range sortedTerms(same) {
			st.mem[k] = e.newSym("other:"+a.S, contentType(k))
		}
		for _, x := range sortedTerms(st.alias) {
			if x != a.A[0] && structTypeOf(a) != nil && x.T != nil && types.Identical(x.T, structTypeOf(a)) && mayAlias(st, x, a.A[0]) {
				k := e.tt.mk(Term{Op: OFieldAddr, A: []*Term{x}, N: a.N, S: a.S, T: a.T, Ref: a.Ref})
				st.mem[k] = e.newSym("other:"+a.S, contentType(k))
			}
		}
	}
	if ia := innermostIndex(a); ia != nil {
		e.elemStore(st, ia, a, v)
		if _, isArr := pointedArray(ia.A[0]); !isArr {
			// element of a slice written in place: other elements keep their terms only if the index differs for sure
			for k := range st.mem {
				if k != a {
					if ka := innermostIndex(k); ka != nil && ka.A[0] == ia.A[0] && ka.A[1] != ia.A[1] {
						if v, ok := st.f.eval(e.tt.EqInt(ka.A[1], ia.A[1])); !(ok && !v) {
							delete(st.mem, k)
						}
					}
				}
			}
			if e.cfg.KeepElems == nil || !e.cfg.KeepElems(st, ia.A[0]) {
				e.uniq++
				st.epoch[ia.A[0]] = e.uniq
			}
		}
	}
	st.mem[a] = v
	e.publish(st, a, v)
}

// awaits: the function waits for the goroutines it starts
func awaits(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				return true
			case ssa.CallInstruction:
				if f := x.Common().StaticCallee(); f != nil && (f.String() == "(*sync.WaitGroup).Wait" || f.String() == "(*sync.Cond).Wait") {
					return true
				}
			}
		}
	}
	return false
}

func innermostIndex(a *Term) *Term {
	for a.Op == OFieldAddr {
		a = a.A[0]
	}
	if a.Op == OIndexAddr {
		return a
	}
	return nil
}

func mayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if v, ok := st.f.eval(st.e.tt.Eq(a, b)); ok {
		return v
	}
	// an object allocated here is different from what existed before
	if a.Op == OAlloc || b.Op == OAlloc {
		x, y := a, b
		if y.Op == OAlloc {
			x, y = y, x
		}
		if _, p := st.pub[x]; !p && !st.alias[x] {
			return false
		}
		if y.Op == OSym && strings.HasPrefix(y.S, "param:") {
			return false // given before the object was made
		}
	}
	return true
}

// aliased: the objects made here that v contains or refers to may be met under another name
func (e *Engine) aliased(st *State, v *Term) {
	v.walk(func(t *Term) bool {
		if t.Op == OAlloc && !st.alias[t] {
			st.alias[t] = true
			for k, w := range st.mem {
				if rootOf(k) == t {
					e.aliased(st, w)
				}
			}
		}
		return t.Op != OFieldAddr && t.Op != OIndexAddr && t.Op != OLoad
	})
}

// publish marks the allocations reachable from v as visible to others when they are stored into a visible place
func (e *Engine) publish(st *State, dst, v *Term) {
	if e.isLocal(st, dst) {
		return
	}
	v.walk(func(t *Term) bool {
		if t.Op == OAlloc {
			if _, ok := st.pub[t]; !ok {
				st.pub[t] = e.placeOf(st, dst)
			}
		}
		return t.Op == OIface || t.Op == OStruct || t.Op == OCat || t.Op == OElem || t.Op == OSub || t == v
	})
}

func (e *Engine) isLocal(st *State, dst *Term) bool {
	r := rootOf(dst)
	if r.Op == OAlloc {
		_, p := st.pub[r]
		return !p
	}
	return false
}

// placeOf: the address whose content dst is (for maps and slices), or dst itself
func (e *Engine) placeOf(st *State, dst *Term) *Term {
	if dst.Op == OLoad {
		return dst.A[0]
	}
	if p, ok := st.pub[dst]; ok && p != nil {
		return p
	}
	return dst
}

func (e *Engine) mapVer(st *State, m *Term) *Term {
	if v, ok := st.maps[m]; ok {
		return v
	}
	if m.Op == ONil {
		return e.tt.mk(Term{Op: OMapEmpty, A: []*Term{m}})
	}
	v := e.tt.mk(Term{Op: OMapInit, A: []*Term{m}, N: st.epoch[m]})
	st.maps[m] = v
	return v
}

// ---- sequences ----

func contentEq(t *Term) *Term { // the slice whose elements t repeats
	for t.Op == OPure && t.S == "copyof" {
		t = t.A[0]
	}
	return t
}

func (e *Engine) index(st *State, b, i *Term, typ types.Type) *Term {
	tt := e.tt
	for k := 0; k < 20; k++ {
		if c, ok := st.content[b]; ok {
			b = c
			continue
		}
		if b.Op == OPure && b.S == "copyof" {
			b = b.A[0]
			continue
		}
		if b.Op == OSub {
			i = tt.Add(b.A[1], i)
			b = b.A[0]
			continue
		}
		if b.Op == OElem {
			if n, ok := i.intVal(); ok && n == 0 {
				return b.A[0]
			}
		}
		if b.Op == OCat {
			rest := i
			moved := false
			for _, p := range b.A {
				l := tt.partLen(p)
				if st.f.known(tt.LtT(rest, l), true) {
					if p.Op == OElem {
						return p.A[0]
					}
					b, i, moved = p, rest, true
					break
				}
				if st.f.known(tt.LeT(l, rest), true) {
					rest = tt.Sub(rest, l)
					continue
				}
				break
			}
			if moved {
				continue
			}
		}
		break
	}
	if b.Op == OConst {
		if s, ok := b.strVal(); ok {
			if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(s) {
				return tt.Const(constant.MakeInt64(int64(s[n])), typ)
			}
		}
	}
	e.reFacts(st, b, i)
	r := tt.mk(Term{Op: OIndex, A: []*Term{b, i}, N: st.epoch[b], T: typ})
	e.elemFacts(st, b, r)
	return st.f.norm(r)
}

func (e *Engine) sliceInstr(fr *Frame, p *Path, x *ssa.Slice) []*Path {
	tt := e.tt
	st := p.st
	b := st.f.norm(e.valF(fr, p, x.X))
	lo, hi := tt.Int(0), (*Term)(nil)
	if x.Low != nil {
		lo = st.f.norm(e.valF(fr, p, x.Low))
	}
	if x.High != nil {
		hi = st.f.norm(e.valF(fr, p, x.High))
	}
	if isStringType(x.X.Type()) {
		if hi == nil {
			hi = tt.Len(b)
		}
		e.checkSlice(st, b, lo, hi, x.Pos())
		if s, ok := b.strVal(); ok {
			l, ok1 := lo.intVal()
			h, ok2 := hi.intVal()
			if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(s) {
				p.env[x] = tt.Str(s[l:h])
				return []*Path{p}
			}
		}
		p.env[x] = tt.Pure("substr", x.Type(), b, lo, hi)
		return []*Path{p}
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
			var ps []*Term
			for i := int64(0); i < arr.Len(); i++ {
				a := tt.IndexAddr(b, tt.Int(i), arr.Elem())
				ps = append(ps, tt.Elem(e.load(st, a, arr.Elem())))
			}
			if lo.isConst() && (hi == nil || hi.isConst()) {
				l, _ := lo.intVal()
				h := arr.Len()
				if hi != nil {
					h, _ = hi.intVal()
				}
				if l >= 0 && l <= h && h <= arr.Len() {
					p.env[x] = tt.Cat(ps[l:h])
					return []*Path{p}
				}
			}
		}
		p.env[x] = e.newSym("slice", x.Type())
		return []*Path{p}
	}
	if hi == nil {
		hi = tt.Len(b)
	}
	e.checkSlice(st, b, lo, hi, x.Pos())
	p.env[x] = e.slice(st, b, lo, hi, x.Type())
	return []*Path{p}
}

// slice computes b[lo:hi]
func (e *Engine) slice(st *State, b, lo, hi *Term, typ types.Type) *Term {
	tt := e.tt
	if lo == hi {
		// empty, but on the same memory: appending overwrites it
		return tt.Cat(nil)
	}
	if b.Op == OPure && b.S == "copyof" {
		return tt.Pure("copyof", typ, e.slice(st, b.A[0], lo, hi, typ))
	}
	// elements moved down by copy(b[i:], b[i+1:])
	if sh, ok := st.flags[b]; ok && len(sh) > 6 && sh[:6] == "shift:" {
		i := st.ghost[sh]
		if i != nil && lo.isConst() && hi == st.f.norm(tt.AddN(tt.Len(b), -1)) {
			if n, _ := lo.intVal(); n == 0 {
				return tt.Cat([]*Term{tt.SubSeq(b, tt.Int(0), i), tt.SubSeq(b, tt.AddN(i, 1), tt.Len(b))})
			}
		}
	}
	ps := tt.parts(b)
	if len(ps) == 0 {
		return tt.Cat(nil)
	}
	if len(ps) == 1 && ps[0].Op != OElem {
		return tt.SubSeq(ps[0], lo, hi)
	}
	// walk the parts
	var out []*Term
	pos := tt.Int(0)
	for _, p := range ps {
		l := tt.partLen(p)
		end := st.f.norm(tt.Add(pos, l))
		switch {
		case st.f.known(tt.LeT(end, lo), true) || st.f.known(tt.LeT(hi, pos), true):
		case st.f.known(tt.LeT(lo, pos), true) && st.f.known(tt.LeT(end, hi), true):
			out = append(out, p)
		case p.Op != OElem:
			a, z := tt.Int(0), l
			if st.f.known(tt.LeT(pos, lo), true) && st.f.known(tt.LeT(lo, end), true) {
				a = tt.Sub(lo, pos)
			} else if !st.f.known(tt.LeT(lo, pos), true) {
				return tt.Pure("slice", typ, b, lo, hi)
			}
			if st.f.known(tt.LeT(hi, end), true) && st.f.known(tt.LeT(pos, hi), true) {
				z = tt.Sub(hi, pos)
			} else if !st.f.known(tt.LeT(end, hi), true) {
				return tt.Pure("slice", typ, b, lo, hi)
			}
			out = append(out, tt.SubSeq(p, a, z))
		default:
			return tt.Pure("slice", typ, b, lo, hi)
		}
		pos = end
	}
	return tt.Cat(out)
}

// ---- arithmetic ----

func (e *Engine) binop(op token.Token, a, b *Term, opTyp, resTyp types.Type) *Term {
	tt := e.tt
	switch op {
	case token.ADD:
		if isStringType(opTyp) {
			return tt.Concat(a, b)
		}
		if isIntType(opTyp) {
			return tt.Add(a, b)
		}
	case token.SUB:
		if isIntType(opTyp) {
			return tt.Sub(a, b)
		}
	case token.MUL:
		if isIntType(opTyp) {
			if n, ok := a.intVal(); ok {
				return tt.fromLin(lin{m: map[*Term]int64{}}.add(toLin(b), n))
			}
			if n, ok := b.intVal(); ok {
				return tt.fromLin(lin{m: map[*Term]int64{}}.add(toLin(a), n))
			}
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	case token.EQL:
		return tt.Eq(a, b)
	case token.NEQ:
		return tt.Not(tt.Eq(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		if isIntType(opTyp) {
			if op == token.LSS {
				return tt.LtT(a, b)
			}
			return tt.LeT(a, b)
		}
		return tt.mk(Term{Op: OBin, S: op.String(), A: []*Term{a, b}, T: resTyp})
	case token.QUO, token.REM:
		if n, ok := a.intVal(); ok {
			if k, ok2 := b.intVal(); ok2 && k != 0 && isIntType(opTyp) {
				if op == token.QUO {
					return tt.Int(n / k)
				}
				return tt.Int(n % k)
			}
		}
	case token.AND:
		if n, ok := a.intVal(); ok {
			if k, ok2 := b.intVal(); ok2 && isIntType(opTyp) {
				return tt.Int(n & k)
			}
		}
	}
	return tt.mk(Term{Op: OBin, S: op.String(), A: []*Term{a, b}, T: resTyp})
}

func (e *Engine) convert(v *Term, from, to types.Type) *Term {
	tt := e.tt
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if v.isConst() && (isIntType(to) || isStringType(to) && isStringType(from)) && v.C.Kind() == constant.Int {
		return tt.Const(v.C, to)
	}
	// string <-> []byte keep their content
	if isStringType(to) && v.Op == OPure && v.S == "bytes" {
		return v.A[0]
	}
	if isStringType(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return tt.Pure("bytes", to, v)
			}
		}
	}
	// through a type that holds all the values, or back from it
	if v.Op == OConv && v.A[0].T != nil {
		if from0 := v.A[0].T; isIntType(to) && isIntType(from) && isIntType(from0) && (intBits(to) <= intBits(from) || losslessConv(from0, from)) ||
			isIntType(from0) && isIntType(from) && losslessConv(from0, from) {
			return e.convert(v.A[0], from0, to)
		}
	}
	return tt.mk(Term{Op: OConv, A: []*Term{v}, T: to})
}

func intBits(t types.Type) int {
	b, _ := t.Underlying().(*types.Basic)
	if b == nil {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Float32:
		return 25
	case types.Float64:
		return 54
	}
	return 64
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// losslessConv: each value of from is kept by the conversion to the type
func losslessConv(from, to types.Type) bool {
	if !isIntType(from) {
		return intBits(from) == 25 && intBits(to) == 54
	}
	n, m := intBits(from), intBits(to)
	if isUnsigned(from) == isUnsigned(to) {
		return n <= m
	}
	return isUnsigned(from) && n < m
}

// ---- splitting instructions ----

func (e *Engine) typeAssert(fr *Frame, p *Path, x *ssa.TypeAssert) []*Path {
	tt := e.tt
	st := p.st
	v := st.f.norm(e.valF(fr, p, x.X))
	c := st.f.norm(tt.mk(Term{Op: OTypeIs, A: []*Term{v}, T: x.AssertedType}))
	val := func(s *State) *Term {
		w := s.f.norm(v)
		if isIface(x.AssertedType) {
			return w
		}
		if w.Op == OIface {
			return w.A[0]
		}
		r := tt.mk(Term{Op: OAssert, A: []*Term{w}, T: x.AssertedType})
		if e.cfg.Derefs && isPointer(x.AssertedType) {
			// interfaces that hold a nil pointer are not data
			s.f.assume(tt.Eq(r, tt.Nil()), false)
		}
		return r
	}
	if !x.CommaOk {
		known := st.f.known(c, true)
		e.event(st, &Ev{Kind: "assert", A: []*Term{v, c}, Pos: x.Pos(), Mode: b2i(known)})
		st.f.assume(c, true)
		p.env[x] = val(st)
		return []*Path{p}
	}
	var out []*Path
	q := p.clone()
	if p.st.f.assume(c, true) {
		p.env[x] = tt.Tuple(val(p.st), tt.Bool(true))
		out = append(out, p)
	}
	if q.st.f.assume(c, false) {
		q.env[x] = tt.Tuple(tt.Zero(x.AssertedType), tt.Bool(false))
		out = append(out, q)
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// has decides whether key k is in map version v, through the updates of the version
func (e *Engine) hasTerm(st *State, ver, k *Term) *Term {
	tt := e.tt
	for {
		switch ver.Op {
		case OMapEmpty:
			return tt.Bool(false)
		case OMapPut, OMapDel:
			eq, known := st.f.eval(tt.Eq(ver.A[1], k))
			if known && eq {
				return tt.Bool(ver.Op == OMapPut)
			}
			if known && !eq {
				ver = ver.A[0]
				continue
			}
		}
		return st.f.norm(tt.mk(Term{Op: OHas, A: []*Term{ver, k}}))
	}
}

// splitHas distinguishes the states with and without the key
func (e *Engine) splitHas(p *Path, m, k *Term) []*Path {
	c := e.hasTerm(p.st, e.mapVer(p.st, m), k)
	if _, known := p.st.f.eval(c); known {
		return []*Path{p}
	}
	var out []*Path
	q := p.clone()
	if p.st.f.assume(c, true) && !e.prune(p.st) {
		out = append(out, p)
	}
	if q.st.f.assume(c, false) && !e.prune(q.st) {
		out = append(out, q)
	}
	return out
}

func (e *Engine) lookupTerm(st *State, ver, k *Term, typ types.Type) *Term {
	tt := e.tt
	for {
		switch ver.Op {
		case OMapEmpty:
			return tt.Zero(typ)
		case OMapPut, OMapDel:
			eq, known := st.f.eval(tt.Eq(ver.A[1], k))
			if known && eq {
				if ver.Op == OMapPut {
					return ver.A[2]
				}
				return tt.Zero(typ)
			}
			if known && !eq {
				ver = ver.A[0]
				continue
			}
		}
		return st.f.norm(tt.mk(Term{Op: OLookup, A: []*Term{ver, k}, T: typ}))
	}
}

func (e *Engine) lookup(fr *Frame, p *Path, x *ssa.Lookup) []*Path {
	tt := e.tt
	st := p.st
	m := st.f.norm(e.valF(fr, p, x.X))
	k := st.f.norm(e.valF(fr, p, x.Index))
	if isStringType(x.X.Type()) {
		e.checkBounds(st, m, k, x.X.Type(), x.Pos())
		p.env[x] = e.index(st, m, k, x.Type())
		return []*Path{p}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	ver := e.mapVer(st, m)
	e.event(st, &Ev{Kind: "mapget", A: []*Term{m, k, ver}, Pos: x.Pos()})
	if !x.CommaOk {
		v := e.lookupTerm(st, ver, k, mt.Elem())
		p.env[x] = v
		return []*Path{p}
	}
	c := e.hasTerm(st, ver, k)
	var out []*Path
	q := p.clone()
	if p.st.f.assume(c, true) && !e.prune(p.st) {
		p.env[x] = tt.Tuple(e.lookupTerm(p.st, ver, k, mt.Elem()), tt.Bool(true))
		e.mapElemFact(p.st, ver, k, mt.Elem())
		out = append(out, p)
	}
	if q.st.f.assume(c, false) && !e.prune(q.st) {
		q.env[x] = tt.Tuple(tt.Zero(mt.Elem()), tt.Bool(false))
		out = append(out, q)
	}
	return out
}

// mapElemFact: maps of pointers to package structs never hold nil for a present key (assumption on the stored values)
func (e *Engine) mapElemFact(st *State, ver, k *Term, elem types.Type) {
	if pt, ok := elem.Underlying().(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() == e.tt.pkg {
			st.f.assume(e.tt.Eq(e.lookupTerm(st, ver, k, elem), e.tt.Nil()), false)
		}
	}
}

func (e *Engine) next(fr *Frame, p *Path, x *ssa.Next) []*Path {
	tt := e.tt
	it := p.st.f.norm(e.valF(fr, p, x.Iter))
	q := p.clone()
	// one more element
	if x.IsString {
		p.env[x] = tt.Tuple(tt.Bool(true), e.newSym("runeidx", types.Typ[types.Int]), e.newSym("rune", types.Typ[types.Rune]))
	} else {
		m := it.A[0]
		mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		k := e.newSym("rangekey", mt.Key())
		ver := e.mapVer(p.st, m)
		p.st.f.assume(tt.mk(Term{Op: OHas, A: []*Term{ver, k}}), true)
		if ver.Op == OMapEmpty {
			p.st.f.bad = true
		}
		v := e.lookupTerm(p.st, ver, k, mt.Elem())
		e.mapElemFact(p.st, ver, k, mt.Elem())
		p.env[x] = tt.Tuple(tt.Bool(true), k, v)
		for _, c := range e.counts[x] {
			p.st.f.assume(tt.LeT(tt.AddN(c, 1), e.mapLen(p.st, ver)), true)
		}
		e.event(p.st, &Ev{Kind: "mapnext", A: []*Term{m, k, ver}, Pos: x.Pos()})
	}
	var out []*Path
	if !p.st.f.bad {
		out = append(out, p)
	}
	tp := x.Type().(*types.Tuple)
	q.env[x] = tt.Tuple(tt.Bool(false), tt.Zero1(tp.At(1).Type()), tt.Zero1(tp.At(2).Type()))
	out = append(out, q)
	return out
}

func (tt *TermTab) Zero1(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tt.Nil()
	}
	return tt.Zero(t)
}

// ---- possible panics ----

func (e *Engine) checkNil(st *State, a *Term, pos token.Pos, what string) {
	r := a
	if r.Op == OFieldAddr || r.Op == OIndexAddr || r.Op == OAlloc || r.Op == OGlobal {
		return
	}
	if st.f.nonNil(r) {
		if e.cfg.Derefs {
			e.event(st, &Ev{Kind: "deref", A: []*Term{r}, Pos: pos})
		}
		return
	}
	e.event(st, &Ev{Kind: "mayniL", A: []*Term{r}, Name: what, Pos: pos})
	st.f.assume(e.tt.Eq(r, e.tt.Nil()), false)
}

func (e *Engine) checkNilMap(st *State, m *Term, pos token.Pos) {
	if m.Op == OAlloc || st.f.nonNil(m) {
		return
	}
	e.event(st, &Ev{Kind: "maynilmap", A: []*Term{m}, Pos: pos})
}

func (e *Engine) checkBounds(st *State, b, i *Term, typ types.Type, pos token.Pos) {
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		if arr, ok := pt.Elem().Underlying().(*types.Array); ok {
			if n, ok := i.intVal(); ok && n >= 0 && n < arr.Len() {
				return
			}
		}
	}
	tt := e.tt
	l := st.f.norm(tt.Len(b))
	if c, ok := st.content[b]; ok {
		l = st.f.norm(tt.Len(c))
	}
	ok := st.f.known(tt.LeT(tt.Int(0), i), true) && st.f.known(tt.LtT(i, l), true)
	e.event(st, &Ev{Kind: "index", A: []*Term{b, i}, Pos: pos, Mode: b2i(ok)})
	if !ok {
		st.f.assume(tt.LeT(tt.Int(0), i), true)
		st.f.assume(tt.LtT(i, l), true)
	}
}

func (e *Engine) checkSlice(st *State, b, lo, hi *Term, pos token.Pos) {
	e.reGroupFacts(st, b, lo, hi)
	tt := e.tt
	l := st.f.norm(tt.Len(b))
	ok := st.f.known(tt.LeT(tt.Int(0), lo), true) && st.f.known(tt.LeT(lo, hi), true) && st.f.known(tt.LeT(hi, l), true)
	e.event(st, &Ev{Kind: "slicing", A: []*Term{b, lo, hi}, Pos: pos, Mode: b2i(ok)})
	if !ok {
		st.f.assume(tt.LeT(tt.Int(0), lo), true)
		st.f.assume(tt.LeT(lo, hi), true)
		st.f.assume(tt.LeT(hi, l), true)
	}
}
