package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mutators of the dataset and collection interfaces; every other method only reads
var mutators = map[string]bool{"Set": true, "Del": true, "Push": true, "Pop": true, "Shift": true, "Unshift": true}

func (e *Engine) inPkg(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg == e.m.SSA && f.Blocks != nil
}

func (e *Engine) onStack(f *ssa.Function) bool {
	for _, g := range e.stack {
		if g == f {
			return true
		}
	}
	return false
}

// doCall executes a call instruction; res is the value to define (nil for go/defer).
func (e *Engine) doCall(fr *Frame, p *Path, res ssa.Value, c *ssa.CallCommon, pos token.Pos, _ *ssa.Call) []*Path {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, p.st.f.norm(e.valF(fr, p, a)))
	}
	fv := p.st.f.norm(e.valF(fr, p, c.Value))
	return e.doCallT(fr, p, res, c, fv, args, pos)
}

func (e *Engine) doCallT(fr *Frame, p *Path, res ssa.Value, c *ssa.CallCommon, fv *Term, args []*Term, pos token.Pos) []*Path {
	st := p.st
	set := func(q *Path, t *Term) []*Path {
		if res != nil {
			q.env[res] = t
		}
		return []*Path{q}
	}
	rtyp := types.Type(c.Signature().Results())
	if c.Signature().Results().Len() == 1 {
		rtyp = c.Signature().Results().At(0).Type()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, p, res, b.Name(), c, args, pos)
	}
	if c.IsInvoke() {
		recv := fv
		name := c.Method.Name()
		if recv.Op == OIface {
			// the dynamic type is known
			if f := e.methodOf(recv.T, c.Method); f != nil && e.inPkg(f) {
				return e.invokeFn(fr, p, res, f, append([]*Term{recv.A[0]}, args...), nil, rtyp, pos)
			}
		}
		if !st.f.nonNil(recv) {
			e.event(st, &Ev{Kind: "mayniL", A: []*Term{recv}, Name: "method " + name + " of a nil interface", Pos: pos})
			st.f.assume(e.tt.Eq(recv, e.tt.Nil()), false)
		}
		var r *Term
		if mutators[name] && (isDatasetIface(c.Value.Type())) {
			e.uniq++
			st.inv[recv] = e.uniq
			r = e.tupleSym(name, rtyp)
		} else {
			r = e.pureRes("invoke:"+name, rtyp, append([]*Term{recv, e.tt.Int(st.inv[recv])}, args...)...)
			if name == "Count" && isDatasetIface(c.Value.Type()) && isIntType(rtyp) {
				st.f.assume(e.tt.LeT(e.tt.Int(0), r), true)
			}
		}
		e.escape(st, args)
		e.event(st, &Ev{Kind: "invoke", Name: name, A: append([]*Term{recv}, args...), Res: r, Pos: pos})
		return set(p, r)
	}
	switch {
	case fv.Op == OFunc && fv.Ref != nil:
		return e.invokeFn(fr, p, res, fv.Ref.(*ssa.Function), args, nil, rtyp, pos)
	case fv.Op == OClosure:
		return e.invokeFn(fr, p, res, fv.Ref.(*ssa.Function), args, fv, rtyp, pos)
	}
	// a function value supplied by the user
	if !st.f.nonNil(fv) {
		e.event(st, &Ev{Kind: "mayniL", A: []*Term{fv}, Name: "call of a nil function", Pos: pos})
	}
	r := e.tupleSym("user", rtyp)
	e.event(st, &Ev{Kind: "usercall", A: append([]*Term{fv}, args...), Res: r, Pos: pos})
	return set(p, r)
}

func isDatasetIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	return strings.HasPrefix(n.Obj().Name(), "XDataset")
}

func (e *Engine) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.m.Prog.MethodValue(sel)
}

// invokeFn calls a known function
func (e *Engine) invokeFn(fr *Frame, p *Path, res ssa.Value, f *ssa.Function, args []*Term, clo *Term, rtyp types.Type, pos token.Pos) []*Path {
	st := p.st
	if !e.inPkg(f) {
		if f.Pkg == nil || f.Synthetic != "" && f.Blocks != nil {
			// wrappers (bound methods, promoted methods)
			if f.Blocks != nil && !e.onStack(f) && len(e.stack) < 40 {
				return e.inline(fr, p, res, f, args, clo)
			}
		}
		return e.extCall(fr, p, res, f, args, rtyp, pos)
	}
	if e.cfg.Opaque != nil && e.cfg.Opaque(f) {
		r := e.pureRes("call:"+f.RelString(e.m.Pkg.Types), rtyp, append([]*Term{e.tt.Int(st.inv[argOrNil(args)])}, args...)...)
		if f.Name() == "Count" && isIntType(rtyp) {
			st.f.assume(e.tt.LeT(e.tt.Int(0), r), true)
		}
		if mutators[f.Name()] && strings.HasPrefix(recvName(f), "XDataset") {
			e.uniq++
			st.inv[args[0]] = e.uniq
			r = e.tupleSym(f.Name(), rtyp)
		}
		e.event(st, &Ev{Kind: "call", Name: f.RelString(e.m.Pkg.Types), A: args, Res: r, Pos: pos})
		if res != nil {
			p.env[res] = r
		}
		return []*Path{p}
	}
	if (e.cfg.OpaqueImp != nil && e.cfg.OpaqueImp(f)) || e.onStack(f) || len(e.stack) > 30 {
		r := e.tupleSym("rec:"+f.Name(), rtyp)
		if mutators[f.Name()] && len(args) > 0 {
			e.uniq++
			st.inv[args[0]] = e.uniq
		}
		// text written to a buffer of the caller
		for _, a := range args {
			if a.T == nil {
				continue
			}
			if n := typeName(elemType(a.T)); n == "Builder" || n == "Buffer" {
				w := e.newSym("rec:"+f.Name(), types.Typ[types.String])
				e.bufAppend(st, a, w)
				if f.Signature.Results().Len() == 0 {
					r = e.tt.Tuple(w)
				}
			}
		}
		for i, t := range resultTerms(r) {
			if i < f.Signature.Results().Len() && pointerLike(f.Signature.Results().At(i).Type()) && neverNil(e.m, f, i) {
				st.f.assume(e.tt.Eq(t, e.tt.Nil()), false)
			}
		}
		e.event(st, &Ev{Kind: "reccall", Name: f.RelString(e.m.Pkg.Types), A: args, Res: r, Pos: pos})
		if res != nil {
			p.env[res] = r
		}
		return []*Path{p}
	}
	return e.inline(fr, p, res, f, args, clo)
}

func argOrNil(args []*Term) *Term {
	if len(args) > 0 {
		return args[0]
	}
	return nil
}

func (e *Engine) inline(fr *Frame, p *Path, res ssa.Value, f *ssa.Function, args []*Term, clo *Term) []*Path {
	var free map[ssa.Value]*Term
	if clo != nil {
		free = map[ssa.Value]*Term{}
		for i, fv := range f.FreeVars {
			free[fv] = clo.A[i]
		}
	}
	outs := e.call(f, args, free, p.st)
	var ps []*Path
	for i, o := range outs {
		if o.Panic {
			continue
		}
		q := p
		if i < len(outs)-1 {
			q = &Path{env: make(map[ssa.Value]*Term, len(p.env)+2), defers: append([]deferred(nil), p.defers...)}
			for k, v := range p.env {
				q.env[k] = v
			}
		}
		q.st = o.St
		ps = append(ps, q)
		if res != nil {
			if len(o.Ret.A) == 1 {
				q.env[res] = o.Ret.A[0]
			} else {
				q.env[res] = o.Ret
			}
		}
	}
	return ps
}

// noteDefer keeps the number of pending deferred unlocks of each mutex
func (e *Engine) noteDefer(st *State, d deferred, n int) {
	if d.fn.Op == OFunc && d.fn.Ref != nil {
		f := d.fn.Ref.(*ssa.Function)
		switch f.String() {
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
			st.deferU[d.args[0]] += n
			return
		}
		if e.inPkg(f) && hasUnlock(f, 0) {
			st.deferU[nil] += n
		}
	}
	if d.fn.Op == OClosure {
		if f := d.fn.Ref.(*ssa.Function); hasUnlock(f, 0) {
			st.deferU[nil] += n
		}
	}
}

func hasUnlock(f *ssa.Function, depth int) bool {
	if depth > 5 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					if strings.HasPrefix(g.String(), "(*sync.") && strings.HasSuffix(g.String(), "nlock") {
						return true
					}
					if g.Pkg == f.Pkg && hasUnlock(g, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (e *Engine) runDeferred(fr *Frame, p *Path, d deferred) []*Path {
	e.noteDefer(p.st, d, -1)
	return e.doCallT(fr, p, nil, &d.call.Call, d.fn, d.args, d.call.Pos())
}

// escape: objects handed to unknown code may be changed by it
func (e *Engine) escape(st *State, args []*Term) {
	for _, a := range args {
		if a.Op == OIface {
			a = a.A[0]
		}
		if a.Op == OAlloc {
			if _, ok := st.pub[a]; !ok {
				st.pub[a] = nil
			}
		}
	}
}

// havocObj forgets the content of an object
func (e *Engine) havocObj(st *State, a *Term) {
	r := rootOf(a)
	for k := range st.mem {
		if rootOf(k) == r {
			delete(st.mem, k)
		}
	}
	e.uniq++
	st.epoch[r] = e.uniq
}

// ---- builtins ----

func (e *Engine) builtin(fr *Frame, p *Path, res ssa.Value, name string, c *ssa.CallCommon, args []*Term, pos token.Pos) []*Path {
	tt := e.tt
	st := p.st
	var r *Term
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			ver := e.mapVer(st, args[0])
			e.event(st, &Ev{Kind: "maplen", A: []*Term{args[0], ver}, Pos: pos})
			r = e.mapLen(st, ver)
		} else {
			if cc, ok := st.content[args[0]]; ok {
				r = tt.Len(cc)
			} else {
				r = tt.Len(args[0])
			}
			e.event(st, &Ev{Kind: "seqlen", A: []*Term{args[0]}, Pos: pos})
		}
		r = st.f.norm(r)
	case "cap":
		r = e.newSym("cap", types.Typ[types.Int])
		st.f.assume(tt.LeT(tt.Len(args[0]), r), true)
	case "append":
		a := args[0]
		ps := append([]*Term(nil), tt.parts(a)...)
		if len(args) > 1 {
			b := args[1]
			if isStringType(c.Args[1].Type()) {
				ps = append(ps, tt.Pure("bytes", c.Args[0].Type(), b))
			} else {
				for _, q := range tt.parts(b) {
					if q.Op != OElem {
						// the elements are copied
						if cc, ok := st.content[q]; ok {
							q = cc
						}
						if len(ps) == 0 || seqBase(ps[0]) != seqBase(q) {
							q = tt.Pure("copyof", c.Args[0].Type(), q)
						}
					}
					ps = append(ps, q)
				}
			}
			e.event(st, &Ev{Kind: "append", A: []*Term{a, b}, Pos: pos})
			if sl := emptyHead(c.Args[0], map[ssa.Value]bool{}); sl != nil {
				if m, ok := p.env[sl.X]; ok {
					e.event(st, &Ev{Kind: "appendto", A: []*Term{st.f.norm(m)}, Pos: pos})
				}
			}
		}
		r = tt.Cat(ps)
	case "copy":
		dst, src := args[0], args[1]
		e.event(st, &Ev{Kind: "copy", A: []*Term{dst, src}, Pos: pos})
		r = e.newSym("copied", types.Typ[types.Int])
		if dst.Op == OAlloc {
			if v, ok := st.f.eval(tt.EqInt(tt.Len(dst), tt.Len(src))); ok && v {
				st.content[dst] = contentEq(src)
				break
			}
		}
		if dst.Op == OSub && src.Op == OSub && dst.A[0] == src.A[0] && st.f.norm(tt.AddN(dst.A[1], 1)) == src.A[1] {
			key := "shift:" + dst.A[1].key
			st.flags[dst.A[0]] = key
			st.ghost[key] = dst.A[1]
			break
		}
		if b := seqBase(dst); b != nil {
			e.uniq++
			st.epoch[b] = e.uniq
			delete(st.content, b)
		}
	case "delete":
		m, k := args[0], args[1]
		del := func(st *State) {
			ver := e.mapVer(st, m)
			nver := tt.mk(Term{Op: OMapDel, A: []*Term{ver, k}})
			if h := e.hasTerm(st, ver, k); h.isFalse() || st.f.known(h, false) {
				nver = ver
			}
			st.maps[m] = nver
			e.lenFacts(st, nver)
			e.event(st, &Ev{Kind: "mapdel", A: []*Term{m, k, ver, nver}, Pos: pos})
		}
		if e.cfg.SplitMap != nil && e.cfg.SplitMap(st, m) {
			var out []*Path
			for _, q := range e.splitHas(p, m, k) {
				del(q.st)
				out = append(out, q)
			}
			return out
		}
		del(st)
		return []*Path{p}
	case "recover":
		r = e.newSym("recover", res.Type())
	case "min", "max":
		r = e.newSym(name, res.Type())
		if isIntType(res.Type()) {
			for _, a := range args {
				if name == "min" {
					st.f.assume(tt.LeT(r, a), true)
				} else {
					st.f.assume(tt.LeT(a, r), true)
				}
			}
		}
	case "ssa:wrapnilchk":
		r = args[0]
	case "clear":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			e.event(st, &Ev{Kind: "mapclear", A: []*Term{args[0]}, Pos: pos})
			st.maps[args[0]] = tt.mk(Term{Op: OMapEmpty, A: []*Term{args[0]}})
		}
		return []*Path{p}
	case "print", "println", "close", "panic":
		return []*Path{p}
	default:
		if res != nil {
			r = e.newSym(name, res.Type())
		}
	}
	if res != nil && r != nil {
		p.env[res] = r
	}
	return []*Path{p}
}

func seqBase(t *Term) *Term {
	for {
		switch t.Op {
		case OSub:
			t = t.A[0]
			continue
		case OCat:
			if len(t.A) > 0 && t.A[0].Op != OElem {
				t = t.A[0]
				continue
			}
			return nil
		case ONil, OElem:
			return nil
		}
		return t
	}
}

// emptyHead: the list appended to began as the empty part of another list, whose elements it overwrites
func emptyHead(v ssa.Value, seen map[ssa.Value]bool) *ssa.Slice {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.ChangeType:
		return emptyHead(x.X, seen)
	case *ssa.Phi:
		for _, q := range x.Edges {
			if s := emptyHead(q, seen); s != nil {
				return s
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return emptyHead(x.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		// kept in a variable or in a field of a new object
		if x.Op != token.MUL {
			return nil
		}
		for _, q := range storedIn(x.X) {
			if s := emptyHead(q, seen); s != nil {
				return s
			}
		}
	case *ssa.Slice:
		if _, list := x.X.Type().Underlying().(*types.Slice); list && x.High != nil {
			if k, ok := x.High.(*ssa.Const); ok && k.Int64() == 0 {
				return x
			}
		}
	}
	return nil
}

// storedIn gives the values the function stores in a local variable, or in a field of one
func storedIn(addr ssa.Value) []ssa.Value {
	var res []ssa.Value
	from := func(a ssa.Value) {
		for _, in := range *a.Referrers() {
			if s, ok := in.(*ssa.Store); ok && s.Addr == a {
				res = append(res, s.Val)
			}
		}
	}
	switch a := addr.(type) {
	case *ssa.Alloc:
		from(a)
	case *ssa.FieldAddr:
		o, ok := a.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		for _, in := range *o.Referrers() {
			if fa, ok := in.(*ssa.FieldAddr); ok && fa.Field == a.Field {
				from(fa)
			}
		}
	}
	return res
}

// mapLen gives the number of keys of a map version
func (e *Engine) mapLen(st *State, ver *Term) *Term {
	tt := e.tt
	switch ver.Op {
	case OMapEmpty:
		return tt.Int(0)
	case OMapPut:
		h, k := st.f.eval(e.hasTerm(st, ver.A[0], ver.A[1]))
		if k && h {
			return e.mapLen(st, ver.A[0])
		}
		if k && !h {
			return tt.AddN(e.mapLen(st, ver.A[0]), 1)
		}
	case OMapDel:
		h, k := st.f.eval(e.hasTerm(st, ver.A[0], ver.A[1]))
		if k && h {
			return tt.AddN(e.mapLen(st, ver.A[0]), -1)
		}
		if k && !h {
			return e.mapLen(st, ver.A[0])
		}
	}
	r := tt.mk(Term{Op: OMapLen, A: []*Term{ver}, T: types.Typ[types.Int]})
	if ver.Op == OMapPut {
		st.f.assume(tt.LeT(e.mapLen(st, ver.A[0]), r), true)
		st.f.assume(tt.LeT(r, tt.AddN(e.mapLen(st, ver.A[0]), 1)), true)
	}
	if ver.Op == OMapDel {
		st.f.assume(tt.LeT(r, e.mapLen(st, ver.A[0])), true)
		st.f.assume(tt.LeT(tt.AddN(e.mapLen(st, ver.A[0]), -1), r), true)
	}
	return r
}

func (e *Engine) lenFacts(st *State, ver *Term) {
	if ver.Op == OMapDel || ver.Op == OMapPut {
		e.mapLen(st, ver)
	}
}
