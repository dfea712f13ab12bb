package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop of a function.
type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
}

type Nest struct {
	header map[*ssa.BasicBlock]*Loop
}

func (e *Engine) nest(fn *ssa.Function) *Nest {
	if n, ok := e.nests[fn]; ok {
		return n
	}
	n := &Nest{header: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := n.header[s]
				if l == nil {
					l = &Loop{Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					n.header[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.Blocks[x] {
						continue
					}
					l.Blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.nests[fn] = n
	return n
}

// LoopInfo describes the analysed generic iteration of a loop.
type LoopInfo struct {
	L      *Loop
	Fn     *ssa.Function
	Pos    token.Pos
	Init   map[*Term]*Term   // header symbol -> value on entry
	Back   map[*Term][]*Term // header symbol -> value at each back edge
	Hdr    *State
	Mark   int // terms with a larger ID were made in the body
	UMark  int64
	Entry  *State
	Backs  []*State
	BackP  []*Path
	MapObj *Term            // map ranged over
	MapVer *Term            // its version at loop entry
	Keys   []*Term          // key of the generic iteration, per back edge (map range)
	SymKey map[*Term]string // stable name of each header symbol
	KeySym map[string]*Term
	Exits  []LoopExit
	IsMap  bool
	Events [][]*Ev // events of the body, per back edge
}

func (info *LoopInfo) name(s *Term, key string) {
	info.SymKey[s] = key
	info.KeySym[key] = s
}

// LoopExit is one way out of a loop.
type LoopExit struct {
	St     *State
	Header bool // left by the test of the loop, not from inside the body
	Kind   int
}

func (e *Engine) runLoop(fr *Frame, p0 *Path, L *Loop, pred *ssa.BasicBlock) []exit {
	e.NLoops++
	tt := e.tt
	n := nPhis(L.Header)
	pi := predIndex(L.Header, pred)
	phis := make([]*ssa.Phi, n)
	init := make([]*Term, n)
	for k := 0; k < n; k++ {
		phis[k] = L.Header.Instrs[k].(*ssa.Phi)
		init[k] = p0.st.f.norm(e.valF(fr, p0, phis[k].Edges[pi]))
	}
	hPhi := map[int]bool{}
	hMem := map[*Term]bool{}
	hMap := map[*Term]bool{}
	hGhost := map[string]bool{}
	hInv := map[*Term]bool{}
	hEpoch := map[*Term]bool{}
	hFlag := map[*Term]bool{}
	hCont := map[*Term]bool{}
	hAlias := map[*Term]bool{}

	type pass struct {
		info  *LoopInfo
		hdr   *Path
		exits []exit
		phiH  []*Term
		memH  map[*Term]*Term
		mapH  map[*Term]*Term
		ghH   map[string]*Term
	}
	// extra facts shown inductive: functions applied to the header symbols
	var extra []func(ps *pass)
	widened := 0
	var hyp interface{}

	do := func() *pass {
		h := p0.clone()
		ps := &pass{hdr: h, phiH: make([]*Term, n), memH: map[*Term]*Term{}, mapH: map[*Term]*Term{}, ghH: map[string]*Term{}}
		info := &LoopInfo{L: L, Fn: fr.fn, Pos: loopPos(L), Init: map[*Term]*Term{}, Back: map[*Term][]*Term{}, Entry: p0.st, UMark: e.uniq, SymKey: map[*Term]string{}, KeySym: map[string]*Term{}}
		ps.info = info
		for k := 0; k < n; k++ {
			if hPhi[k] {
				s := e.newSym("loop:"+phis[k].Comment, phis[k].Type())
				h.env[phis[k]] = s
				h.st.orig[s] = init[k]
				info.Init[s] = init[k]
				info.name(s, fmt.Sprintf("phi:%d", k))
				ps.phiH[k] = s
			} else {
				h.env[phis[k]] = init[k]
				ps.phiH[k] = init[k]
			}
		}
		for _, a := range sortedTerms(hMem) {
			old := e.load(p0.st, a, contentType(a))
			s := e.newSym("loopmem:"+a.S, contentType(a))
			h.st.mem[a] = s
			h.st.orig[s] = old
			info.Init[s] = old
			info.name(s, "mem:"+a.key)
			ps.memH[a] = s
		}
		for _, m := range sortedTerms(hMap) {
			old := e.mapVer(p0.st, m)
			s := tt.mk(Term{Op: OMapSym, A: []*Term{m}, S: "loopmap", N: int64(tt.n + 1)})
			h.st.maps[m] = s
			info.Init[s] = old
			info.name(s, "map:"+m.key)
			ps.mapH[m] = s
		}
		for _, g := range sortedNames(hGhost) {
			old := p0.st.ghost[g]
			var typ types.Type = types.Typ[types.Int]
			if old == nil {
				old = tt.Int(0)
			}
			s := e.newSym("ghost:"+g, typ)
			h.st.ghost[g] = s
			info.Init[s] = old
			info.name(s, "ghost:"+g)
			ps.ghH[g] = s
		}
		for _, r := range sortedTerms(hInv) {
			e.uniq++
			h.st.inv[r] = e.uniq
		}
		for _, r := range sortedTerms(hEpoch) {
			e.uniq++
			h.st.epoch[r] = e.uniq
		}
		for r := range hFlag {
			delete(h.st.flags, r)
		}
		for r := range hCont {
			delete(h.st.content, r)
		}
		for _, f := range extra {
			f(ps)
		}
		info.Mark = tt.n
		for _, v := range info.Init {
			e.aliased(h.st, v)
		}
		for a := range hAlias {
			e.aliased(h.st, a)
		}
		if e.cfg.LoopHeader != nil {
			e.cfg.LoopHeader(h.st, info, hyp)
		}
		info.Hdr = h.st.clone()
		ps.exits = e.execFrom(fr, h.clone(), L.Header, n, L)
		for _, x := range ps.exits {
			if x.kind != xBack {
				continue
			}
			info.Backs = append(info.Backs, x.p.st)
			info.BackP = append(info.BackP, x.p)
			bi := predIndex(L.Header, x.from)
			for k := 0; k < n; k++ {
				if hPhi[k] {
					info.Back[ps.phiH[k]] = append(info.Back[ps.phiH[k]], x.p.st.f.norm(e.valF(fr, x.p, phis[k].Edges[bi])))
				}
			}
			for _, a := range sortedTerms(hMem) {
				info.Back[ps.memH[a]] = append(info.Back[ps.memH[a]], e.load(x.p.st, a, contentType(a)))
			}
			for _, m := range sortedTerms(hMap) {
				info.Back[ps.mapH[m]] = append(info.Back[ps.mapH[m]], e.mapVer(x.p.st, m))
			}
			for _, g := range sortedNames(hGhost) {
				info.Back[ps.ghH[g]] = append(info.Back[ps.ghH[g]], x.p.st.ghost[g])
			}
		}
		return ps
	}

	e.mute++
	var ps *pass
	for iter := 0; ; iter++ {
		ps = do()
		changed := false
		if iter > 40 {
			e.Unsup["loop without fixpoint at "+e.m.Pos(loopPos(L))] = true
			break
		}
		for _, vs := range ps.info.Back {
			for _, v := range vs {
				v.walk(func(t *Term) bool {
					if t.Op == OAlloc && t.ID <= ps.info.Mark && !hAlias[t] && !ps.info.Hdr.alias[t] {
						hAlias[t] = true
						changed = true
					}
					return t.Op != OFieldAddr && t.Op != OIndexAddr && t.Op != OLoad
				})
			}
		}
		for _, x := range ps.exits {
			if x.kind != xBack {
				continue
			}
			q := x.p
			bi := predIndex(L.Header, x.from)
			for k := 0; k < n; k++ {
				v := q.st.f.norm(e.valF(fr, q, phis[k].Edges[bi]))
				if !hPhi[k] && v != q.st.f.norm(ps.phiH[k]) {
					hPhi[k] = true
					changed = true
				}
			}
			// memory
			keys := map[*Term]bool{}
			for a := range q.st.mem {
				keys[a] = true
			}
			for a := range ps.info.Hdr.mem {
				keys[a] = true
			}
			for _, a := range sortedTerms(keys) {
				if hMem[a] || contentType(a) == nil {
					continue
				}
				if a.ID > ps.info.Mark { // made in the body (new object, or element at the loop index)
					if r := rootOf(a); r.ID <= ps.info.Mark {
						if !hEpoch[r] && q.st.epoch[r] != ps.info.Hdr.epoch[r] {
							hEpoch[r] = true
							changed = true
						}
						// field of an older object reached for the first time in the body
						if !dependsOnBody(a, ps.info) {
							vb, ok := q.st.mem[a]
							if ok && q.st.f.norm(vb) != e.load(ps.info.Hdr, a, contentType(a)) {
								hMem[a] = true
								changed = true
							}
						}
					}
					continue
				}
				vb := e.load(q.st, a, contentType(a))
				vh := q.st.f.norm(e.load(ps.info.Hdr, a, contentType(a)))
				if vb != vh {
					hMem[a] = true
					changed = true
				}
			}
			for m, v := range q.st.maps {
				if hMap[m] || dependsOnBody(m, ps.info) {
					continue
				}
				if hv, ok := ps.info.Hdr.maps[m]; ok {
					if hv != v {
						hMap[m] = true
						changed = true
					}
				} else if !(v.Op == OMapInit) {
					hMap[m] = true
					changed = true
				}
			}
			for g, v := range q.st.ghost {
				if hGhost[g] || len(g) > 0 && g[0] == 's' && len(g) > 6 && g[:6] == "shift:" {
					continue
				}
				hv := ps.info.Hdr.ghost[g]
				if hv == nil {
					hv = tt.Int(0)
				}
				if q.st.f.norm(hv) != q.st.f.norm(v) {
					hGhost[g] = true
					changed = true
				}
			}
			for r, v := range q.st.inv {
				if !hInv[r] && r != nil && r.ID <= ps.info.Mark && ps.info.Hdr.inv[r] != v {
					hInv[r] = true
					changed = true
				}
			}
			for r, v := range q.st.epoch {
				if !hEpoch[r] && r.ID <= ps.info.Mark && ps.info.Hdr.epoch[r] != v {
					hEpoch[r] = true
					changed = true
				}
			}
			for r, v := range q.st.flags {
				if !hFlag[r] && r.ID <= ps.info.Mark && ps.info.Hdr.flags[r] != v {
					hFlag[r] = true
					changed = true
				}
			}
			for r, v := range q.st.content {
				if !hCont[r] && r.ID <= ps.info.Mark && ps.info.Hdr.content[r] != v {
					hCont[r] = true
					changed = true
				}
			}
		}
		if !changed && e.cfg.Widen != nil && widened < 6 {
			// monitor state must be stable too; the monitor changes the entry state of the next pass
			if nh, ch := e.cfg.Widen(ps.info, hyp); ch {
				hyp = nh
				widened++
				changed = true
			}
		}
		if !changed {
			break
		}
	}

	// relations between the integer quantities of the header that an arbitrary iteration keeps
	type cell struct {
		name string
		h    func(ps *pass) *Term
		init *Term
		back func(x exit) *Term
	}
	var cells []cell
	for k := 0; k < n; k++ {
		if !hPhi[k] {
			continue
		}
		k := k
		typ := phis[k].Type()
		bv := func(x exit) *Term {
			bi := predIndex(L.Header, x.from)
			return x.p.st.f.norm(e.valF(fr, x.p, phis[k].Edges[bi]))
		}
		if isIntType(typ) {
			cells = append(cells, cell{phis[k].Name(), func(ps *pass) *Term { return ps.phiH[k] }, init[k], bv})
		} else if _, ok := typ.Underlying().(*types.Slice); ok {
			cells = append(cells, cell{"len " + phis[k].Name(), func(ps *pass) *Term { return tt.Len(ps.phiH[k]) }, p0.st.f.norm(tt.Len(init[k])), func(x exit) *Term { return x.p.st.f.norm(tt.Len(bv(x))) }})
		}
	}
	for _, a := range sortedTerms(hMem) {
		a := a
		ct := contentType(a)
		old := e.load(p0.st, a, ct)
		bv := func(x exit) *Term { return e.load(x.p.st, a, ct) }
		if isIntType(ct) {
			cells = append(cells, cell{"mem", func(ps *pass) *Term { return ps.memH[a] }, old, bv})
		} else if _, ok := ct.Underlying().(*types.Slice); ok {
			cells = append(cells, cell{"len mem", func(ps *pass) *Term { return tt.Len(ps.memH[a]) }, p0.st.f.norm(tt.Len(old)), func(x exit) *Term { return x.p.st.f.norm(tt.Len(bv(x))) }})
		}
	}
	for _, m := range sortedTerms(hMap) {
		m := m
		cells = append(cells, cell{"maplen", func(ps *pass) *Term { return tt.mk(Term{Op: OMapLen, A: []*Term{ps.mapH[m]}, T: types.Typ[types.Int]}) }, e.mapLen(p0.st, e.mapVer(p0.st, m)), func(x exit) *Term { return x.p.st.f.norm(e.mapLen(x.p.st, x.p.st.maps[m])) }})
	}
	for _, g := range sortedNames(hGhost) {
		g := g
		old := p0.st.ghost[g]
		if old == nil {
			old = tt.Int(0)
		}
		cells = append(cells, cell{"ghost", func(ps *pass) *Term { return ps.ghH[g] }, old, func(x exit) *Term { return x.p.st.f.norm(x.p.st.ghost[g]) }})
	}
	if len(cells) > 0 {
		check := func(f func(x exit) bool) bool {
			for _, x := range ps.exits {
				if x.kind == xBack && !f(x) {
					return false
				}
			}
			return true
		}
		used := map[int]bool{}
		for i, c := range cells {
			c := c
			h := c.h(ps)
			if check(func(x exit) bool { return x.p.st.f.known(tt.LeT(h, c.back(x)), true) }) {
				extra = append(extra, func(ps *pass) { ps.hdr.st.f.assume(tt.LeT(c.init, c.h(ps)), true) })
			} else if check(func(x exit) bool { return x.p.st.f.known(tt.LeT(c.back(x), h), true) }) {
				extra = append(extra, func(ps *pass) { ps.hdr.st.f.assume(tt.LeT(c.h(ps), c.init), true) })
			}
			for j := 0; j < i; j++ {
				if used[i] {
					break
				}
				d := cells[j]
				hd := d.h(ps)
				// difference kept
				if check(func(x exit) bool {
					return x.p.st.f.norm(tt.Sub(tt.Sub(c.back(x), h), tt.Sub(d.back(x), hd))) == tt.Int(0)
				}) {
					used[i] = true
					extra = append(extra, func(ps *pass) {
						ps.hdr.st.f.assume(tt.EqInt(tt.Sub(c.h(ps), d.h(ps)), tt.Sub(c.init, d.init)), true)
					})
				} else if check(func(x exit) bool { // sum kept
					return x.p.st.f.norm(tt.Add(tt.Sub(c.back(x), h), tt.Sub(d.back(x), hd))) == tt.Int(0)
				}) {
					used[i] = true
					extra = append(extra, func(ps *pass) {
						ps.hdr.st.f.assume(tt.EqInt(tt.Add(c.h(ps), d.h(ps)), tt.Add(c.init, d.init)), true)
					})
				}
			}
		}
		// a loop over a table that it does not change makes at most one step per key
		for _, in := range L.Header.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			it := p0.st.f.norm(e.valF(fr, p0, nx.Iter))
			if len(it.A) == 0 || hMap[it.A[0]] {
				continue
			}
			extra = append(extra, func(ps *pass) { e.counts[nx] = nil })
			for _, c := range cells {
				c := c
				h := c.h(ps)
				if check(func(x exit) bool { return x.p.st.f.known(tt.LeT(tt.Sub(c.back(x), h), tt.Int(1)), true) }) {
					extra = append(extra, func(ps *pass) { e.counts[nx] = append(e.counts[nx], tt.Sub(c.h(ps), c.init)) })
				}
			}
		}
		// bounds kept by the iteration: h <= t for loop invariant lengths known in the body
		for _, c := range cells {
			c := c
			h := c.h(ps)
			for _, ub := range e.boundCandidates(ps.info) {
				ub := ub
				if !p0.st.f.known(tt.LeT(c.init, ub), true) {
					continue
				}
				if check(func(x exit) bool { return x.p.st.f.known(tt.LeT(c.back(x), ub), true) }) {
					_ = h
					extra = append(extra, func(ps *pass) { ps.hdr.st.f.assume(tt.LeT(c.h(ps), ub), true) })
				}
			}
			for _, lb := range e.lowCandidates(ps.info, h) {
				lb := lb
				if !p0.st.f.known(tt.LeT(lb, c.init), true) {
					continue
				}
				if check(func(x exit) bool { return x.p.st.f.known(tt.LeT(lb, c.back(x)), true) }) {
					extra = append(extra, func(ps *pass) { ps.hdr.st.f.assume(tt.LeT(lb, c.h(ps)), true) })
				}
			}
		}
	}
	// properties assumed together and kept by an arbitrary iteration: what is not kept is dropped until the rest is inductive
	type cand struct {
		name string
		set  func(ps *pass)
		kept func(ps *pass, x exit) bool
	}
	var cands []cand
	bounds := e.boundCandidates(ps.info)
	value := func(typ types.Type, init0 *Term, h func(ps *pass) *Term, back func(x exit) *Term) {
		if pointerLike(typ) && p0.st.f.nonNil(init0) {
			cands = append(cands, cand{"nonnil",
				func(ps *pass) { ps.hdr.st.f.assume(tt.Eq(h(ps), tt.Nil()), false) },
				func(ps *pass, x exit) bool { return x.p.st.f.nonNil(back(x)) }})
		}
		// elements below a quantity that changes with the loop
		for k := 0; k < n; k++ {
			if !hPhi[k] || !isIntType(phis[k].Type()) {
				continue
			}
			k := k
			for _, pr := range elemCandidates(typ, []*Term{tt.AddN(init[k], 1)}) {
				pr := pr
				if pr.kind != 2 || !e.allElems(p0.st, init0, pr) {
					continue
				}
				cands = append(cands, cand{"elements below",
					func(ps *pass) {
						s := h(ps)
						pr := pr
						pr.ub = tt.AddN(ps.phiH[k], 1)
						ps.hdr.st.elems[s] = append(append([]elemPred(nil), ps.hdr.st.elems[s]...), pr)
					},
					func(ps *pass, x exit) bool {
						pr := pr
						pr.ub = tt.AddN(x.p.st.f.norm(e.valF(fr, x.p, phis[k].Edges[predIndex(L.Header, x.from)])), 1)
						return e.allElems(x.p.st, back(x), pr)
					}})
			}
		}
		for _, pr := range elemCandidates(typ, bounds) {
			pr := pr
			if !e.allElems(p0.st, init0, pr) {
				continue
			}
			cands = append(cands, cand{"elements " + pr.String(),
				func(ps *pass) {
					s := h(ps)
					ps.hdr.st.elems[s] = append(append([]elemPred(nil), ps.hdr.st.elems[s]...), pr)
				},
				func(ps *pass, x exit) bool { return e.allElems(x.p.st, back(x), pr) }})
		}
	}
	// end of the previous match
	matchOrder := func(typ types.Type, init0 *Term, h func(ps *pass) *Term) {
		if !isIntType(typ) {
			return
		}
		j := e.reProgress(p0.st, ps.info, init0, h(ps))
		if j == nil {
			return
		}
		key := ps.info.SymKey[j.sym]
		cands = append(cands, cand{"match order",
			func(ps *pass) {
				m := tt.mk(Term{Op: OIndex, A: []*Term{j.search, substTerm(tt, j.idx, j.sym, ps.info.KeySym[key])}, N: j.n1, T: j.t1})
				ps.hdr.st.f.assume(tt.LeT(h(ps), tt.mk(Term{Op: OIndex, A: []*Term{m, tt.Int(0)}, N: j.n2, T: types.Typ[types.Int]})), true)
				ps.hdr.st.f.assume(tt.LeT(h(ps), tt.Len(j.search.A[1])), true)
				ps.hdr.st.f.assume(tt.LeT(init0, h(ps)), true)
			},
			func(ps *pass, x exit) bool { return true }})
	}
	for k := 0; k < n; k++ {
		if hPhi[k] {
			k := k
			bv := func(x exit) *Term {
				return x.p.st.f.norm(e.valF(fr, x.p, phis[k].Edges[predIndex(L.Header, x.from)]))
			}
			value(phis[k].Type(), init[k], func(ps *pass) *Term { return ps.phiH[k] }, bv)
			matchOrder(phis[k].Type(), init[k], func(ps *pass) *Term { return ps.phiH[k] })
		}
	}
	for _, a := range sortedTerms(hMem) {
		a := a
		ct := contentType(a)
		old := e.load(p0.st, a, ct)
		value(ct, old, func(ps *pass) *Term { return ps.memH[a] }, func(x exit) *Term { return e.load(x.p.st, a, ct) })
		matchOrder(ct, old, func(ps *pass) *Term { return ps.memH[a] })
	}
	for i, c := range cells {
		for j, d := range cells {
			if i == j {
				continue
			}
			c, d := c, d
			diff := p0.st.f.norm(tt.Sub(c.init, d.init))
			if _, ok := diff.intVal(); !ok {
				continue
			}
			if len(cells) > 8 {
				continue
			}
			cands = append(cands, cand{"order",
				func(ps *pass) { ps.hdr.st.f.assume(tt.LeT(tt.Sub(c.h(ps), d.h(ps)), diff), true) },
				func(ps *pass, x exit) bool {
					return x.p.st.f.known(tt.LeT(tt.Sub(c.back(x), d.back(x)), diff), true)
				}})
		}
	}
	if len(cands) > 0 {
		base := extra
		for {
			extra = append([]func(ps *pass){}, base...)
			for _, c := range cands {
				extra = append(extra, c.set)
			}
			ps = do()
			var keep []cand
			for _, c := range cands {
				ok := true
				for _, x := range ps.exits {
					if x.kind == xBack && !c.kept(ps, x) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				}
			}
			if len(keep) == len(cands) {
				break
			}
			cands = keep
		}
	}
	e.mute--

	// final pass
	ps = do()
	info := ps.info
	for _, x := range ps.exits {
		if x.kind != xBack {
			continue
		}
		var evs []*Ev
		for ev := x.p.st.tr; ev != nil && ev != info.Hdr.tr; ev = ev.Prev {
			evs = append([]*Ev{ev}, evs...)
		}
		info.Events = append(info.Events, evs)
		e.event(x.p.st, &Ev{Kind: "backedge", Pos: info.Pos})
		if !sameLocks(info.Hdr.locks, x.p.st.locks) {
			e.event(x.p.st, &Ev{Kind: "looplock", Pos: info.Pos})
		}
	}
	// map range?
	for _, in := range L.Header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			info.IsMap = true
			it := p0.st.f.norm(e.valF(fr, p0, nx.Iter))
			if len(it.A) > 0 {
				info.MapObj = it.A[0]
				info.MapVer = e.mapVer(p0.st, it.A[0])
			}
			for _, x := range ps.exits {
				if x.kind == xBack {
					t := x.p.env[nx]
					if t != nil && t.Op == OTuple {
						info.Keys = append(info.Keys, t.A[1])
					}
				}
			}
		}
	}
	for _, x := range ps.exits {
		if x.kind != xBack {
			info.Exits = append(info.Exits, LoopExit{St: x.p.st, Header: x.kind == xEdge && x.from == L.Header, Kind: x.kind})
		}
	}
	if e.cfg.LoopDone != nil {
		e.cfg.LoopDone(info)
	}
	foralls := e.generalise(info)
	var out []exit
	for _, x := range ps.exits {
		if x.kind == xBack {
			continue
		}
		st := x.p.st
		for s := range info.Init {
			st.loopOf[s] = info
		}
		for _, fa := range foralls {
			if e.exhausted(st, fa) {
				st.foralls = append(st.foralls, fa)
			}
		}
		if x.kind == xEdge && x.from == L.Header && info.deletesAll() {
			st.maps[info.MapObj] = tt.mk(Term{Op: OMapEmpty, A: []*Term{info.MapObj}})
		}
		e.event(st, &Ev{Kind: "loopexit", Pos: info.Pos, Info: info, Mode: b2i(x.kind == xEdge && x.from == L.Header)})
		if e.cfg.OnLoopExit != nil {
			e.cfg.OnLoopExit(st, info)
		}
		if e.prune(st) {
			continue
		}
		out = append(out, x)
	}
	return out
}

// deletesAll: the loop over a map deletes every key it visits and nothing else
func (info *LoopInfo) deletesAll() bool {
	if !info.IsMap || info.MapObj == nil || len(info.Backs) == 0 || len(info.Keys) != len(info.Backs) {
		return false
	}
	hv := info.Hdr.maps[info.MapObj]
	for i, b := range info.Backs {
		v := b.maps[info.MapObj]
		if hv == nil || v == nil || v.Op != OMapDel || v.A[0] != hv || b.f.norm(v.A[1]) != b.f.norm(info.Keys[i]) {
			return false
		}
	}
	return true
}

func sameLocks(a, b map[*Term]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func loopPos(L *Loop) token.Pos {
	for _, in := range L.Header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range L.Blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// dependsOnBody: the term is built from values of the generic iteration
func dependsOnBody(t *Term, info *LoopInfo) bool {
	dep := false
	t.walk(func(x *Term) bool {
		switch x.Op {
		case OSym, OAlloc, OMapSym:
			if x.ID > info.Mark {
				dep = true
			}
			if _, ok := info.Init[x]; ok {
				dep = true
			}
		case OLoad, OIndex, OMapInit:
			if x.N > info.UMark {
				dep = true
			}
		}
		return !dep
	})
	return dep
}

// boundCandidates: loop invariant lengths and integers that bound something in the body
func (e *Engine) boundCandidates(info *LoopInfo) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, b := range info.Backs {
		for _, d := range b.f.le {
			for _, t := range linTerms(d) {
				if !dependsOnBody(t, info) && t.ID <= info.Mark {
					add(t)
				}
			}
			// tests of a header quantity against an expression that stays the same
			l := toLin(d)
			for t, k := range l.m {
				if _, ok := info.Init[t]; ok && k == 1 {
					if ub := e.tt.Neg(e.tt.Sub(d, t)); !dependsOnBody(ub, info) {
						add(ub)
						add(e.tt.AddN(ub, 1))
						add(e.tt.AddN(ub, 2))
					}
				}
			}
		}
	}
	return out
}

// lowCandidates: loop invariant expressions that the header quantity is tested to be above
func (e *Engine) lowCandidates(info *LoopInfo, h *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, b := range info.Backs {
		for _, d := range b.f.le {
			if toLin(d).m[h] != -1 {
				continue
			}
			lb := e.tt.Add(d, h)
			if dependsOnBody(lb, info) {
				continue
			}
			for k := int64(0); k > -3; k-- {
				if t := e.tt.AddN(lb, k); !seen[t] {
					seen[t] = true
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// generalise finds atoms that every completed iteration establishes about the visited element.
func (e *Engine) generalise(info *LoopInfo) []Forall {
	if len(info.Backs) == 0 {
		return nil
	}
	var out []Forall
	first := info.Backs[0]
	for _, c := range sortedTerms(first.f.truth) {
		v := first.f.truth[c]
		if hv, ok := info.Hdr.f.truth[c]; ok && hv == v {
			continue
		}
		all := true
		for _, b := range info.Backs[1:] {
			if !b.f.known(c, v) {
				all = false
			}
		}
		if !all {
			continue
		}
		// which element does it talk about
		c.walk(func(t *Term) bool {
			if t.Op == OIndex && dependsOnBody(t.A[1], info) && !dependsOnBody(t.A[0], info) {
				out = append(out, Forall{S: t.A[0], Idx: t.A[1], Atom: c, Val: v, Info: info})
			}
			return true
		})
	}
	return out
}

// exhausted: in the exit state the visited indexes cover the whole sequence
func (e *Engine) exhausted(st *State, fa Forall) bool {
	tt := e.tt
	sym, step := fa.Info.induction(tt, fa.Idx)
	if sym == nil {
		return false
	}
	first := substTerm(tt, fa.Idx, sym, fa.Info.Init[sym])
	l := tt.Len(fa.S)
	switch step {
	case 1:
		return st.f.known(tt.EqInt(first, tt.Int(0)), true) && st.f.known(tt.LeT(l, fa.Idx), true)
	case -1:
		return st.f.known(tt.EqInt(first, tt.AddN(l, -1)), true) && st.f.known(tt.LtT(fa.Idx, tt.Int(0)), true)
	}
	return false
}

// induction returns the header symbol an index is linear in, and the constant step of the index.
func (info *LoopInfo) induction(tt *TermTab, idx *Term) (*Term, int64) {
	for t, k := range toLin(idx).m {
		if _, ok := info.Init[t]; !ok || k != 1 && k != -1 {
			continue
		}
		var step int64
		for i, b := range info.Back[t] {
			d, ok := info.Backs[i].f.norm(tt.Sub(b, t)).intVal()
			if !ok || (i > 0 && d != step) {
				return nil, 0
			}
			step = d
		}
		return t, step * k
	}
	return nil, 0
}

func substTerm(tt *TermTab, t, from, to *Term) *Term {
	f := newFacts(tt)
	f.rep[from] = to
	return f.norm(t)
}

// substAll replaces several terms at once
func substAll(tt *TermTab, t *Term, m map[*Term]*Term) *Term {
	f := newFacts(tt)
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if v, ok := m[t]; ok {
			return v
		}
		if v, ok := memo[t]; ok {
			return v
		}
		r := t
		changed := false
		as := make([]*Term, len(t.A))
		for i, a := range t.A {
			as[i] = rec(a)
			changed = changed || as[i] != a
		}
		if changed {
			r = f.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return termID(out[i]) < termID(out[j]) })
	return out
}

func termID(t *Term) int {
	if t == nil {
		return 0
	}
	return t.ID
}

func sortedNames(m map[string]bool) []string {
	var out []string
	for t := range m {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func linTerms(t *Term) []*Term {
	m := map[*Term]bool{}
	for x := range toLin(t).m {
		m[x] = true
	}
	return sortedTerms(m)
}
