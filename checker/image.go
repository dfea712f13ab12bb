package main

import (
	"go/types"
)

// iterOver is a complete iteration made by a loop: over a table or over a sequence
type iterOver struct {
	ver  *Term   // table
	keys []*Term // key visited, per back edge
	seq  *Term   // sequence
	idx  *Term
	step int64
}

// over lists the complete iterations a loop has made when it ends in the state
func (e *Engine) over(st *State, info *LoopInfo) []iterOver {
	var out []iterOver
	for _, x := range info.Exits {
		if x.Kind != xPanic && !x.Header {
			return nil
		}
	}
	if info.IsMap {
		if info.MapVer != nil && len(info.Keys) == len(info.Backs) {
			out = append(out, iterOver{ver: info.MapVer, keys: info.Keys})
		}
		return out
	}
	seen := map[*Term]map[*Term]bool{}
	keys := map[*Term]bool{}
	for _, evs := range info.Events {
		for _, ev := range evs {
			if ev.Kind == "index" {
				if seen[ev.A[0]] == nil {
					seen[ev.A[0]] = map[*Term]bool{}
				}
				seen[ev.A[0]][ev.A[1]] = true
				keys[ev.A[0]] = true
			}
		}
	}
	for _, b := range sortedTerms(keys) {
		if dependsOnBody(b, info) {
			continue
		}
		for _, idx := range sortedTerms(seen[b]) {
			_, step := info.induction(e.tt, idx)
			if step != 1 && step != -1 || !e.exhausted(st, Forall{S: b, Idx: idx, Info: info}) {
				continue
			}
			out = append(out, iterOver{seq: b, idx: idx, step: step})
			// the list of the keys of a table
			if ver := e.keyList(st, b); ver != nil {
				it := iterOver{ver: ver}
				for _, bs := range info.Backs {
					it.keys = append(it.keys, e.index(bs, b, idx, types.Typ[types.String]))
				}
				out = append(out, it)
			}
		}
	}
	return out
}

// seqImage: a sequence made of one element per iteration of a loop, after a prefix
type seqImage struct {
	info   *LoopInfo
	prefix *Term
	el     []*Term
	idx    *Term // where it was written, for a sequence filled in place
	size   *Term
}

func (e *Engine) resolveSeq(st *State, t *Term) *Term {
	for k := 0; k < 20; k++ {
		t = st.f.norm(t)
		if c, ok := st.content[t]; ok {
			t = c
			continue
		}
		if t.Op == OPure && t.S == "copyof" {
			t = t.A[0]
			continue
		}
		break
	}
	return t
}

// builtBy finds the loop that made the elements of a sequence
func (e *Engine) builtBy(st *State, t *Term) *seqImage {
	tt := e.tt
	t = e.resolveSeq(st, t)
	if info := st.loopOf[t]; info != nil {
		im := &seqImage{info: info, prefix: info.Init[t]}
		for i, v := range info.Back[t] {
			b := info.Backs[i]
			ps := tt.parts(b.f.norm(v))
			if len(ps) != 2 || ps[0] != b.f.norm(t) || ps[1].Op != OElem {
				return nil
			}
			im.el = append(im.el, b.f.norm(ps[1].A[0]))
		}
		return im
	}
	if t.Op != OAlloc {
		return nil
	}
	for ev := st.tr; ev != nil; ev = ev.Prev {
		if ev.Kind != "loopexit" || ev.Info == nil {
			continue
		}
		im := &seqImage{info: ev.Info, prefix: tt.Nil(), size: tt.Len(t)}
		for i, evs := range ev.Info.Events {
			n := 0
			for _, x := range evs {
				if x.Kind == "store" {
					if ia := x.A[0]; ia.Op == OIndexAddr && ia.A[0] == t {
						n++
						im.idx = ia.A[1]
						im.el = append(im.el, ev.Info.Backs[i].f.norm(x.A[1]))
					}
				}
			}
			if n > 1 {
				im = nil
				break
			}
			if n == 0 {
				im.el = append(im.el, nil)
			}
		}
		if im == nil || im.idx == nil {
			continue
		}
		for i, x := range im.el {
			if x == nil {
				// left as it was made
				if !pointerLike(sliceElem(t.T)) || writtenBefore(ev.Prev, t) {
					return nil
				}
				im.el[i] = tt.Nil()
			}
		}
		sym, step := ev.Info.induction(tt, im.idx)
		if sym == nil || step != 1 {
			return nil
		}
		if n, ok := substTerm(tt, im.idx, sym, ev.Info.Init[sym]).intVal(); !ok || n != 0 {
			return nil
		}
		for _, x := range ev.Info.Exits {
			if x.Kind != xPanic && x.St.epoch[t] != st.epoch[t] {
				return nil
			}
		}
		return im
	}
	return nil
}

func writtenBefore(tr *Ev, t *Term) bool {
	for ev := tr; ev != nil; ev = ev.Prev {
		if ev.Kind == "store" && ev.A[0].Op == OIndexAddr && ev.A[0].A[0] == t || ev.Kind == "copy" && ev.A[0].contains(t) || ev.Kind == "loopexit" && ev.Info != nil && ev.Info.Entry.epoch[t] != ev.Info.Hdr.epoch[t] {
			return true
		}
	}
	return false
}

// fits: a sequence filled in place has one place per iteration
func (im *seqImage) fits(e *Engine, st *State, it iterOver) bool {
	if im.size == nil {
		return true
	}
	n := (*Term)(nil)
	if it.seq != nil {
		n = e.tt.Len(it.seq)
	} else {
		n = e.mapLen(st, it.ver)
	}
	return st.f.known(e.tt.EqInt(n, im.size), true)
}

// keyList: the sequence holds the keys of a table, in any order; returns the table
func (e *Engine) keyList(st *State, b *Term) *Term {
	im := e.builtBy(st, b)
	if im == nil || !im.info.IsMap || len(e.qsegs(st, im.prefix)) > 0 {
		return nil
	}
	for _, it := range e.over(st, im.info) {
		ok := it.ver != nil && im.fits(e, st, it)
		for i := range im.el {
			ok = ok && im.el[i] == im.info.Backs[i].f.norm(it.keys[i])
		}
		if ok {
			return it.ver
		}
	}
	return nil
}

// copiedBy: the sequence was made by copying all the elements of another in order; returns the part before, and the other
func (e *Engine) copiedBy(st *State, t *Term) (*Term, *Term) {
	im := e.builtBy(st, t)
	if im == nil {
		return nil, nil
	}
	for _, it := range e.over(st, im.info) {
		if it.seq == nil || it.step != 1 || !im.fits(e, st, it) {
			continue
		}
		ok := true
		for i, x := range im.el {
			b := im.info.Backs[i]
			ok = ok && x == b.f.norm(e.index(b, it.seq, it.idx, x.T))
		}
		if ok {
			return im.prefix, it.seq
		}
	}
	return nil, nil
}

// mapPair is what one kind of iteration puts in a table made by a loop
type mapPair struct {
	st       *State
	key, val *Term // nil: puts nothing
	src      *Term // value of the source for the key
	el       *Term // element of the source sequence
	at       *Term // key visited
}

// tableImage: the table was made by a loop over the whole of another one; returns what it puts for each key
func (e *Engine) tableImage(st *State, ver *Term, src *Term, elem types.Type) ([]mapPair, bool) {
	info := st.loopOf[ver]
	if info == nil || info.Init[ver] == nil || info.Init[ver].Op != OMapEmpty {
		return nil, false
	}
	for _, it := range e.over(st, info) {
		if it.ver == nil {
			continue
		}
		if it.ver != src {
			// a copy of the table
			ps, ok := e.tableImage(st, it.ver, src, elem)
			for _, p := range ps {
				ok = ok && p.val != nil && e.sameVal(p.st, p.val, p.src)
			}
			if !ok {
				continue
			}
		}
		var out []mapPair
		good := true
		for i, v := range info.Back[ver] {
			b := info.Backs[i]
			key := b.f.norm(it.keys[i])
			p := mapPair{st: b, src: b.f.norm(e.lookupTerm(b, it.ver, key, elem)), at: key}
			base := v
			if v.Op == OMapPut {
				base = v.A[0]
				for (base.Op == OMapDel || base.Op == OMapPut) && base != ver && b.f.norm(base.A[1]) == key {
					base = base.A[0] // replaced by what follows
				}
			}
			if v.Op == OMapPut && base == ver && b.f.norm(v.A[1]) == key {
				p.key, p.val = key, b.f.norm(v.A[2])
			} else if v != ver {
				good = false
			}
			out = append(out, p)
		}
		if good {
			return out, true
		}
	}
	return nil, false
}

func sliceElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// uncopied: a table that starts as a full copy of another one, written as changes of that one
func (e *Engine) uncopied(st *State, ver, was *Term, elem types.Type) *Term {
	var chain []*Term
	base := ver
	for base != was && (base.Op == OMapPut || base.Op == OMapDel) {
		chain = append(chain, base)
		base = base.A[0]
	}
	if base == was {
		return ver
	}
	ps, ok := e.tableImage(st, base, was, elem)
	for _, p := range ps {
		ok = ok && p.val != nil && e.sameVal(p.st, p.val, p.src)
	}
	if !ok {
		return ver
	}
	out := was
	for i := len(chain) - 1; i >= 0; i-- {
		c := *chain[i]
		out = e.tt.mk(Term{Op: c.Op, A: append([]*Term{out}, c.A[1:]...), S: c.S, N: c.N, T: c.T})
	}
	return out
}

// without: the table holds the entries of the other one except that of the key
func (e *Engine) without(st *State, ver, was, key *Term, elem types.Type) bool {
	if ver == was {
		return e.notFound(st, was, key)
	}
	if ps, ok := e.tableImage(st, ver, was, elem); ok {
		for _, p := range ps {
			is := p.st.f.norm(e.tt.Eq(p.at, key))
			ok = ok && (p.val == nil && p.st.f.known(is, true) || p.val != nil && p.st.f.known(is, false) && e.sameVal(p.st, p.val, p.src))
		}
		return ok
	}
	// deleted by a loop over the table itself
	info := st.loopOf[ver]
	if info == nil || !info.IsMap || info.Init[ver] != was || len(info.Keys) != len(info.Backs) || !headerExits(info) {
		return false
	}
	for i, v := range info.Back[ver] {
		b := info.Backs[i]
		is := b.f.norm(e.tt.Eq(info.Keys[i], key))
		if !(v == ver && b.f.known(is, false) || v.Op == OMapDel && v.A[0] == ver && b.f.known(is, true) && b.f.norm(v.A[1]) == b.f.norm(info.Keys[i])) {
			return false
		}
	}
	return true
}

// notFound: a loop over the whole table has not met the key
func (e *Engine) notFound(st *State, was, key *Term) bool {
	for ev := st.tr; ev != nil; ev = ev.Prev {
		info := ev.Info
		if ev.Kind != "loopexit" || ev.Mode != 1 || info == nil || !info.IsMap || info.MapVer != was || len(info.Keys) != len(info.Backs) {
			continue
		}
		ok := true
		for i, b := range info.Backs {
			ok = ok && b.f.known(b.f.norm(e.tt.Eq(info.Keys[i], key)), false)
		}
		if ok {
			return true
		}
	}
	return false
}
