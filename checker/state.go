package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Ev is one observable action on a path of the analysed code.
type Ev struct {
	Prev *Ev
	Kind string // lock, rlock, unlock, runlock, load, store, mapput, mapdel, mapget, maprange, invoke, usercall, call, sort, alias...
	A    []*Term
	Name string // callee, method, field
	Pos  token.Pos
	Fn   *ssa.Function
	Res  *Term
	Info *LoopInfo
	Mode int // lock mode of the guard at this moment, when relevant
}

func (ev *Ev) list() []*Ev {
	var out []*Ev
	for x := ev; x != nil; x = x.Prev {
		out = append(out, x)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type Forall struct {
	S, Idx *Term
	Atom   *Term
	Val    bool
	Info   *LoopInfo
}

// State is one disjunct of the abstract state at a program point.
type State struct {
	e       *Engine
	mem     map[*Term]*Term
	maps    map[*Term]*Term
	epoch   map[*Term]int64
	inv     map[*Term]int64
	flags   map[*Term]string
	content map[*Term]*Term
	locks   map[*Term]int // mutex address -> 1 read, 2 write
	deferU  map[*Term]int // deferred unlocks
	ghost   map[string]*Term
	pub     map[*Term]*Term
	alias   map[*Term]bool // objects made here that a variable of a loop may mean
	orig    map[*Term]*Term
	loopOf  map[*Term]*LoopInfo
	ts      map[*Term]string
	elems   map[*Term][]elemPred // what holds for every element of a slice
	foralls []Forall
	f       *Facts
	tr      *Ev
	mon     interface{ cloneMon() interface{} }
}

func newState(e *Engine) *State {
	return &State{e: e, mem: map[*Term]*Term{}, maps: map[*Term]*Term{}, epoch: map[*Term]int64{}, inv: map[*Term]int64{}, flags: map[*Term]string{}, content: map[*Term]*Term{},
		locks: map[*Term]int{}, deferU: map[*Term]int{}, ghost: map[string]*Term{}, pub: map[*Term]*Term{}, alias: map[*Term]bool{}, orig: map[*Term]*Term{}, loopOf: map[*Term]*LoopInfo{}, ts: map[*Term]string{}, elems: map[*Term][]elemPred{}, f: newFacts(e.tt)}
}

func cpTT(m map[*Term]*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}
func cpTI(m map[*Term]int64) map[*Term]int64 {
	n := make(map[*Term]int64, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}
func cpTS(m map[*Term]string) map[*Term]string {
	n := make(map[*Term]string, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}
func cpTi(m map[*Term]int) map[*Term]int {
	n := make(map[*Term]int, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	n := &State{e: s.e, mem: cpTT(s.mem), maps: cpTT(s.maps), epoch: cpTI(s.epoch), inv: cpTI(s.inv), flags: cpTS(s.flags), content: cpTT(s.content),
		locks: cpTi(s.locks), deferU: cpTi(s.deferU), ghost: make(map[string]*Term, len(s.ghost)), pub: cpTT(s.pub), alias: make(map[*Term]bool, len(s.alias)), orig: cpTT(s.orig), loopOf: make(map[*Term]*LoopInfo, len(s.loopOf)), ts: cpTS(s.ts), f: s.f.clone(), tr: s.tr}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k := range s.alias {
		n.alias[k] = true
	}
	for k, v := range s.loopOf {
		n.loopOf[k] = v
	}
	n.elems = make(map[*Term][]elemPred, len(s.elems))
	for k, v := range s.elems {
		n.elems[k] = v
	}
	n.foralls = append([]Forall(nil), s.foralls...)
	if s.mon != nil {
		n.mon = s.mon.cloneMon().(interface{ cloneMon() interface{} })
	}
	return n
}

// rootOf returns the base object of an address
func rootOf(a *Term) *Term {
	for a.Op == OFieldAddr || a.Op == OIndexAddr {
		a = a.A[0]
	}
	return a
}

// fresh: the object was allocated on this path and nobody else can see it
func (s *State) fresh(a *Term) bool {
	r := rootOf(a)
	if r.Op != OAlloc {
		return false
	}
	_, p := s.pub[r]
	return !p
}

func elemType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// contentType of an address term
func contentType(a *Term) types.Type {
	switch a.Op {
	case OAlloc, OGlobal:
		return a.T
	case OFieldAddr, OIndexAddr:
		return a.T
	}
	if a.T != nil {
		return elemType(a.T)
	}
	return nil
}

// ---- provenance: which lock-owning object an address or a value belongs to ----

type Owner struct {
	Base  *Term      // pointer to the lock-owning struct
	Type  types.Type // its type
	Field int        // field of the owner the location is reached from
	Inner string     // further description: "" the field itself, "[]" its content, "entry.<n>" a field of an object it holds
	Ent   types.Type // type of the held object, for entry fields
	EntF  int
}

// lockField returns the index of the mutex field of a struct type, or -1
func lockField(t types.Type) int {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < u.NumFields(); i++ {
		if isMutex(u.Field(i).Type()) {
			return i
		}
	}
	return -1
}

func isMutex(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
}

func structTypeOf(a *Term) types.Type { // for FieldAddr
	t, _ := a.Ref.(types.Type)
	return t
}

// ownerOfAddr finds the lock-owning object of an address
func (s *State) ownerOfAddr(a *Term, depth int) *Owner {
	if depth > 12 || a == nil {
		return nil
	}
	switch a.Op {
	case OFieldAddr:
		st := structTypeOf(a)
		b := a.A[0]
		if st != nil && lockField(st) >= 0 {
			if s.fresh(b) {
				return nil
			}
			return &Owner{Base: b, Type: st, Field: int(a.N)}
		}
		// field of an embedded struct / of an object held by a container
		var o *Owner
		if b.Op == OFieldAddr || b.Op == OIndexAddr {
			o = s.ownerOfAddr(b, depth+1)
		} else {
			o = s.ownerOfVal(b, depth+1)
		}
		if o != nil && st != nil {
			c := *o
			c.Inner = "entry"
			c.Ent = st
			c.EntF = int(a.N)
			return &c
		}
		return o
	case OIndexAddr:
		o := s.ownerOfVal(a.A[0], depth+1)
		if o != nil {
			c := *o
			c.Inner = "[]"
			return &c
		}
		return nil
	}
	return nil
}

// ownerOfVal: the value is (part of) the content of a field of a lock-owning object
func (s *State) ownerOfVal(v *Term, depth int) *Owner {
	if depth > 12 || v == nil {
		return nil
	}
	if p, ok := s.pub[v]; ok && p != nil {
		return s.ownerOfAddr(p, depth+1)
	}
	switch v.Op {
	case OLoad:
		return s.ownerOfAddr(v.A[0], depth+1)
	case OLookup:
		return s.ownerOfVal(verObj(v.A[0]), depth+1)
	case OIndex:
		return s.ownerOfVal(v.A[0], depth+1)
	case OSub, OCat:
		for _, a := range v.A {
			if a.Op == OElem {
				continue
			}
			if o := s.ownerOfVal(a, depth+1); o != nil {
				return o
			}
		}
	case OSym:
		if o, ok := s.orig[v]; ok {
			return s.ownerOfVal(o, depth+1)
		}
	}
	return nil
}

// verObj returns the map object of a map version
func verObj(v *Term) *Term {
	for {
		switch v.Op {
		case OMapPut, OMapDel:
			v = v.A[0]
		case OMapInit, OMapSym, OMapEmpty:
			if len(v.A) > 0 {
				return v.A[0]
			}
			return nil
		default:
			return nil
		}
	}
}
