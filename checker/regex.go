package main

import (
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what is known about the results of regular expression searches ----

// rePattern: the constant pattern of a compiled expression
func rePattern(re *Term) (string, bool) {
	if re != nil && re.Op == OPure && re.S == "regexp.MustCompile" && len(re.A) == 1 {
		return re.A[0].strVal()
	}
	if re != nil && re.Op == OExtract && re.A[0].Op == OPure && re.A[0].S == "regexp.Compile" {
		return re.A[0].A[0].strVal()
	}
	return "", false
}

var reMemo = map[string]int{}

// reGroups: number of capturing groups, -1 if unknown
func reGroups(re *Term) int {
	s, ok := rePattern(re)
	if !ok {
		return -1
	}
	if n, ok := reMemo[s]; ok {
		return n
	}
	n := -1
	if x, err := syntax.Parse(s, syntax.Perl); err == nil {
		n = x.MaxCap()
	}
	reMemo[s] = n
	return n
}

// reResult: t is one match out of all the matches of a search; kind is the name of the search
func reMatch(t *Term) (search *Term, kind string) {
	if t == nil || t.Op != OIndex {
		return nil, ""
	}
	p := t.A[0]
	if p.Op != OPure || !strings.HasPrefix(p.S, "(*regexp.Regexp).FindAll") {
		return nil, ""
	}
	return p, strings.TrimPrefix(p.S, "(*regexp.Regexp).FindAll")
}

// reLen: length of one match
func reLen(t *Term) (int64, bool) {
	p, kind := reMatch(t)
	if p == nil {
		return 0, false
	}
	switch kind {
	case "StringIndex", "Index":
		return 2, true
	case "StringSubmatch", "Submatch":
		if n := reGroups(p.A[0]); n >= 0 {
			return int64(n + 1), true
		}
	case "StringSubmatchIndex", "SubmatchIndex":
		if n := reGroups(p.A[0]); n >= 0 {
			return int64(2*n + 2), true
		}
	}
	return 0, false
}

// reFacts: positions of a match lie in the text, in order
func (e *Engine) reFacts(st *State, b, i *Term) {
	p, kind := reMatch(b)
	if p == nil || !strings.HasSuffix(kind, "Index") {
		return
	}
	tt := e.tt
	n, ok := i.intVal()
	if !ok || n > 1 {
		return
	}
	at := func(k int64) *Term {
		return tt.mk(Term{Op: OIndex, A: []*Term{b, tt.Int(k)}, N: st.epoch[b], T: types.Typ[types.Int]})
	}
	st.f.assume(tt.LeT(tt.Int(0), at(0)), true)
	st.f.assume(tt.LeT(at(0), at(1)), true)
	st.f.assume(tt.LeT(at(1), tt.Len(p.A[1])), true)
}

// reImplies: whenever group a takes part in a match, group b does
func reImplies(re *Term, a, b int) bool {
	s, ok := rePattern(re)
	if !ok {
		return false
	}
	x, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return false
	}
	var must func(re *syntax.Regexp, out map[int]bool)
	must = func(re *syntax.Regexp, out map[int]bool) {
		switch re.Op {
		case syntax.OpCapture:
			out[re.Cap] = true
		case syntax.OpConcat, syntax.OpPlus:
		default:
			return
		}
		for _, y := range re.Sub {
			must(y, out)
		}
	}
	for _, seq := range alternatives(x) {
		all, sure := map[int]bool{}, map[int]bool{}
		for _, y := range seq {
			captures(y, all)
			must(y, sure)
		}
		if all[a] && !sure[b] {
			return false
		}
	}
	return true
}

// reGroupFacts: the positions of a group that takes part in a match lie in the text, in order
func (e *Engine) reGroupFacts(st *State, b, lo, hi *Term) {
	tt := e.tt
	if lo.Op != OIndex || hi.Op != OIndex || lo.A[0] != hi.A[0] {
		return
	}
	p, kind := reMatch(lo.A[0])
	if p == nil || !strings.HasSuffix(kind, "SubmatchIndex") || p.A[1] != b {
		return
	}
	i, ok1 := lo.A[1].intVal()
	j, ok2 := hi.A[1].intVal()
	if !ok1 || !ok2 || i%2 != 0 || j != i+1 {
		return
	}
	for k := 0; k <= reGroups(p.A[0]); k++ {
		if k > 0 {
			q := tt.mk(Term{Op: OIndex, A: []*Term{lo.A[0], tt.Int(int64(2 * k))}, N: lo.N, T: types.Typ[types.Int]})
			if !st.f.known(tt.LeT(tt.Int(0), q), true) {
				continue
			}
		}
		if k == 0 && i != 0 || k > 0 && !reImplies(p.A[0], k, int(i/2)) {
			continue
		}
		st.f.assume(tt.LeT(tt.Int(0), lo), true)
		st.f.assume(tt.LeT(lo, hi), true)
		st.f.assume(tt.LeT(hi, tt.Len(b)), true)
		return
	}
}

// globalRegexp: a package variable that is only assigned once, at initialisation, with a compiled constant pattern
func (e *Engine) globalRegexp(name string) *Term {
	g, _ := e.m.SSA.Members[name].(*ssa.Global)
	if g == nil {
		return nil
	}
	if e.m.regs == nil {
		e.m.regs = map[string]*ssa.Const{}
		bad := map[string]bool{}
		for _, f := range allFuncs(e.m) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					gl, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					if e.m.regs[gl.Name()] != nil {
						bad[gl.Name()] = true
					}
					c, ok := st.Val.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "regexp.MustCompile" {
						bad[gl.Name()] = true
						continue
					}
					k, ok := c.Call.Args[0].(*ssa.Const)
					if !ok {
						bad[gl.Name()] = true
						continue
					}
					e.m.regs[gl.Name()] = k
				}
			}
		}
		for n := range bad {
			delete(e.m.regs, n)
		}
	}
	k := e.m.regs[name]
	if k == nil {
		return nil
	}
	return e.tt.Pure("regexp.MustCompile", elemType(g.Type()), e.tt.Const(k.Value, k.Type()))
}

// allFuncs lists every function of the package, with its initialiser and closures
func allFuncs(m *Module) []*ssa.Function {
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	for _, mem := range m.SSA.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			walk(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := m.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == m.SSA {
						walk(f)
					}
				}
			}
		}
	}
	return fns
}

// neverNil: the function returns something that is not nil on each return (for results of recursive calls)
func neverNil(m *Module, f *ssa.Function, res int) bool {
	return neverNilIn(m, f, res, map[*ssa.Function]map[int]bool{})
}

func neverNilIn(m *Module, f *ssa.Function, res int, busy map[*ssa.Function]map[int]bool) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	if busy[f][res] {
		// if every other return is not nil, so is what a recursive call returns
		return true
	}
	if busy[f] == nil {
		busy[f] = map[int]bool{}
	}
	busy[f][res] = true
	var ok func(v ssa.Value, seen map[ssa.Value]bool) bool
	ok = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.FieldAddr, *ssa.MakeClosure, *ssa.Function:
			return true
		case *ssa.Parameter:
			// what every call in the package passes
			vs := m.passed(x)
			for _, v := range vs {
				if !ok(v, seen) {
					return false
				}
			}
			return len(vs) > 0
		case *ssa.MakeInterface:
			return true
		case *ssa.ChangeType:
			return ok(x.X, seen)
		case *ssa.ChangeInterface:
			return ok(x.X, seen)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !ok(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Call:
			return neverNilIn(m, x.Call.StaticCallee(), 0, busy)
		case *ssa.Extract:
			c, isc := x.Tuple.(*ssa.Call)
			return isc && neverNilIn(m, c.Call.StaticCallee(), x.Index, busy)
		case *ssa.UnOp:
			// a variable that keeps its address, perhaps captured by closures
			if x.Op != token.MUL {
				return false
			}
			cell := variableOf(x.X)
			return cell != nil && onlyStores(cell, func(v ssa.Value) bool { return ok(v, seen) }) && setBeforeUse(cell)
		}
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, isr := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isr {
			continue
		}
		n++
		if res >= len(r.Results) || !ok(r.Results[res], map[ssa.Value]bool{}) {
			return false
		}
	}
	return n > 0
}

// passed: the values all calls give to the parameter of a private function, none if it is used otherwise than by being called
func (m *Module) passed(p *ssa.Parameter) []ssa.Value {
	f := p.Parent()
	if f.Parent() != nil || f.Object() == nil || f.Object().Exported() {
		return nil
	}
	n := -1
	for i, q := range f.Params {
		if q == p {
			n = i
		}
	}
	var out []ssa.Value
	for _, g := range allFuncs(m) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var cc *ssa.CallCommon
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc = ci.Common()
				}
				for _, op := range in.Operands(nil) {
					if *op == f && (cc == nil || op != &cc.Value) {
						return nil
					}
				}
				if cc != nil && cc.StaticCallee() == f {
					if n < 0 || n >= len(cc.Args) {
						return nil
					}
					out = append(out, cc.Args[n])
				}
			}
		}
	}
	return out
}

// variableOf: the variable behind an address, also when it is captured by a closure
func variableOf(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			mc := closureOf(x.Parent())
			if mc == nil {
				return nil
			}
			v = nil
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					v = mc.Bindings[i]
				}
			}
		default:
			return nil
		}
	}
}

// closureOf: the one place where the function literal becomes a value
func closureOf(f *ssa.Function) *ssa.MakeClosure {
	var out *ssa.MakeClosure
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				if out != nil {
					return nil
				}
				out = mc
			}
		}
	}
	return out
}

// onlyStores: the variable is only read and written as a whole, and each value written is accepted
func onlyStores(addr ssa.Value, accept func(ssa.Value) bool) bool {
	if addr.Referrers() == nil {
		return false
	}
	for _, u := range *addr.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if u.Addr != addr || !accept(u.Val) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == addr && !onlyStores(u.Fn.(*ssa.Function).FreeVars[i], accept) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// setBeforeUse: a write of the variable comes before every other use of it
func setBeforeUse(a *ssa.Alloc) bool {
	place := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	for _, s := range *a.Referrers() {
		st, ok := s.(*ssa.Store)
		if !ok {
			continue
		}
		first := true
		for _, u := range *a.Referrers() {
			if u == s || u.Block() == nil {
				continue
			}
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if u.Block() == st.Block() {
				first = first && place(st) < place(u)
			} else {
				first = first && st.Block().Dominates(u.Block())
			}
		}
		if first {
			return true
		}
	}
	return false
}

type reProg struct {
	search, idx, sym *Term
	n1, n2           int64
	t1               types.Type
}

// reProgress: the header quantity h starts at 0 and is, after an iteration, the end (or the begin) of the match of that iteration;
// the iterations visit the matches in order. Matches do not overlap: h is at most the begin of the next match.
func (e *Engine) reProgress(st *State, info *LoopInfo, init, h *Term) *reProg {
	if n, ok := init.intVal(); !ok || n > 0 {
		return nil
	}
	var out *reProg
	for _, b := range info.Back[h] {
		if b == h {
			continue
		}
		if b.Op != OIndex {
			return nil
		}
		if n, ok := b.A[1].intVal(); !ok || n > 1 {
			return nil
		}
		p, kind := reMatch(b.A[0])
		if p == nil || !strings.HasSuffix(kind, "Index") {
			return nil
		}
		idx := b.A[0].A[1]
		sym, step := info.induction(e.tt, idx)
		if sym == nil || step != 1 {
			return nil
		}
		if first, ok := st.f.norm(substTerm(e.tt, idx, sym, info.Init[sym])).intVal(); !ok || first != 0 {
			return nil
		}
		if out != nil && (out.search != p || out.idx != idx) {
			return nil
		}
		out = &reProg{search: p, idx: idx, sym: sym, n1: b.A[0].N, n2: b.N, t1: b.A[0].T}
	}
	return out
}
