package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C26: what depends on the log switch only logs ----

type logTaint struct {
	m    *Module
	vals map[ssa.Value]bool
	fns  map[*ssa.Function]bool // functions whose result is the switch
}

func isLogVar(v ssa.Value) bool {
	g, ok := v.(*ssa.Global)
	return ok && g.Name() == "LOG" && isBoolType(elemType(g.Type()))
}

// taint computes the values that carry the switch
func (lt *logTaint) taint() {
	fns := allFuncs(lt.m)
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value) {
			if !lt.vals[v] {
				lt.vals[v] = true
				changed = true
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL && isLogVar(x.X) || lt.vals[x.X] && x.Op == token.NOT {
							set(x)
						}
						if x.Op == token.MUL {
							if a, ok := x.X.(*ssa.Alloc); ok && lt.vals[a] {
								set(x)
							}
							if a, ok := x.X.(*ssa.FreeVar); ok && lt.vals[a] {
								set(x)
							}
						}
					case *ssa.BinOp:
						if lt.vals[x.X] || lt.vals[x.Y] {
							set(x)
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							if lt.vals[e] && isBoolType(x.Type()) {
								set(x)
							}
						}
					case *ssa.Store:
						if lt.vals[x.Val] {
							if a, ok := x.Addr.(*ssa.Alloc); ok && isBoolType(elemType(a.Type())) {
								set(a)
							}
						}
					case *ssa.Return:
						for _, r := range x.Results {
							if lt.vals[r] && !lt.fns[f] {
								lt.fns[f] = true
								changed = true
							}
						}
					case ssa.CallInstruction:
						c := x.Common()
						g := c.StaticCallee()
						if g == nil || g.Blocks == nil || g.Pkg != lt.m.SSA {
							continue
						}
						for i, a := range c.Args {
							if lt.vals[a] && i < len(g.Params) {
								set(g.Params[i])
							}
						}
						if lt.fns[g] {
							if v := x.Value(); v != nil {
								set(v)
							}
						}
					}
				}
			}
		}
	}
}

// postdom gives the first block every way from a and b meets again; nil if that is the end of the function
func meet(f *ssa.Function, a, b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	n := len(f.Blocks)
	// post-dominator sets; index n is the exit
	pd := make([]map[int]bool, n+1)
	all := map[int]bool{}
	for i := 0; i <= n; i++ {
		all[i] = true
	}
	for i := 0; i < n; i++ {
		pd[i] = all
	}
	pd[n] = map[int]bool{n: true}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			var in map[int]bool
			succ := []int{}
			for _, s := range f.Blocks[i].Succs {
				succ = append(succ, s.Index)
			}
			if len(succ) == 0 {
				succ = []int{n}
			}
			for k, s := range succ {
				if k == 0 {
					in = map[int]bool{}
					for x := range pd[s] {
						in[x] = true
					}
				} else {
					for x := range in {
						if !pd[s][x] {
							delete(in, x)
						}
					}
				}
			}
			in[i] = true
			if len(in) != len(pd[i]) {
				pd[i] = in
				changed = true
			}
		}
	}
	// the common post-dominator that all others post-dominate
	best := n
	for x := range pd[a.Index] {
		if x == n || !pd[b.Index][x] {
			continue
		}
		if best == n || len(pd[x]) > len(pd[best]) {
			best = x
		}
	}
	var p *ssa.BasicBlock
	if best != n {
		p = f.Blocks[best]
	}
	region := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if x == p || region[x] {
			return
		}
		region[x] = true
		for _, s := range x.Succs {
			walk(s)
		}
	}
	walk(a)
	walk(b)
	return p, region
}

func pureCallee(name string) bool {
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "strings.", "strconv.", "time.", "(time.", "errors.", "fmt.Print", "fmt.Fprint", "len", "cap", "runtime.", "(*strings.Builder).", "(*bytes.Buffer)."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func isLogCall(f *ssa.Function) bool {
	return f.Pkg != nil && f.Pkg.Pkg.Path() == "log" || strings.HasPrefix(f.String(), "(*log.Logger)") || f.String() == "os.Stderr"
}

// onlyLogs: the instruction has no effect but on the log; it returns a description otherwise
func (lt *logTaint) onlyLogs(in ssa.Instruction, seen map[*ssa.Function]bool) string {
	switch x := in.(type) {
	case *ssa.Store:
		if localAddr(x.Addr) {
			return ""
		}
		return "a write to memory"
	case *ssa.MapUpdate:
		if _, ok := x.Map.(*ssa.MakeMap); ok {
			return ""
		}
		return "a change of a map"
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
		return "a statement that does more than logging"
	case *ssa.Call:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "append", "print", "println", "min", "max":
				return ""
			}
			return "a call of " + b.Name()
		}
		if c.IsInvoke() {
			switch c.Method.Name() {
			case "String", "GoString", "Error":
				return ""
			}
			if mutators[c.Method.Name()] {
				return "a call of " + c.Method.Name()
			}
			return ""
		}
		g := c.StaticCallee()
		if g == nil {
			return "a call of a function value"
		}
		if isLogCall(g) {
			n := g.Name()
			if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") {
				return "a call of " + g.String()
			}
			return ""
		}
		if pureCallee(g.String()) {
			return ""
		}
		if g.Pkg == lt.m.SSA && g.Blocks != nil {
			if seen[g] {
				return ""
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, i2 := range b.Instrs {
					if s := lt.onlyLogs(i2, seen); s != "" {
						return s + " in " + g.Name()
					}
				}
			}
			return ""
		}
		return "a call of " + g.String()
	}
	return ""
}

func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.MakeSlice:
			return true
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
}

// allocEscapes: a local variable written in the region that is read outside of it
func readOutside(a *ssa.Alloc, region map[*ssa.BasicBlock]bool) bool {
	for _, ref := range *a.Referrers() {
		if !region[ref.Block()] {
			if _, ok := ref.(*ssa.Store); !ok {
				return true
			}
		}
	}
	return false
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func logCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		lt := &logTaint{m: m, vals: map[ssa.Value]bool{}, fns: map[*ssa.Function]bool{}}
		if _, ok := m.SSA.Members["LOG"].(*ssa.Global); !ok {
			r.errf("%s: the log switch was not found", m.Name)
			continue
		}
		lt.taint()
		regionPos := map[token.Pos]bool{}
		for _, f := range allFuncs(m) {
			r.funcs[m.Name+" "+f.RelString(m.Pkg.Types)] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					r.instrs++
					switch x := in.(type) {
					case *ssa.Store:
						if lt.vals[x.Val] && !isLogVar(x.Addr) && !localAddr(x.Addr) {
							r.ob("switch-not-stored")
							r.fail(m, "switch-not-stored", f, x.Pos(), nil, "the log switch is stored in data")
						}
						if isLogVar(x.Addr) && f.Synthetic == "" && f.Name() != "init" {
							r.fail(m, "switch-not-changed", f, x.Pos(), nil, "the package changes the log switch itself")
						}
					case *ssa.MakeInterface:
						_ = x
					case *ssa.Return:
						for _, v := range x.Results {
							if lt.vals[v] && f.Object() != nil && f.Object().Exported() && f.Signature.Results().Len() > 0 {
								r.fail(m, "result-independent", f, x.Pos(), nil, "the result depends on the log switch")
							}
						}
					case *ssa.If:
						if !lt.vals[x.Cond] {
							continue
						}
						r.ob("branch-on-switch")
						p, region := meet(f, b.Succs[0], b.Succs[1])
						for blk := range region {
							for _, i2 := range blk.Instrs {
								if i2.Pos().IsValid() {
									regionPos[i2.Pos()] = true
								}
								r.ob("dependent-instruction")
								if s := lt.onlyLogs(i2, map[*ssa.Function]bool{}); s != "" {
									r.fail(m, "only-logs", f, i2.Pos(), nil, "%s depends on the log switch tested at %s", s, m.Pos(x.Cond.Pos()))
								}
								if st, ok := i2.(*ssa.Store); ok {
									if a := rootAlloc(st.Addr); a != nil && !region[a.Block()] && readOutside(a, region) {
										r.fail(m, "only-logs", f, i2.Pos(), nil, "a variable used outside of the log statements is changed depending on the log switch")
									}
								}
								if ret, ok := i2.(*ssa.Return); ok {
									if !sameReturns(ret, region) {
										r.fail(m, "only-logs", f, i2.Pos(), nil, "the result depends on the log switch tested at %s", m.Pos(x.Cond.Pos()))
									}
								}
								if i2.Parent() != nil {
									if u, ok := i2.(*ssa.UnOp); ok && u.Op == token.ARROW {
										r.fail(m, "only-logs", f, i2.Pos(), nil, "a receive depends on the log switch")
									}
								}
							}
							// loops that end only with the switch
							for _, s := range blk.Succs {
								if s == b {
									r.fail(m, "only-logs", f, x.Pos(), nil, "whether the loop goes on depends on the log switch")
								}
							}
						}
						if p != nil {
							for _, i2 := range p.Instrs {
								phi, ok := i2.(*ssa.Phi)
								if !ok {
									break
								}
								var first ssa.Value
								for k, e := range phi.Edges {
									pr := p.Preds[k]
									if !region[pr] && pr != b {
										continue
									}
									if lt.vals[phi] {
										continue
									}
									if first == nil {
										first = e
									} else if !sameValue(first, e) {
										r.fail(m, "only-logs", f, phi.Pos(), nil, "the value of %s depends on the log switch tested at %s", phi.Comment, m.Pos(x.Cond.Pos()))
									}
								}
							}
						}
					}
				}
			}
		}
		// operations of the log statements that can panic
		cm := newCacheModel(m, &Report{})
		for _, fn := range m.EntryPoints() {
			rec := func(st *State, ev *Ev) {
				if !regionPos[ev.Pos] {
					return
				}
				rule, what, safe, ok := panicRule(ev)
				if !ok || rule == "map-not-nil" {
					return
				}
				r.ob("log-statement-safe")
				if !safe {
					r.fail(m, "log-statement-safe", ev.Fn, ev.Pos, st, "with the log on, %s: %s", rule, what)
				}
			}
			if cm != nil && recvName(fn) == "XCache" {
				run := &cacheRun{cm: cm, r: r, fn: fn, onEvent: rec, logOn: true}
				run.run(nil)
			}
		}
	}
	r.need("branch-on-switch", 2)
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && types.Identical(x.Type(), y.Type()) && (x.Value == nil && y.Value == nil || x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString())
}

// sameReturns: every return of the region gives the same values
func sameReturns(r *ssa.Return, region map[*ssa.BasicBlock]bool) bool {
	for b := range region {
		if len(b.Instrs) == 0 {
			continue
		}
		o, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i := range o.Results {
			if !sameValue(o.Results[i], r.Results[i]) {
				return false
			}
		}
	}
	return true
}

func init() {
	register("C26", "logging", "Control dependence on the log switch over the whole package: the values that carry the switch are computed through calls, variables and results; for each branch on them, every instruction executed before both sides meet again must only compute and log, and no variable, result or stored value may differ between the sides. Log statements of the cache must not panic either.", logCheck)
}
