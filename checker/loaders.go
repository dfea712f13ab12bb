package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C19, C20: loading ----

// loaders: entry points that report an error
func loaders(m *Module) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range m.EntryPoints() {
		rs := fn.Signature.Results()
		if n := rs.Len(); n > 0 && isErrorType(rs.At(n-1).Type()) {
			out = append(out, fn)
		}
	}
	return out
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// flatEvents lists the events of a path with those of the iterations of the loops it went through
func flatEvents(evs []*Ev) []*Ev {
	var out []*Ev
	for _, ev := range evs {
		out = append(out, ev)
		if ev.Kind == "loopexit" && ev.Info != nil {
			for _, b := range ev.Info.Events {
				out = append(out, flatEvents(b)...)
			}
		}
	}
	return out
}

// visible: the object existed before the call, or is reachable from something that did
func (s *State) visible(t *Term, depth int) bool {
	if t == nil || depth > 20 {
		return false
	}
	switch t.Op {
	case OFieldAddr, OIndexAddr, OSub, OIface, OAssert, OField, OIndex, OLoad:
		return s.visible(t.A[0], depth+1)
	case OLookup, OMapInit, OMapSym:
		return s.visible(verObj(t.A[0]), depth+1) || s.visible(t.A[0], depth+1)
	case OMapPut, OMapDel:
		return s.visible(verObj(t), depth+1)
	case OCat:
		for _, a := range t.A {
			if a.Op != OElem && s.visible(a, depth+1) {
				return true
			}
		}
	case OGlobal:
		return true
	case OSym:
		if strings.HasPrefix(t.S, "param:") {
			return true
		}
		if o, ok := s.orig[t]; ok && o != t {
			return s.visible(o, depth+1)
		}
	}
	return false
}

// visibleWrite: the event changes memory that existed before the call
func (s *State) visibleWrite(ev *Ev) bool {
	switch ev.Kind {
	case "store":
		return s.visible(ev.A[0], 0)
	case "mapput", "mapdel", "mapclear":
		return s.visible(ev.A[0], 0)
	case "copy", "appendto":
		return s.visible(ev.A[0], 0)
	case "invoke":
		return mutators[ev.Name] && s.visible(ev.A[0], 0)
	}
	return false
}

// notFault: errors of these functions are not failures of loading
func notFault(name string) bool {
	for _, p := range []string{"errors.", "fmt.", "log.", "golang.org/x/text/language.", "(*bufio.Reader).", "strconv.", "encoding/xml.Escape"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ".Close") || strings.Contains(name, ").Write")
}

// faultOf: the error a step of loading ends with
func faultOf(e *Engine, st *State, ev *Ev) (*Term, string) {
	if ev.Kind != "ext" || ev.Res == nil {
		return nil, ""
	}
	if ev.Name == "(*bufio.Scanner).Scan" {
		return nil, ""
	}
	if notFault(ev.Name) {
		return nil, ""
	}
	rs := resultTerms(ev.Res)
	if len(rs) == 0 {
		return nil, ""
	}
	last := rs[len(rs)-1]
	if ev.Name == "os.Open" || ev.Name == "os.OpenFile" || last.T != nil && isErrorType(last.T) {
		return last, ev.Name
	}
	return nil, ""
}

func init() {
	register("C19", "failed loads", "Every entry point that returns an error is analysed. Obligations: at each exit, each step of loading whose failure is possible on the path (open, read, scan, parse) is known to have succeeded or the error is returned; no memory that existed before the call is written on a path that returns an error; constructors return no object with an error; a scan that ended is asked for its error; a list used as a stack of open parts is empty when success is returned.", loadCheck)
	register("C20", "files are closed", "Typestate of each file opened on each abstract path of each entry point: at each exit it must have been closed.", func(c *Ctx, r *Report) {
		n := 0
		for _, m := range c.each() {
			for _, fn := range loaders(m) {
				n++
				_, outs := r.analyse(m, fn, Config{}, nil)
				for _, o := range outs {
					r.ob("exit-without-open-file")
					for f, s := range o.St.ts {
						if s != "open" {
							continue
						}
						r.fail(m, "exit-without-open-file", fn, o.Pos, o.St, "returns without closing the file opened on this path (%s)", f.str(2))
					}
				}
			}
		}
		if n < 10 {
			r.errf("only %d loading functions found", n)
		}
	})
}

func loadCheck(c *Ctx, r *Report) {
	n := 0
	for _, m := range c.each() {
		for _, fn := range loaders(m) {
			n++
			e, outs := r.analyse(m, fn, Config{}, nil)
			ctor := fn.Signature.Recv() == nil
			for _, o := range outs {
				if o.Panic || o.Ret == nil {
					continue
				}
				st := o.St
				res := st.f.norm(o.Ret.A[len(o.Ret.A)-1])
				okRes := st.f.isNil(res)
				badRes := st.f.nonNil(res)
				evs := flatEvents(st.tr.list())
				// failures
				reported := func(f *Term) bool {
					f = st.f.norm(f)
					return st.f.isNil(f) || badRes || res == f
				}
				for _, ev := range st.tr.list() {
					if f, name := faultOf(e, st, ev); f != nil {
						r.ob("failure-reported")
						if !reported(f) {
							r.fail(m, "failure-reported", fn, ev.Pos, st, "the error of %s is not tested nor returned on a path that returns at %s", name, m.Pos(o.Pos))
						}
					}
					if ev.Kind == "loopexit" && ev.Info != nil {
						loopFaults(m, r, fn, e, st, ev.Info)
						for _, s := range stacksOf(e, ev.Info) {
							r.ob("open-parts-closed")
							l := st.f.norm(e.tt.Len(s))
							if okRes && !st.f.known(e.tt.EqInt(l, e.tt.Int(0)), true) && ev.Mode == 1 {
								r.fail(m, "open-parts-closed", fn, o.Pos, st, "success is returned without knowing that each part opened in the loop at %s was ended", m.Pos(ev.Info.Pos))
							}
						}
					}
				}
				for _, ev := range evs {
					if ev.Kind == "ext" && ev.Name == "(*bufio.Scanner).Scan" {
						r.ob("scan-error-asked")
						f := st.f.norm(e.tt.Pure("(*bufio.Scanner).Err", types.Universe.Lookup("error").Type(), ev.A[0], e.tt.Int(st.inv[ev.A[0]])))
						if !reported(f) {
							r.fail(m, "scan-error-asked", fn, o.Pos, st, "success is returned without asking the scanner for an error that ended the scan")
						}
					}
				}
				// nothing changed before a failure
				if !okRes {
					r.ob("no-change-with-error")
					for _, ev := range evs {
						if st.visibleWrite(ev) {
							r.fail(m, "no-change-with-error", fn, ev.Pos, st, "the object is changed at %s on a path that can return an error at %s", m.Pos(ev.Pos), m.Pos(o.Pos))
						}
					}
					if ctor && len(o.Ret.A) > 1 {
						r.ob("no-object-with-error")
						obj := st.f.norm(o.Ret.A[0])
						if !st.f.isNil(obj) {
							r.fail(m, "no-object-with-error", fn, o.Pos, st, "an object is returned together with an error")
						}
					}
				} else {
					r.ob("success")
				}
			}
		}
	}
	if n < 10 {
		r.errf("only %d loading functions found", n)
	}
	r.need("failure-reported", 6)
	r.need("no-change-with-error", 10)
}

// loopFaults: a failing step inside a loop must end the iteration
func loopFaults(m *Module, r *Report, fn *ssa.Function, e *Engine, st *State, info *LoopInfo) {
	for i, evs := range info.Events {
		if i >= len(info.Backs) {
			break
		}
		b := info.Backs[i]
		for _, ev := range evs {
			if f, name := faultOf(e, b, ev); f != nil {
				r.ob("failure-reported")
				if !b.f.isNil(b.f.norm(f)) {
					r.fail(m, "failure-reported", fn, ev.Pos, b, "the loop goes on after an error of %s", name)
				}
			}
		}
	}
}

// stacksOf: lists that some iterations make longer by one and others shorter by one
func stacksOf(e *Engine, info *LoopInfo) []*Term {
	var out []*Term
	for s := range info.Init {
		if s.T == nil {
			continue
		}
		if _, ok := s.T.Underlying().(*types.Slice); !ok {
			continue
		}
		grow, shrink := false, false
		for i, b := range info.Back[s] {
			d, ok := info.Backs[i].f.norm(e.tt.Sub(e.tt.Len(b), e.tt.Len(s))).intVal()
			if ok && d > 0 {
				grow = true
			}
			if ok && d < 0 {
				shrink = true
			}
		}
		if grow && shrink {
			out = append(out, s)
		}
	}
	return out
}
