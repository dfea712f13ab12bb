package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C36: templates are loaded from the whole of the text or file given ----

func templateLoadCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		T := m.Named("XTemplate")
		text := m.Method("XTemplate", "LoadString")
		if T == nil || text == nil {
			r.errf("%s: the template or its loader was not found", m.Name)
			continue
		}
		u, ok := T.Underlying().(*types.Struct)
		if !ok {
			r.errf("%s: XTemplate is not a struct", m.Name)
			continue
		}
		blank := func(e *Engine, st *State, obj *Term) bool {
			for i := 0; i < u.NumFields(); i++ {
				if isMutex(u.Field(i).Type()) {
					continue
				}
				v := st.f.norm(e.loadField(st, obj, T, i))
				switch u.Field(i).Type().Underlying().(type) {
				case *types.Map:
					if !st.f.isNil(v) && e.mapVer(st, v).Op != OMapEmpty {
						return false
					}
				case *types.Slice:
					if len(e.qsegs(st, v)) > 0 {
						return false
					}
				case *types.Pointer:
					if t := u.Field(i).Type().Underlying().(*types.Pointer).Elem(); !st.f.isNil(v) && (sliceElem(t) == nil || v.Op != OAlloc || len(e.qsegs(st, e.load(st, v, t))) > 0) {
						return false
					}
				default:
					if s, ok := v.strVal(); v.Op != OZero && !(ok && s == "") && !st.f.isNil(v) {
						return false
					}
				}
			}
			return true
		}
		if root := fieldByName(T, "Root"); root >= 0 {
			var args []*Term
			e, outs := r.analyse(m, text, Config{}, func(s *State, as []*Term) { args = as })
			for _, o := range outs {
				if o.Panic || o.St.f.bad || o.Ret == nil || o.St.f.nonNil(o.St.f.norm(o.Ret.A[len(o.Ret.A)-1])) {
					continue
				}
				for _, ev := range flatEvents(o.St.tr.list()) {
					if ev.Kind == "ext" && strings.HasPrefix(ev.Name, "(*regexp.Regexp).Find") && len(ev.A) > 1 {
						r.ob("text-as-given")
						if t := o.St.f.norm(ev.A[1]); !partOf(t, args[1]) {
							r.fail(m, "text-as-given", text, ev.Pos, o.St, "the tokens are looked for in another text than the one given: %s", t.str(4))
						}
					}
				}
				r.ob("own-tokens")
				v := o.St.f.norm(e.loadField(o.St, args[0], T, root))
				if v.Op == OAlloc && e.heldBefore(o.St, o.St.f.norm(e.load(o.St, v, contentType(v))), args[0]) {
					r.fail(m, "own-tokens", text, o.Pos, o.St, "LoadString keeps tokens the template had before")
				}
				if v.Op != OAlloc {
					r.fail(m, "own-tokens", text, o.Pos, o.St, "LoadString can succeed with tokens it has not made from the text: %s", v.str(4))
				}
			}
		}
		to := delegates(m, r, text)
		if fn := m.Func("NewXTemplate"); fn != nil {
			e, outs := r.analyse(m, fn, Config{}, nil)
			for _, o := range outs {
				if o.Panic || o.St.f.bad {
					continue
				}
				r.ob("created")
				if obj := o.St.f.norm(o.Ret.A[0]); obj.Op != OAlloc || !blank(e, o.St, obj) {
					r.fail(m, "created", fn, o.Pos, o.St, "a new template is not empty")
				}
			}
		}
		for _, w := range []struct {
			fn   *ssa.Function
			file bool
		}{{m.Method("XTemplate", "LoadFile"), true}, {m.Func("NewXTemplateFromFile"), true}, {m.Func("NewXTemplateFromString"), false}} {
			if w.fn == nil {
				r.errf("%s: a way to load a template was not found", m.Name)
				continue
			}
			g := &loadWay{m: m, r: r, fn: w.fn, to: to, file: w.file, what: "template", blank: blank}
			switch direct := g.check(); {
			case direct && g.calls == 0:
				r.notes = append(r.notes, m.Name+" "+w.fn.Name()+" reads the text by itself; not judged")
			case direct:
				r.fail(m, "text-loaded", w.fn, w.fn.Pos(), nil, "%s can succeed without loading the text", w.fn.Name())
			}
		}
	}
	r.need("text-loaded", 4)
	r.need("created", 4)
	r.need("own-tokens", 2)
}

// partOf: t is the text or a part of it, possibly cut by a loop
func partOf(t, text *Term) bool {
	for {
		switch {
		case t == text, t.Op == OSym:
			return true
		case t.Op == OConv, t.Op == OPure && (t.S == "substr" || t.S == "bytes"):
			t = t.A[0]
		case t.Op == OSub:
			t = t.A[0]
		default:
			return false
		}
	}
}

// delegates: the loader of the text, and those it hands object and text on to without doing anything else
func delegates(m *Module, r *Report, fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for depth := 0; depth < 5; depth++ {
		var args []*Term
		seen := map[string]*ssa.Function{}
		cfg := Config{Opaque: func(f *ssa.Function) bool {
			if f == fn || f.Pkg != m.SSA || len(f.Params) != len(fn.Params) || !types.Identical(f.Signature.Results(), fn.Signature.Results()) {
				return false
			}
			seen[f.RelString(m.Pkg.Types)] = f
			return true
		}}
		_, outs := r.analyse(m, fn, cfg, func(s *State, as []*Term) { args = as })
		var next *ssa.Function
		for _, o := range outs {
			if o.Panic || o.St.f.bad {
				continue
			}
			var call *Ev
			for _, ev := range flatEvents(o.St.tr.list()) {
				if ev.Kind == "call" && seen[ev.Name] != nil {
					if call != nil {
						return out
					}
					call = ev
				} else if o.St.visibleWrite(ev) {
					return out
				}
			}
			if call == nil || call.Res == nil || o.St.f.norm(call.Res) != o.St.f.norm(resultTerms(o.Ret)[0]) {
				return out
			}
			for i, a := range args {
				if i >= len(call.A) || o.St.f.norm(call.A[i]) != o.St.f.norm(a) {
					return out
				}
			}
			if next != nil && next != seen[call.Name] {
				return out
			}
			next = seen[call.Name]
		}
		if next == nil {
			return out
		}
		out = append(out, next)
		fn = next
	}
	return out
}

// heldBefore: the list contains something that the object held when the method was called
func (e *Engine) heldBefore(st *State, t, obj *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		t.walk(func(x *Term) bool {
			if seen[x] || found {
				return false
			}
			seen[x] = true
			switch {
			case x.Op == OLen:
				return false
			case x.Op == OLoad && rootOf(x.A[0]) == obj:
				found = true
			case x.Op == OAlloc:
				if c, ok := st.content[x]; ok {
					walk(c)
				}
			}
			if info := st.loopOf[x]; info != nil && info.Init[x] != nil {
				walk(info.Init[x])
			}
			return !found
		})
	}
	walk(t)
	return found
}

func init() {
	register("C36", "template loading", "Every way to make a template (from a text, from a file, empty) is analysed over its SSA form with in-package callees in context, except the reader of the text. On each path that can succeed the reader must be called exactly once, on the template that is returned (a new, empty one) or on the receiver, with exactly the text given or the whole content of the file given.", templateLoadCheck)
}
