package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extCall models functions outside the package.
func (e *Engine) extCall(fr *Frame, p *Path, res ssa.Value, f *ssa.Function, args []*Term, rtyp types.Type, pos token.Pos) []*Path {
	tt := e.tt
	st := p.st
	name := f.String()
	done := func(q *Path, r *Term) []*Path {
		if res != nil && r != nil {
			q.env[res] = r
		}
		e.event(q.st, &Ev{Kind: "ext", Name: name, A: args, Res: r, Pos: pos})
		return []*Path{q}
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return e.lock(p, args[0], 2, pos)
	case "(*sync.RWMutex).RLock":
		return e.lock(p, args[0], 1, pos)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return e.unlock(p, args[0], 2, pos)
	case "(*sync.RWMutex).RUnlock":
		return e.unlock(p, args[0], 1, pos)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		mode := 2
		if strings.Contains(name, "TryR") {
			mode = 1
		}
		q := p.clone()
		ps := e.lock(p, args[0], mode, pos)
		for _, r := range ps {
			if res != nil {
				r.env[res] = tt.Bool(true)
			}
		}
		if res != nil {
			q.env[res] = tt.Bool(false)
		}
		return append(ps, q)
	case "time.Now":
		return done(p, e.newSym("now", rtyp))
	case "time.Since":
		return done(p, tt.Sub(e.newSym("now", nil), args[0]))
	case "time.Until":
		return done(p, tt.Sub(args[0], e.newSym("now", nil)))
	case "(time.Time).Add":
		return done(p, tt.Add(args[0], args[1]))
	case "(time.Time).Sub":
		return done(p, tt.Sub(args[0], args[1]))
	case "(time.Time).Before":
		return done(p, tt.LtT(args[0], args[1]))
	case "(time.Time).After":
		return done(p, tt.LtT(args[1], args[0]))
	case "(time.Time).IsZero":
		return done(p, tt.Pure("time.IsZero", rtyp, args[0]))
	case "(time.Time).Equal":
		for i := 0; i < 2; i++ {
			if args[i].Op == OZero {
				return done(p, tt.Pure("time.IsZero", rtyp, args[1-i]))
			}
		}
		return done(p, tt.EqInt(args[0], args[1]))
	case "errors.New", "fmt.Errorf":
		r := e.newSym("error", rtyp)
		st.f.assume(tt.Eq(r, tt.Nil()), false)
		return done(p, r)
	case "strings.Split":
		r := tt.Pure(name, rtyp, args...)
		if s, ok := args[1].strVal(); ok && s != "" {
			lo, hi := (&pathTerms{e: e, st: st, sep: s}).steps(args[0])
			st.f.assume(tt.LeT(tt.Int(lo+1), tt.Len(r)), true)
			if hi < 1<<20 {
				st.f.assume(tt.LeT(tt.Len(r), tt.Int(hi+1)), true)
			}
		}
		return done(p, r)
	case "strings.SplitN":
		r := tt.Pure(name, rtyp, args...)
		if s, ok := args[1].strVal(); ok && s != "" {
			if n, ok := args[2].intVal(); ok && n != 0 {
				lo, hi := (&pathTerms{e: e, st: st, sep: s}).steps(args[0])
				if n > 0 && lo+1 > n {
					lo = n - 1
				}
				st.f.assume(tt.LeT(tt.Int(lo+1), tt.Len(r)), true)
				if hi < 1<<20 {
					st.f.assume(tt.LeT(tt.Len(r), tt.Int(hi+1)), true)
				}
				if n > 0 {
					st.f.assume(tt.LeT(tt.Len(r), tt.Int(n)), true)
				}
			}
		}
		return done(p, r)
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte":
		r := tt.Pure(name, rtyp, args...)
		st.f.assume(tt.LeT(tt.Int(-1), r), true)
		if s, ok := args[1].strVal(); !ok || s != "" {
			st.f.assume(tt.LtT(r, tt.Len(args[0])), true)
			if ok && len(s) > 1 && (name == "strings.Index" || name == "strings.LastIndex") {
				// found: the whole text searched for is there
				q := p.clone()
				st.f.assume(tt.EqInt(r, tt.Int(-1)), true)
				q.st.f.assume(tt.LeT(tt.Int(0), r), true)
				q.st.f.assume(tt.LeT(tt.AddN(r, int64(len(s))), tt.Len(args[0])), true)
				return append(done(p, r), done(q, r)...)
			}
		}
		return done(p, r)
	case "fmt.Sprintf":
		return done(p, sprintf(tt, args[0], seqElems(tt, args[1])))
	case "fmt.Sprint":
		if parts := seqElems(tt, args[0]); len(parts) == 1 {
			return done(p, sprint(tt, parts[0]))
		}
		return done(p, tt.Pure(name, rtyp, seqElems(tt, args[0])...))
	case "fmt.Sprintln":
		return done(p, tt.Pure(name, rtyp, seqElems(tt, args[0])...))
	case "strconv.FormatInt":
		if n, ok := args[1].intVal(); ok && n == 10 {
			return done(p, tt.Pure("strconv.Itoa", rtyp, args[0]))
		}
		return done(p, tt.Pure(name, rtyp, args...))
	case "os.Open", "os.OpenFile", "os.Create":
		q := p.clone()
		file := e.newSym("file", f.Signature.Results().At(0).Type())
		st.f.assume(tt.Eq(file, tt.Nil()), false)
		st.ts[file] = "open"
		err := e.newSym("openerr", f.Signature.Results().At(1).Type())
		q.st.f.assume(tt.Eq(err, tt.Nil()), false)
		r1 := tt.Tuple(file, tt.Nil())
		r2 := tt.Tuple(tt.Nil(), err)
		a := done(p, r1)
		if res != nil {
			q.env[res] = r2
		}
		e.event(q.st, &Ev{Kind: "ext", Name: name, A: args, Res: r2, Pos: pos})
		return append(a, q)
	case "(*os.File).Close":
		if st.ts[args[0]] == "closed" {
			e.event(st, &Ev{Kind: "doubleclose", A: args, Pos: pos})
		}
		st.ts[args[0]] = "closed"
		return done(p, e.newSym("closeerr", rtyp))
	case "bufio.NewScanner", "bufio.NewReader", "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString":
		r := e.newSym(name, rtyp)
		st.f.assume(tt.Eq(r, tt.Nil()), false)
		return done(p, r)
	case "(*bufio.Scanner).Scan":
		e.uniq++
		st.inv[args[0]] = e.uniq
		return done(p, e.newSym("scan", rtyp))
	case "(*bufio.Scanner).Err", "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes":
		return done(p, tt.Pure(name, rtyp, args[0], tt.Int(st.inv[args[0]])))
	case "encoding/xml.Unmarshal", "encoding/json.Unmarshal", "(*encoding/xml.Decoder).Decode":
		if o := args[len(args)-1]; o.Op == OIface {
			e.havocObj(st, o.A[0])
			// the decoder makes the elements of lists of pointers
			if t := contentType(o.A[0]); t != nil {
				if sty, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < sty.NumFields(); i++ {
						if el := sliceElemOrNil(sty.Field(i).Type()); el != nil && isPointer(el) {
							l := e.loadField(st, o.A[0], t, i)
							st.elems[l] = append(append([]elemPred(nil), st.elems[l]...), elemPred{kind: 0})
						}
					}
				}
			}
		}
		return done(p, e.newSym("unmarshalerr", rtyp))
	case "encoding/xml.EscapeText", "encoding/xml.Escape":
		if w := args[0]; w.Op == OIface {
			s := args[1]
			if s.Op == OPure && s.S == "bytes" {
				s = s.A[0]
			}
			e.bufAppend(st, w.A[0], tt.Pure("xml.escape", types.Typ[types.String], s))
		}
		return done(p, e.tupleOrNil(rtyp))
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		s := args[1]
		if s.Op == OPure && s.S == "bytes" {
			s = s.A[0]
		}
		e.bufAppend(st, args[0], s)
		return done(p, e.tupleOrNil(rtyp))
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		s := tt.Pure("char", types.Typ[types.String], args[1])
		if n, ok := args[1].intVal(); ok {
			s = tt.Str(string(rune(n)))
		}
		e.bufAppend(st, args[0], s)
		return done(p, e.tupleOrNil(rtyp))
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return done(p, e.bufContent(st, args[0]))
	case "(*bytes.Buffer).Bytes":
		return done(p, tt.Pure("bytes", rtyp, e.bufContent(st, args[0])))
	case "io.Copy", "(*bytes.Buffer).ReadFrom":
		w := args[0]
		if w.Op == OIface {
			w = w.A[0]
		}
		if w.Op == OAlloc && (typeName(w.T) == "Buffer" || typeName(w.T) == "Builder") {
			all := e.newSym("copied", types.Typ[types.String])
			e.bufAppend(st, w, all)
			args = []*Term{args[0], args[1], all}
			return done(p, e.tupleSym(name, rtyp))
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return done(p, nil)
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return done(p, tt.Len(e.bufContent(st, args[0])))
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if w := args[0]; w.Op == OIface && w.A[0].Op == OAlloc {
			switch name {
			case "io.WriteString":
				e.bufAppend(st, w.A[0], args[1])
			case "fmt.Fprintf":
				e.bufAppend(st, w.A[0], sprintf(tt, args[1], seqElems(tt, args[2])))
			default:
				t := tt.Pure("fmt.Sprint", types.Typ[types.String], seqElems(tt, args[1])...)
				if ps := seqElems(tt, args[1]); len(ps) == 1 && name == "fmt.Fprint" {
					t = sprint(tt, ps[0])
				}
				e.bufAppend(st, w.A[0], t)
			}
		}
		return done(p, e.tupleSym(name, rtyp))
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort":
		s := args[0]
		for s.Op == OIface {
			s = s.A[0]
		}
		st.flags[s] = "sorted"
		if b := seqBase(s); b != nil {
			st.flags[b] = "sorted"
		}
		e.event(st, &Ev{Kind: "sorted", A: []*Term{s}, Pos: pos})
		return done(p, nil)
	case "(*regexp.Regexp).FindAllStringIndex", "(*regexp.Regexp).FindAllStringSubmatch", "(*regexp.Regexp).FindAllStringSubmatchIndex", "(*regexp.Regexp).FindAllString":
		r := tt.Pure(name, rtyp, args...)
		st.f.assume(tt.EqInt(tt.Len(r), tt.mk(Term{Op: OLen, A: []*Term{tt.Pure("regexp.matches", nil, args...)}, T: types.Typ[types.Int]})), true)
		return done(p, r)
	case "regexp.MustCompile":
		r := tt.Pure(name, rtyp, args...)
		st.f.assume(tt.Eq(r, tt.Nil()), false)
		return done(p, r)
	case "strings.Join":
		as := args
		if args[0].Op == OAlloc {
			as = append(append([]*Term{}, args...), tt.Int(st.epoch[args[0]]))
		}
		return done(p, tt.Pure(name, rtyp, as...))
	case "strings.ReplaceAll":
		return done(p, tt.Pure("strings.Replace", rtyp, args[0], args[1], args[2], tt.Int(-1)))
	case "bytes.NewBuffer":
		b := tt.fresh(OAlloc, "buffer", elemType(rtyp))
		return done(p, b)
	}
	if f.Pkg != nil || f.Object() != nil && f.Object().Pkg() != nil {
		path := ""
		if f.Pkg != nil {
			path = f.Pkg.Pkg.Path()
		} else {
			path = f.Object().Pkg().Path()
		}
		switch path {
		case "log":
			return done(p, e.tupleSym("log", rtyp))
		case "strings", "strconv", "unicode", "unicode/utf8", "math", "bytes", "time", "html", "path", "path/filepath", "errors", "golang.org/x/text/language", "regexp", "reflect", "encoding/xml":
			ptr := false
			for _, a := range args {
				if a.Op == OAlloc {
					ptr = true
				}
			}
			if !ptr {
				return done(p, e.pureRes(name, rtyp, args...))
			}
		}
	}
	for _, a := range args {
		for a.Op == OIface {
			a = a.A[0]
		}
		if a.Op == OAlloc {
			e.havocObj(st, a)
			if _, ok := st.pub[a]; !ok {
				st.pub[a] = nil
			}
		}
	}
	return done(p, e.tupleSym(name, rtyp))
}

func (e *Engine) tupleOrNil(rtyp types.Type) *Term {
	if tp, ok := rtyp.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return nil
		}
		return e.tt.Tuple(e.newSym("n", tp.At(0).Type()), e.tt.Nil())
	}
	return e.tt.Nil()
}

func seqElems(tt *TermTab, s *Term) []*Term {
	var out []*Term
	for _, p := range tt.parts(s) {
		if p.Op == OElem {
			x := p.A[0]
			out = append(out, x)
		} else {
			out = append(out, p)
		}
	}
	return out
}

func (e *Engine) bufContent(st *State, a *Term) *Term {
	if v, ok := st.mem[a]; ok && v.Op != OZero {
		return st.f.norm(v)
	}
	if a.Op == OAlloc && st.epoch[a] == 0 {
		return e.tt.Str("")
	}
	return e.tt.mk(Term{Op: OLoad, A: []*Term{a}, N: st.epoch[a], S: "buf", T: types.Typ[types.String]})
}

func (e *Engine) bufAppend(st *State, a, s *Term) {
	st.mem[a] = e.tt.Concat(e.bufContent(st, a), s)
}

// ---- locks ----

func (e *Engine) lock(p *Path, mu *Term, mode int, pos token.Pos) []*Path {
	st := p.st
	kind := "lock"
	if mode == 1 {
		kind = "rlock"
	}
	old := st.locks[mu]
	e.event(st, &Ev{Kind: kind, A: []*Term{mu}, Pos: pos, Mode: old})
	st.locks[mu] = mode
	if e.cfg.Concurrent && mu.Op == OFieldAddr {
		e.havocOwner(st, mu.A[0])
		e.event(st, &Ev{Kind: "acquired", A: []*Term{mu}, Pos: pos})
	}
	return []*Path{p}
}

func (e *Engine) unlock(p *Path, mu *Term, mode int, pos token.Pos) []*Path {
	st := p.st
	kind := "unlock"
	if mode == 1 {
		kind = "runlock"
	}
	e.event(st, &Ev{Kind: kind, A: []*Term{mu}, Pos: pos, Mode: st.locks[mu]})
	delete(st.locks, mu)
	return []*Path{p}
}

// havocOwner: other goroutines may have changed everything the lock of base protects
func (e *Engine) havocOwner(st *State, base *Term) {
	if st.fresh(base) {
		return
	}
	for k := range st.mem {
		if o := st.ownerOfAddr(k, 0); o != nil && o.Base == base {
			if e.cfg.Mutable == nil || e.cfg.Mutable[ownerKey(e, o)] {
				delete(st.mem, k)
			}
		}
	}
	e.uniq++
	st.epoch[base] = e.uniq
	for m := range st.maps {
		if o := st.ownerOfVal(m, 0); o != nil && o.Base == base {
			delete(st.maps, m)
			st.epoch[m] = e.uniq
		}
	}
}

// sprint is the text of one value
func sprint(tt *TermTab, a *Term) *Term {
	if a.Op == OIface {
		switch t := a.T; {
		case t == nil:
		case types.Identical(t, types.Typ[types.String]):
			return a.A[0]
		case types.Identical(t, types.Typ[types.Int]):
			return tt.Pure("strconv.Itoa", types.Typ[types.String], a.A[0])
		}
	}
	return tt.Pure("fmt.Sprint", types.Typ[types.String], a)
}

// sprintf is the concatenation a constant format of plain verbs stands for
func sprintf(tt *TermTab, format *Term, parts []*Term) *Term {
	whole := tt.Pure("fmt.Sprintf", types.Typ[types.String], append([]*Term{format}, parts...)...)
	s, ok := format.strVal()
	if !ok {
		return whole
	}
	res := tt.Str("")
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			res = tt.Concat(res, tt.Str(s))
			break
		}
		if i > 0 {
			res = tt.Concat(res, tt.Str(s[:i]))
		}
		if i+1 >= len(s) {
			return whole
		}
		if s = s[i:]; len(parts) > 0 && (strings.HasPrefix(s, "%#v") || strings.HasPrefix(s, "%+v") || strings.HasPrefix(s, "%q")) {
			n := 1 + strings.IndexAny(s, "vq")
			res = tt.Concat(res, tt.Pure("fmt.Sprintf", types.Typ[types.String], tt.Str(s[:n]), parts[0]))
			s, parts = s[n:], parts[1:]
			continue
		}
		verb := s[1]
		s = s[2:]
		if verb == '%' {
			res = tt.Concat(res, tt.Str("%"))
			continue
		}
		if len(parts) == 0 {
			return tt.Pure("fmt.Sprintf(missing)", types.Typ[types.String], whole.A...)
		}
		t := sprint(tt, parts[0])
		isString := parts[0].Op == OIface && t == parts[0].A[0]
		isInt := t.Op == OPure && t.S == "strconv.Itoa"
		switch {
		case verb == 'v', verb == 's' && isString, verb == 'd' && isInt:
		default:
			return whole
		}
		res = tt.Concat(res, t)
		parts = parts[1:]
	}
	if len(parts) > 0 {
		// more arguments than verbs: the text complains about them
		return tt.Pure("fmt.Sprintf(extra)", types.Typ[types.String], whole.A...)
	}
	return res
}
