package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- rendering of templates: C16, C17, C18, C27, C28, C29 ----

// rendering is the abstract behaviour of the function that renders one template: one iteration per token
type rendering struct {
	m       *Module
	r       *Report
	fn      *ssa.Function // entered from Execute, called again for nested templates
	e       *Engine
	outs    []Outcome
	tmpl    *Term
	col     *Term // scopes
	lang    *Term
	param   types.Type // a token
	bufs    []*Term    // buffers of the caller
	params  []*Term
	lookups map[string]bool
}

// callees: functions of the package a function calls directly
func callees(m *Module, f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g != nil && g.Blocks != nil && !seen[g] && (g.Pkg == m.SSA || g.Parent() != nil) {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				add(c.Common().StaticCallee())
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					add(g)
				}
			}
		}
	}
	return out
}

func reaches(m *Module, from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		for _, g := range callees(m, f) {
			if g == to {
				return true
			}
			if !seen[g] {
				seen[g] = true
				if walk(g) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

func isTemplatePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == "XTemplate"
}

// lookupFn: a function that finds a sub-template by name
func lookupFn(m *Module, f *ssa.Function) bool {
	s := f.Signature
	if f.Name() == "GetTemplate" && recvName(f) == "XTemplate" {
		return true
	}
	if len(f.Params) != 2 || s.Results().Len() != 1 || !isTemplatePtr(f.Params[0].Type()) || !isStringType(f.Params[1].Type()) || !isTemplatePtr(s.Results().At(0).Type()) {
		return false
	}
	gt := m.Method("XTemplate", "GetTemplate")
	return gt != nil && reaches(m, gt, f)
}

// newRendering finds and analyses the renderer
func newRendering(m *Module, r *Report) *rendering {
	ex := m.Method("XTemplate", "Execute")
	if ex == nil {
		r.errf("%s: Execute not found", m.Name)
		return nil
	}
	g := &rendering{m: m, r: r, lookups: map[string]bool{}}
	// first function on a cycle, in breadth
	queue, seen := []*ssa.Function{ex}, map[*ssa.Function]bool{ex: true}
	for len(queue) > 0 && g.fn == nil {
		f := queue[0]
		queue = queue[1:]
		has := false
		for _, p := range f.Params {
			has = has || isTemplatePtr(p.Type())
		}
		if has && !lookupFn(m, f) && reaches(m, f, f) {
			g.fn = f
			break
		}
		for _, c := range callees(m, f) {
			if !seen[c] {
				seen[c] = true
				queue = append(queue, c)
			}
		}
	}
	if g.fn == nil {
		r.errf("%s: the function that renders nested templates was not found", m.Name)
		return nil
	}
	cfg := Config{
		Opaque: func(f *ssa.Function) bool {
			n := recvName(f)
			if lookupFn(m, f) {
				g.lookups[f.RelString(m.Pkg.Types)] = true
				return true
			}
			return n == "XLanguage" || strings.HasPrefix(n, "XDatasetCollection")
		},
		Derefs: true,
	}
	g.e, g.outs = r.analyse(m, g.fn, cfg, func(st *State, args []*Term) {
		g.params = args
		for i, p := range g.fn.Params {
			switch g.role(p.Type()) {
			case 't':
				if g.tmpl == nil {
					g.tmpl = args[i]
				}
				st.f.assume(st.e.tt.Eq(args[i], st.e.tt.Nil()), false)
			case 'c':
				g.col = args[i]
			case 'l':
				g.lang = args[i]
			case 's':
				g.col, g.lang = g.context(st, args[i], p.Type())
			default:
				if n := typeName(elemType(p.Type())); n == "Builder" || n == "Buffer" {
					g.bufs = append(g.bufs, args[i])
				}
			}
		}
	})
	if g.tmpl == nil || g.col == nil || g.lang == nil {
		r.errf("%s: the parameters of %s were not recognised", m.Name, g.fn.Name())
		return nil
	}
	n := m.Named("XTemplateParam")
	if n == nil {
		r.errf("%s: XTemplateParam not found", m.Name)
		return nil
	}
	g.param = n
	return g
}

// ---- the meaning of events and terms ----

type scopeErr struct {
	ev  *Ev
	msg string
}

// view is a state seen with the vocabulary of the rules: scopes, data, templates, rendered texts
type view struct {
	g     *rendering
	st    *State
	scope []*Term // opened on top of the scope of the template
	errs  []scopeErr
	texts map[*Term]*Term // of the calls that render
}

func (v *view) scopeTerm() *Term {
	tt := v.g.e.tt
	t := v.g.col
	for _, s := range v.scope {
		t = tt.Pure("scope", nil, t, v.canon(s))
	}
	return t
}

// canon relates the ways of cutting the text of a token and returns the representative of a term
func (v *view) canon(t *Term) *Term {
	f, tt := v.st.f, v.g.e.tt
	p := &pathTerms{e: v.g.e, st: v.st, sep: ":"}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || f.bad {
			return
		}
		seen[t] = true
		for _, a := range t.A {
			walk(a)
		}
		c := t
		switch {
		case t.Op == OIndex, t.Op == OExtract, t.Op == OPure && (t.S == "strings.Join" || t.S == "substr"):
			c = p.canon(t)
		}
		if c.Op == OPure && c.S == "path.first" {
			// the first step of a text without separator is the text
			k, n := c.A[0], int64(0)
			for k.Op == OPure && k.S == "path.rest" {
				k, n = k.A[0], n+1
			}
			if _, hi := p.steps(k); hi == n {
				f.assume(tt.Eq(c, c.A[0]), true)
			}
		}
		if c != t && c.Op == OPure && strings.HasPrefix(c.S, "path.") {
			f.assume(tt.Eq(t, c), true)
		}
	}
	walk(f.norm(t))
	return f.norm(t)
}

// newData describes a dataset made on the spot by its content
func (v *view) newData(t *Term) *Term {
	e := v.g.e
	b := t
	for b.Op == OIface {
		b = b.A[0]
	}
	if b.Op != OAlloc {
		return t
	}
	m, ok := v.st.mem[b]
	if !ok {
		return t
	}
	ver := e.mapVer(v.st, v.st.f.norm(m))
	var kv []*Term
	for ver != nil && ver.Op == OMapPut {
		kv = append(kv, ver.A[1], v.canon(ver.A[2]))
		ver = ver.A[0]
	}
	if ver == nil || ver.Op != OMapEmpty && ver.Op != OMapInit || len(kv) == 0 {
		return t
	}
	return e.tt.Pure("newdata", nil, kv...)
}

// see reads the trace of a state
func (g *rendering) see(st *State) *view {
	st = st.clone()
	v := &view{g: g, st: st, texts: map[*Term]*Term{}}
	e, tt := g.e, g.e.tt
	eq := func(raw, canon *Term) {
		if raw != nil && canon != nil {
			st.f.assume(tt.Eq(raw, canon), true)
		}
	}
	for _, ev := range st.tr.list() {
		switch ev.Kind {
		case "reccall":
			if !g.renders(ev) {
				continue
			}
			t := g.rendered(v, ev)
			v.texts[resultTerms(ev.Res)[0]] = t
			eq(resultTerms(ev.Res)[0], t)
		case "call", "invoke":
			name := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
			if len(ev.A) == 0 {
				continue
			}
			recv := st.f.norm(ev.A[0])
			rt := resultTerms(ev.Res)
			var args []*Term
			for _, a := range ev.A[1:] {
				args = append(args, v.canon(a))
			}
			switch {
			case ev.Kind == "call" && g.lookups[ev.Name]:
				eq(rt[0], g.template(recv, args[0]))
			case recv == st.f.norm(g.col):
				switch name {
				case "Push":
					v.scope = append(v.scope, v.newData(st.f.norm(ev.A[1])))
				case "Pop":
					if len(v.scope) == 0 {
						v.errs = append(v.errs, scopeErr{ev, "closes a scope it did not open"})
					} else {
						v.scope = v.scope[:len(v.scope)-1]
					}
				case "Unshift", "Shift", "Set", "Del":
					v.errs = append(v.errs, scopeErr{ev, "changes the scopes with " + name})
				default:
					for i, x := range rt {
						eq(x, tt.Pure(fmt.Sprintf("%s#%d", name, i), x.T, append([]*Term{v.scopeTerm()}, args...)...))
					}
				}
			default:
				for i, x := range rt {
					if ev.Kind == "invoke" && mutators[name] {
						continue
					}
					eq(x, tt.Pure(fmt.Sprintf("%s#%d", name, i), x.T, append([]*Term{recv}, args...)...))
				}
			}
		}
	}
	_ = e
	return v
}

// renders: the call renders another template
func (g *rendering) renders(ev *Ev) bool {
	return ev.Name == g.fn.RelString(g.m.Pkg.Types) && len(resultTerms(ev.Res)) > 0
}

func (g *rendering) template(t, name *Term) *Term {
	return g.e.tt.Pure("template", nil, t, name)
}

func (g *rendering) rendered(v *view, ev *Ev) *Term {
	tt := g.e.tt
	t, col, lang := g.args(v.st, ev)
	if col == v.st.f.norm(g.col) {
		col = v.scopeTerm()
	} else {
		col = tt.Pure("foreign", nil, col)
	}
	return g.text(t, col, lang)
}

func (g *rendering) text(t, scope, lang *Term) *Term {
	return g.e.tt.Pure("rendered", types.Typ[types.String], t, scope, lang)
}

func (g *rendering) role(t types.Type) byte {
	switch n := typeName(elemType(t)); {
	case isTemplatePtr(t):
		return 't'
	case strings.HasPrefix(n, "XDatasetCollection"):
		return 'c'
	case n == "XLanguage":
		return 'l'
	}
	if c, l := contextFields(t); c >= 0 && l >= 0 {
		return 's'
	}
	return 0
}

// contextFields: the scopes and the language in a structure
func contextFields(t types.Type) (col, lang int) {
	col, lang = -1, -1
	if u, ok := elemType(t).Underlying().(*types.Struct); ok && typeName(t) != "XTemplate" {
		for i := 0; i < u.NumFields(); i++ {
			switch n := typeName(elemType(u.Field(i).Type())); {
			case strings.HasPrefix(n, "XDatasetCollection"):
				col = i
			case n == "XLanguage":
				lang = i
			}
		}
	}
	return col, lang
}

func (g *rendering) context(st *State, a *Term, t types.Type) (col, lang *Term) {
	c, l := contextFields(t)
	e, u := st.e, elemType(t)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		st.f.assume(e.tt.Eq(a, e.tt.Nil()), false)
		return e.loadField(st, a, u, c), e.loadField(st, a, u, l)
	}
	us := u.Underlying().(*types.Struct)
	return e.tt.Field(a, c, us.Field(c).Type()), e.tt.Field(a, l, us.Field(l).Type())
}

// flat cuts a text or a list of texts into its pieces; a loop that adds pieces is its header symbol
func (g *rendering) flat(st *State, t *Term, depth int) []*Term {
	t = st.f.norm(t)
	if depth > 20 {
		return []*Term{t}
	}
	if s, ok := t.strVal(); ok && s == "" {
		return nil
	}
	each := func(ts []*Term) []*Term {
		var out []*Term
		for _, a := range ts {
			out = append(out, g.flat(st, a, depth+1)...)
		}
		return out
	}
	switch t.Op {
	case ONil, OZero:
		return nil
	case OConcat, OCat:
		return each(t.A)
	case OElem:
		return g.flat(st, t.A[0], depth+1)
	case OPure:
		if t.S == "strings.Join" {
			if s, ok := t.A[1].strVal(); ok && s == "" {
				return g.flat(st, t.A[0], depth+1)
			}
		}
		if t.S == "copyof" {
			return g.flat(st, t.A[0], depth+1)
		}
	case OSym, OAlloc:
		if info := st.loopOf[t]; info != nil {
			return append(g.flat(st, info.Init[t], depth+1), t)
		}
	}
	if c := g.e.resolveSeq(st, t); c != t {
		return g.flat(st, c, depth+1)
	}
	return []*Term{t}
}

// ---- the rules ----

// spec evaluates the rules of one token on a path; conditions the path leaves open are taken both ways
type spec struct {
	v    *view
	dec  []bool
	open int
	skip bool // the rules do not say
	out  []*Term
	kind string
	log  []string
}

func (s *spec) is(c *Term, what string) bool {
	f := s.v.st.f
	c = f.norm(c)
	if b, k := f.eval(c); k {
		return b
	}
	return s.fork(what, func(b bool) { f.assume(c, b) })
}

func (s *spec) fork(what string, do func(bool)) bool {
	if s.open == len(s.dec) {
		s.dec = append(s.dec, true)
	}
	b := s.dec[s.open]
	s.open++
	do(b)
	if b {
		s.log = append(s.log, what)
	} else {
		s.log = append(s.log, "not ("+what+")")
	}
	return b
}

func (s *spec) tt() *TermTab { return s.v.g.e.tt }

func (s *spec) some(t *Term, what string) bool {
	return !s.is(s.tt().Eq(t, s.tt().Nil()), "no "+what)
}

// parts: the number of parts of the text is n (or at least n)
func (s *spec) parts(data *Term, n int64, atLeast bool) bool {
	p := &pathTerms{e: s.v.g.e, st: s.v.st, sep: ":"}
	lo, hi := p.steps(data)
	lo, hi = lo+1, hi+1
	if atLeast {
		if lo >= n {
			return true
		}
		if hi < n {
			return false
		}
	} else {
		if lo == n && hi == n {
			return true
		}
		if hi < n || lo > n {
			return false
		}
	}
	tt := s.tt()
	l := tt.Len(tt.Pure("strings.Split", types.NewSlice(types.Typ[types.String]), data, tt.Str(":")))
	c := tt.EqInt(l, tt.Int(n))
	if atLeast {
		c = tt.LeT(tt.Int(n), l)
	}
	return s.is(c, fmt.Sprintf("the token has %d parts", n))
}

func (s *spec) part(data *Term, n int64) *Term {
	p := &pathTerms{e: s.v.g.e, st: s.v.st, sep: ":"}
	return s.v.canon(p.first(p.restN(data, n)))
}

func (s *spec) tmpl(parts ...*Term) *Term {
	n := s.tt().Str("")
	for _, p := range parts {
		n = s.tt().Concat(n, p)
	}
	return s.v.st.f.norm(s.v.g.template(s.v.g.tmpl, s.v.canon(n)))
}

func (s *spec) query(name string, i int, args ...*Term) *Term {
	return s.v.st.f.norm(s.tt().Pure(fmt.Sprintf("%s#%d", name, i), nil, args...))
}

func (s *spec) isData(v *Term) bool {
	n := s.v.g.m.Named("XDatasetDef")
	if n == nil {
		return false
	}
	return s.is(s.tt().mk(Term{Op: OTypeIs, A: []*Term{s.v.st.f.norm(v)}, T: n}), "the value is a dataset")
}

func (s *spec) render(t, scope *Term) {
	s.out = append(s.out, s.v.g.text(t, scope, s.v.g.lang))
}

// token: what a token of the given kind and data renders
func (s *spec) token(kind string, data *Term) {
	g, tt := s.v.g, s.tt()
	base := g.col
	str := tt.Str
	names := func() (*Term, *Term) {
		id := s.part(data, 0)
		if s.parts(data, 2, true) {
			return id, s.part(data, 1)
		}
		return id, id
	}
	switch kind {
	case "MetaString":
		s.out = append(s.out, data)
	case "MetaComment":
	case "MetaLanguage":
		if s.some(g.lang, "language") {
			s.out = append(s.out, s.query("Get", 0, g.lang, data))
		}
	case "MetaVariable":
		if s.some(base, "data") {
			s.out = append(s.out, s.query("GetDataString", 0, base, data))
		}
	case "MetaDump":
		if s.some(base, "data") && (s.is(tt.Eq(data, str("dump")), `the token is "dump"`) || s.is(tt.Eq(data, str("list")), `the token is "list"`)) {
			if d := s.query("Get", 0, base, tt.Int(0)); s.some(d, "dataset") {
				s.out = append(s.out, s.query("GoString", 0, d))
			}
		}
	case "MetaReference":
		if s.parts(data, 3, false) {
			prefix := s.part(data, 2)
			t := s.tmpl(prefix)
			if s.some(base, "data") {
				if x := s.tmpl(prefix, s.query("GetDataString", 0, base, s.part(data, 1))); s.some(x, "template for the value") {
					t = x
				}
			}
			if s.some(t, "template") {
				s.render(t, base)
			}
			return
		}
		t := s.tmpl(s.part(data, 0))
		if !s.some(t, "template") {
			return
		}
		scope := base
		if s.parts(data, 2, false) && s.some(base, "data") {
			if d := s.query("GetData", 0, base, s.part(data, 1)); s.isData(d) {
				scope = tt.Pure("scope", nil, base, d)
			}
		}
		s.render(t, scope)
	case "MetaRange":
		id, sub := names()
		t := s.tmpl(sub)
		if !s.some(t, "template") || !s.some(base, "data") {
			return
		}
		cl := s.query("GetCollection", 0, base, id)
		if s.some(cl, "collection") && s.is(tt.LtT(tt.Int(0), s.query("Count", 0, cl)), "there are elements") {
			s.out = append(s.out, tt.Pure("each", nil, cl))
			return
		}
		if x := s.tmpl(sub, str(".none")); s.some(x, ".none template") {
			t = x
		}
		s.render(t, base)
	case "MetaCondition":
		id, sub := names()
		t := s.tmpl(sub)
		value := tt.Nil()
		if s.some(base, "data") {
			value = s.query("GetData", 0, base, id)
		}
		text := tt.Str("")
		isSet := s.some(value, "value")
		if isSet {
			text = s.v.canon(sprint(tt, value))
			isSet = !s.is(tt.Eq(text, str("")), "the value is empty")
		}
		data := isSet || !s.v.st.f.isNil(value)
		if data && s.some(value, "value") {
			data = s.isData(value)
		} else {
			data = false
		}
		switch {
		case data && (!isSet || g.m.Name == "v1"):
			s.skip = true
		case isSet:
			if !s.some(t, "template") {
				return
			}
			scope := base
			if data {
				text = str("array")
				scope = tt.Pure("scope", nil, base, value)
			}
			if x := s.tmpl(sub, str("."), text); s.some(x, "template for the value") {
				t = x
			}
			s.render(t, scope)
		default:
			if x := s.tmpl(sub, str(".none")); s.some(x, ".none template") {
				s.render(x, base)
			} else {
				s.skip = true
			}
		}
	default:
		s.skip = true
	}
}

// element: what the element i of the collection of a loop renders
func (s *spec) element(data, i *Term) {
	g, tt := s.v.g, s.tt()
	base := g.col
	id := s.part(data, 0)
	sub := id
	if s.parts(data, 2, true) {
		sub = s.part(data, 1)
	}
	cl := s.query("GetCollection", 0, base, id)
	cnt := s.query("Count", 0, cl)
	el := s.query("Get", 0, cl, i)
	if !s.some(el, "element") {
		return
	}
	str := tt.Str
	t := s.tmpl(sub)
	pick := func(what string, parts ...*Term) bool {
		x := s.tmpl(append([]*Term{sub}, parts...)...)
		if s.some(x, what+" template") {
			t = x
			return true
		}
		return false
	}
	switch {
	case pick(".key", str(".key."), tt.Pure("strconv.Itoa", types.Typ[types.String], i)):
	case s.is(tt.EqInt(i, tt.Int(0)), "first element") && pick(".first", str(".first")):
	case s.is(tt.EqInt(i, tt.AddN(cnt, -1)), "last element") && pick(".last", str(".last")):
	case s.even(i) && pick(".even", str(".even")):
	}
	scope := tt.Pure("scope", nil, base, el)
	if g.m.Name != "v1" {
		one := tt.mk(Term{Op: OIface, A: []*Term{tt.AddN(i, 1)}, T: types.Typ[types.Int]})
		scope = tt.Pure("scope", nil, scope, tt.Pure("newdata", nil, str(".counter"), one))
	}
	s.render(t, scope)
}

// even: the parity of the index, however it was computed
func (s *spec) even(i *Term) bool {
	f, tt := s.v.st.f, s.tt()
	if n, ok := f.norm(i).intVal(); ok {
		return n%2 == 0
	}
	for d := int64(0); d < 2; d++ {
		for r := int64(0); r < 2; r++ {
			for k, op := range []string{"&", "%"} {
				x := tt.mk(Term{Op: OBin, S: op, A: []*Term{f.norm(tt.AddN(i, d)), tt.Int(int64(k + 1))}, T: types.Typ[types.Int]})
				if val, ok := f.eval(f.norm(tt.EqInt(x, tt.Int(r)))); ok {
					return ((r-d)%2 == 0) == val
				}
			}
		}
	}
	return s.is(tt.EqInt(tt.mk(Term{Op: OBin, S: "%", A: []*Term{i, tt.Int(2)}, T: types.Typ[types.Int]}), tt.Int(0)), "even element")
}

// compare checks the pieces of a path against the rules under every choice of the conditions left open
func (g *rendering) compare(r *Report, rule func(kind string) (prop, name string), v *view, pieces func(v *view) []*Term, run func(s *spec), fn *ssa.Function, pos func() *Ev, info *LoopInfo) {
	var dec []bool
	for n := 0; n < 400; n++ {
		w := *v
		w.st = v.st.clone()
		s := &spec{v: &w, dec: dec}
		run(s)
		dec = s.dec[:s.open]
		if prop, name := rule(s.kind); prop != "" && !w.st.f.bad {
			r.ob(name)
			if !s.skip {
				got, want := pieces(&w), s.out
				if prop == "C17" {
					got, want = w.scopesOf(got), w.scopesOf(want)
					if len(got) != len(want) {
						got, want = nil, nil
					}
				}
				ok := len(got) == len(want)
				for i := 0; ok && i < len(got); i++ {
					w.canon(got[i])
					w.canon(want[i])
					ok = w.st.f.norm(got[i]) == w.st.f.norm(want[i])
				}
				if !ok {
					p := info.Pos
					if ev := pos(); ev != nil {
						p = ev.Pos
					}
					cond := ""
					if len(s.log) > 0 {
						cond = " when " + strings.Join(s.log, ", ")
					}
					verb := "renders"
					if prop == "C17" {
						verb = "renders a sub-template in the scope"
					}
					r.fail(g.m, name, fn, p, v.st, "%s %s, the rules give %s%s", verb, w.show(got), w.show(want), cond)
				}
			}
		}
		// next choice
		for len(dec) > 0 && !dec[len(dec)-1] {
			dec = dec[:len(dec)-1]
		}
		if len(dec) == 0 {
			return
		}
		dec = append(append([]bool(nil), dec[:len(dec)-1]...), false)
	}
	r.errf("%s: too many cases in %s", g.m.Name, fn.Name())
}

// scopesOf: the scopes of the sub-templates rendered
func (v *view) scopesOf(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if x, ok := v.texts[t]; ok {
			t = x
		}
		if t.Op == OPure && t.S == "rendered" {
			out = append(out, t.A[1])
		}
	}
	return out
}

func (v *view) show(ts []*Term) string {
	if len(ts) == 0 {
		return "nothing"
	}
	var out []string
	for _, t := range ts {
		if x, ok := v.texts[t]; ok {
			t = x
		}
		out = append(out, t.str(6))
	}
	return strings.Join(out, " + ")
}

var kinds = []string{"MetaString", "MetaComment", "MetaLanguage", "MetaReference", "MetaRange", "MetaCondition", "MetaDump", "MetaVariable"}

var kindRules = map[string][2]string{
	"MetaString": {"C18", "token-text"}, "MetaComment": {"C18", "token-comment"}, "MetaLanguage": {"C18", "token-language"},
	"MetaVariable": {"C18", "token-field"}, "MetaDump": {"C18", "token-dump"},
	"MetaReference": {"C29", "reference"}, "MetaRange": {"C27", "loop"}, "MetaCondition": {"C30", "condition"},
}

// the scope of what a token renders
var scopeRules = map[string]string{"MetaReference": "scope-reference", "MetaRange": "scope-loop", "MetaCondition": "scope-condition"}

// tokens checks each path of the rendering of a token
func (g *rendering) tokens(prop string, visit func(v *view, start int, what string, info *LoopInfo)) {
	m, r, e, tt := g.m, g.r, g.e, g.e.tt
	rule := func(kind string) (string, string) {
		if prop == "C17" {
			if name, ok := scopeRules[kind]; ok {
				return prop, name
			}
			return "", ""
		}
		if k, ok := kindRules[kind]; ok && k[0] == prop {
			return k[0], k[1]
		}
		return "", ""
	}
	root := fieldByName(m.Named("XTemplate"), "Root")
	done := map[*LoopInfo]bool{}
	for _, o := range g.outs {
		if o.Panic {
			continue
		}
		if root >= 0 {
			x := e.loadField(o.St, g.tmpl, m.Named("XTemplate"), root)
			if o.St.f.isNil(x) {
				continue
			}
		}
		var ret *Term
		if rt := resultTerms(o.Ret); len(rt) > 0 {
			ret = rt[0]
		} else {
			for _, p := range g.bufs {
				ret = e.bufContent(o.St, p)
			}
		}
		if ret == nil {
			r.errf("%s: the text %s renders was not found", m.Name, g.fn.Name())
			return
		}
		ps := g.flat(o.St, ret, 0)
		if len(ps) > 0 && len(g.bufs) > 0 && ps[0].Op == OLoad {
			ps = ps[1:]
		}
		var info *LoopInfo
		if len(ps) == 1 {
			info = o.St.loopOf[ps[0]]
		}
		var it *iterOver
		if info != nil {
			for _, x := range e.over(o.St, info) {
				x := x
				if x.seq != nil && x.step == 1 && typeName(sliceElem(x.seq.T)) == "XTemplateParam" && x.seq.contains(g.tmpl) {
					it = &x
				}
			}
		}
		if prop == "C18" {
			r.ob("all-tokens")
		}
		if it == nil {
			if prop == "C18" {
				r.fail(m, "all-tokens", g.fn, o.Pos, o.St, "returns %s, not the texts of all the tokens in their order", (&view{g: g}).show(ps))
			} else if visit == nil && prop != "C17" {
				r.notes = append(r.notes, m.Name+": a result is not made of the texts of all the tokens")
			}
			if info == nil {
				continue
			}
		}
		if it == nil || done[info] {
			continue
		}
		done[info] = true
		acc := ps[0]
		for i, bs := range info.Backs {
			st := bs
			i := i
			v := g.see(st)
			tok := e.index(v.st, it.seq, it.idx, g.param)
			pt := tt.Field(tok, fieldByName(g.param, "ParamType"), types.Typ[types.Int])
			data := v.st.f.norm(tt.Field(tok, fieldByName(g.param, "Data"), types.Typ[types.String]))
			if visit != nil {
				visit(v, 0, "token", info)
			}
			var inner []*Term
			pieces := func(w *view) []*Term {
				ps := g.flat(w.st, info.Back[acc][i], 0)
				if len(ps) == 0 || ps[0] != acc {
					return append([]*Term{tt.Str("<without what came before>")}, ps...)
				}
				var out []*Term
				for _, p := range ps[1:] {
					if in := w.st.loopOf[p]; in != nil {
						if cl := g.elements(w, in, data); cl != nil {
							p = tt.Pure("each", nil, cl)
						}
					}
					out = append(out, p)
				}
				return out
			}
			for _, p := range g.flat(v.st, info.Back[acc][i], 0) {
				if p != acc && v.st.loopOf[p] != nil {
					inner = append(inner, p)
				}
			}
			last := func() *Ev { return lastRender(g, info.Events[i]) }
			kindOf := func(s *spec) {
				for _, k := range kinds {
					c := m.constInt(k)
					if c == nil {
						continue
					}
					if s.is(tt.EqInt(pt, tt.Int(*c)), "the token is a "+k) {
						s.kind = k
						break
					}
				}
			}
			g.compare(r, rule, v, pieces, func(s *spec) {
				kindOf(s)
				s.token(s.kind, data)
			}, g.fn, last, info)
			for _, p := range inner {
				in := v.st.loopOf[p]
				idx := g.position(in)
				for j, ibs := range in.Backs {
					j := j
					iv := g.see(ibs)
					if visit != nil {
						visit(iv, 0, "element", in)
					}
					if prop != "C27" && prop != "C17" || idx == nil {
						continue
					}
					g.compare(r, func(kind string) (string, string) {
						switch {
						case kind != "MetaRange":
							return "", ""
						case prop == "C17":
							return prop, "scope-element"
						}
						return prop, "element"
					}, iv, func(w *view) []*Term {
						ps := g.flat(w.st, in.Back[p][j], 0)
						if len(ps) == 0 || ps[0] != p {
							return append([]*Term{tt.Str("<without what came before>")}, ps...)
						}
						return ps[1:]
					}, func(s *spec) {
						kindOf(s)
						s.element(data, idx)
					}, g.fn, func() *Ev { return lastRender(g, in.Events[j]) }, in)
				}
			}
		}
	}
}

// position: the index of the element a loop is at
func (g *rendering) position(info *LoopInfo) *Term {
	tt := g.e.tt
	var syms []*Term
	for s := range info.Init {
		syms = append(syms, s)
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].ID < syms[j].ID })
	for _, s := range syms {
		if !isIntType(s.T) {
			continue
		}
		if sym, step := info.induction(tt, s); sym != nil && step == 1 {
			if _, ok := info.Init[s].intVal(); ok {
				return tt.Sub(s, info.Init[s])
			}
		}
	}
	return nil
}

// elements: the collection a loop takes all the elements of, in their order
func (g *rendering) elements(w *view, info *LoopInfo, data *Term) *Term {
	tt := g.e.tt
	for _, x := range info.Exits {
		if x.Kind != xPanic && !x.Header {
			return nil
		}
	}
	idx := g.position(info)
	if idx == nil {
		return nil
	}
	s := &spec{v: w}
	cl := s.query("GetCollection", 0, g.col, s.part(data, 0))
	cnt := s.query("Count", 0, cl)
	if !w.st.f.known(tt.LeT(cnt, idx), true) {
		return nil
	}
	return cl
}

func lastRender(g *rendering, evs []*Ev) *Ev {
	var last *Ev
	for _, ev := range evs {
		if ev.Kind == "reccall" || last == nil && (ev.Kind == "call" || ev.Kind == "invoke") {
			last = ev
		}
	}
	return last
}

func renderCheck(prop string) func(c *Ctx, r *Report) {
	return func(c *Ctx, r *Report) {
		for _, m := range c.each() {
			g := newRendering(m, r)
			if g == nil {
				continue
			}
			if prop == "C17" {
				g.scopes()
			}
			g.tokens(prop, nil)
			if prop == "C18" {
				g.execute()
				recognition(m, r)
			}
		}
		switch prop {
		case "C18":
			r.need("execute", 2)
			r.need("execute-data", 2)
			r.need("execute-language", 2)
			for _, k := range kinds {
				if kindRules[k][0] == "C18" {
					r.need(kindRules[k][1], 2)
				}
			}
		case "C27":
			r.need("loop", 8)
			r.need("element", 8)
		case "C29":
			r.need("reference", 8)
		case "C30":
			r.need("condition", 8)
		}
	}
}

// scopes: each scope opened is closed before the next token or element, and before the end
func (g *rendering) scopes() {
	r := g.r
	check := func(st *State, what string, pos func() *Ev, at *LoopInfo) {
		v := g.see(st)
		r.ob("balanced-" + what)
		fn := g.fn
		for _, x := range v.errs {
			r.fail(g.m, "balanced-"+what, fn, x.ev.Pos, st, "%s", x.msg)
		}
		if n := len(v.scope); n > 0 {
			p := g.fn.Pos()
			if ev := pos(); ev != nil {
				p = ev.Pos
			} else if at != nil {
				p = at.Pos
			}
			r.fail(g.m, "balanced-"+what, fn, p, st, "%d scope(s) opened here are still open at the end of the %s", n, what)
		}
	}
	push := func(evs []*Ev) func() *Ev {
		return func() *Ev {
			var last *Ev
			for _, ev := range evs {
				if strings.HasSuffix(ev.Name, "Push") {
					last = ev
				}
			}
			return last
		}
	}
	seen := map[*LoopInfo]bool{}
	var loops func(evs []*Ev)
	loops = func(evs []*Ev) {
		for _, ev := range evs {
			if ev.Kind != "loopexit" || ev.Info == nil || seen[ev.Info] {
				continue
			}
			seen[ev.Info] = true
			for i, bs := range ev.Info.Backs {
				check(bs, "iteration", push(ev.Info.Events[i]), ev.Info)
				loops(ev.Info.Events[i])
			}
		}
	}
	for _, o := range g.outs {
		if o.Panic {
			continue
		}
		evs := o.St.tr.list()
		check(o.St, "rendering", push(evs), nil)
		loops(evs)
	}
	r.need("balanced-iteration", 20)
	r.need("balanced-rendering", 1)
}

func init() {
	how := " Abstract interpretation of the function that renders a template: one abstract iteration per token and per element of a loop, for each combination of conditions the path leaves open. "
	register("C17", "The scope stack of a template execution is balanced", how+"Scopes opened and closed are counted along every path (invariant at the loop headers), and the scope in which each sub-template is rendered is compared with the one the rules of the language give.", renderCheck("C17"))
	register("C18", "Every kind of template token is recognised and injected by its own rule", how+"The text a path adds for a text, comment, language, field or dump token must be the one the rules of the language give, for every token in order. Execution: the text returned is the one of the renderer for this template, the data given and the language found in it. Recognition: the alternatives of the pattern are parsed and compared with the forms of the language (opening and closing marks, characters of names, shortest end); each path of the loop over the matches must give the token the kind and the name of the alternative that matched; the text before, between and after matches is kept.", renderCheck("C18"))
	register("C27", "Loops choose the most specific sub-template of each element", how+"The sub-template and scope a path renders for a loop token and for its element at an arbitrary position must be those of the rules.", renderCheck("C27"))
	register("C29", "A reference inserts the right sub-template with the right data", how+"The sub-template and scope a path renders for a reference token must be those of the rules.", renderCheck("C29"))
	register("C30", "A condition inserts the sub-template that belongs to the value", how+"The sub-template and scope a path renders for a condition token must be those of the rules.", renderCheck("C30"))
}

// constInt is the value of an exported integer constant of the package
func (m *Module) constInt(name string) *int64 {
	c, ok := m.Pkg.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	n, ok := constant.Int64Val(constant.ToInt(c.Val()))
	if !ok {
		return nil
	}
	return &n
}
