package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C31: language tables hold what was set and loaded ----

type langCheck struct {
	m    *Module
	r    *Report
	lr   *langRoles
	u    *types.Struct
	text types.Type
}

func languageCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		lr := findLangRoles(m, r)
		if lr == nil {
			continue
		}
		g := &langCheck{m: m, r: r, lr: lr, u: lr.typ.Underlying().(*types.Struct), text: types.Typ[types.String]}
		g.change("Set", lr.entries, true)
		g.change("SetStatus", lr.status, true)
		g.change("Del", lr.entries, false)
		g.answer("Get", lr.entries)
		g.answer("GetStatus", lr.status)
		g.field("SetName", "GetName", lr.name)
		g.field("SetLanguage", "GetLanguage", lr.tag)
		g.entries()
		g.created()
		g.loading()
		if fn := m.Method("XLanguage", "LoadXMLString"); fn != nil {
			xmlReader(m, r, fn, lr)
		}
	}
	r.need("entry-set", 2)
	r.need("entry-deleted", 1)
	r.need("entry-read", 2)
	r.need("line-stored", 1)
	r.need("line-ignored", 2)
	r.need("text-loaded", 4)
}

// tables lists the fields that are tables
func (g *langCheck) tables() []int {
	out := []int{g.lr.entries}
	if g.lr.status >= 0 {
		out = append(out, g.lr.status)
	}
	return out
}

// unchanged: the table holds the same under a key as before
func (g *langCheck) unchanged(e *Engine, st *State, before, after, key *Term) bool {
	if before == after {
		return true
	}
	b, a := e.hasTerm(st, before, key), e.hasTerm(st, after, key)
	return st.f.norm(b) == st.f.norm(a) && st.f.norm(e.lookupTerm(st, before, key, g.text)) == st.f.norm(e.lookupTerm(st, after, key, g.text))
}

// change: the method sets or deletes the entry of its first argument and nothing else
func (g *langCheck) change(name string, at int, put bool) {
	fn := g.m.Method("XLanguage", name)
	if fn == nil || at < 0 {
		if name == "Set" {
			g.r.errf("%s: no method Set of the language table", g.m.Name)
		}
		return
	}
	rule := "entry-set"
	if !put {
		rule = "entry-deleted"
	}
	var args []*Term
	before := map[int]*Term{}
	fields := map[int]*Term{}
	e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) {
		args = as
		for _, i := range g.tables() {
			before[i] = s.e.mapVer(s, s.f.norm(s.e.loadField(s, as[0], g.lr.typ, i)))
		}
		for _, i := range []int{g.lr.name, g.lr.tag} {
			fields[i] = s.e.loadField(s, as[0], g.lr.typ, i)
		}
	})
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St.clone()
		other := e.newSym("other", g.text)
		st.f.assume(e.tt.Eq(other, args[1]), false)
		for _, i := range g.tables() {
			obj := st.f.norm(e.loadField(st, args[0], g.lr.typ, i))
			ver := e.mapVer(st, obj)
			was := before[i]
			if was.Op == OMapInit && st.f.isNil(was.A[0]) {
				was = e.mapVer(st, e.tt.Nil())
			}
			ver = e.uncopied(st, ver, was, g.text)
			if !put && e.without(st, ver, was, args[1], g.text) {
				g.r.ob("others-unchanged")
				g.r.ob(rule)
				continue
			}
			g.r.ob("others-unchanged")
			if !g.unchanged(e, st, was, ver, other) {
				g.r.fail(g.m, "others-unchanged", fn, o.Pos, st, "%s changes the %s of other entries", name, g.u.Field(i).Name())
			}
			mine := i == at || !put
			if !mine {
				g.r.ob("others-unchanged")
				if !g.unchanged(e, st, was, ver, args[1]) {
					g.r.fail(g.m, "others-unchanged", fn, o.Pos, st, "%s changes the %s of the entry", name, g.u.Field(i).Name())
				}
				continue
			}
			g.r.ob(rule)
			has := e.hasTerm(st, ver, args[1])
			switch {
			case put && (!st.f.known(has, true) || !e.sameVal(st, e.lookupTerm(st, ver, args[1], g.text), args[2])):
				g.r.fail(g.m, rule, fn, o.Pos, st, "after %s the %s do not hold the value under the name", name, g.u.Field(i).Name())
			case !put && !st.f.known(has, false):
				g.r.fail(g.m, rule, fn, o.Pos, st, "after %s the %s still hold something under the name", name, g.u.Field(i).Name())
			}
		}
		for i, v := range fields {
			g.r.ob("others-unchanged")
			if !e.sameVal(st, e.loadField(st, args[0], g.lr.typ, i), v) {
				g.r.fail(g.m, "others-unchanged", fn, o.Pos, st, "%s changes the %s of the table", name, g.u.Field(i).Name())
			}
		}
	}
}

// still: nothing of the table is different
func (g *langCheck) still(e *Engine, o Outcome, fn *ssa.Function) {
	g.r.ob("reading-changes-nothing")
	for _, ev := range flatEvents(o.St.tr.list()) {
		if o.St.visibleWrite(ev) {
			g.r.fail(g.m, "reading-changes-nothing", fn, ev.Pos, o.St, "%s changes the table", fn.Name())
			return
		}
	}
}

func (g *langCheck) answer(name string, at int) {
	fn := g.m.Method("XLanguage", name)
	if fn == nil || at < 0 {
		return
	}
	var args []*Term
	var before *Term
	e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) {
		args = as
		before = s.e.mapVer(s, s.f.norm(s.e.loadField(s, as[0], g.lr.typ, at)))
	})
	for _, o := range outs {
		if o.Panic {
			continue
		}
		g.still(e, o, fn)
		for _, hit := range []bool{true, false} {
			st := o.St.clone()
			if before.Op == OMapInit && st.f.isNil(before.A[0]) && hit {
				continue
			}
			st.f.assume(e.hasTerm(st, before, args[1]), hit)
			if st.f.bad {
				continue
			}
			g.r.ob("entry-read")
			want := e.tt.Str("")
			if hit {
				want = e.lookupTerm(st, before, args[1], g.text)
			}
			got := st.f.norm(o.Ret.A[0])
			if !hit && got == st.f.norm(e.lookupTerm(st, before, args[1], g.text)) {
				continue // the zero value of a missing entry
			}
			if !e.sameVal(st, got, want) && !(hit && st.f.known(e.tt.Eq(st.f.norm(want), e.tt.Str("")), true) && e.sameVal(st, got, e.tt.Str(""))) {
				g.r.fail(g.m, "entry-read", fn, o.Pos, st, "%s returns %s, not the %s of the name", name, got.str(4), g.u.Field(at).Name())
			}
		}
	}
}

func (g *langCheck) field(set, get string, at int) {
	if fn := g.m.Method("XLanguage", set); fn != nil {
		var args []*Term
		before := map[int]*Term{}
		all := append(g.tables(), g.lr.name, g.lr.tag)
		e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) {
			args = as
			for _, i := range all {
				before[i] = s.e.loadField(s, as[0], g.lr.typ, i)
			}
		})
		for _, o := range outs {
			if o.Panic {
				continue
			}
			st := o.St
			g.r.ob("field-set")
			if !e.sameVal(st, e.loadField(st, args[0], g.lr.typ, at), args[1]) {
				g.r.fail(g.m, "field-set", fn, o.Pos, st, "after %s the %s is not the one given", set, g.u.Field(at).Name())
			}
			for _, i := range all {
				if i == at {
					continue
				}
				g.r.ob("others-unchanged")
				if !e.sameVal(st, e.loadField(st, args[0], g.lr.typ, i), before[i]) {
					g.r.fail(g.m, "others-unchanged", fn, o.Pos, st, "%s changes the %s", set, g.u.Field(i).Name())
				}
			}
			for _, ev := range flatEvents(st.tr.list()) {
				if (ev.Kind == "mapput" || ev.Kind == "mapdel" || ev.Kind == "mapclear") && st.visibleWrite(ev) {
					g.r.fail(g.m, "others-unchanged", fn, ev.Pos, st, "%s changes the entries", set)
				}
			}
		}
	}
	if fn := g.m.Method("XLanguage", get); fn != nil {
		var before *Term
		e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) { before = s.e.loadField(s, as[0], g.lr.typ, at) })
		for _, o := range outs {
			if o.Panic {
				continue
			}
			g.r.ob("field-read")
			g.still(e, o, fn)
			if !e.sameVal(o.St, o.Ret.A[0], before) {
				g.r.fail(g.m, "field-read", fn, o.Pos, o.St, "%s does not return the %s", get, g.u.Field(at).Name())
			}
		}
	}
}

// entries: the list of the entries holds all of them
func (g *langCheck) entries() {
	fn := g.m.Method("XLanguage", "GetEntries")
	if fn == nil {
		return
	}
	var before *Term
	e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) {
		before = s.e.mapVer(s, s.f.norm(s.e.loadField(s, as[0], g.lr.typ, g.lr.entries)))
	})
	for _, o := range outs {
		if o.Panic {
			continue
		}
		g.still(e, o, fn)
		g.r.ob("entries-listed")
		st := o.St
		ret := st.f.norm(o.Ret.A[0])
		if st.f.isNil(ret) {
			g.r.fail(g.m, "entries-listed", fn, o.Pos, st, "no table is returned")
			continue
		}
		empty := st.f.known(e.tt.EqInt(e.mapLen(st, before), e.tt.Int(0)), true)
		if ver := e.mapVer(st, ret); !e.sameTable(st, ver, before, g.text) && !(empty && ver.Op == OMapEmpty) {
			g.r.fail(g.m, "entries-listed", fn, o.Pos, st, "the table returned does not hold all the entries, or other ones")
		}
	}
}

// created: a new table has the name and the language given and no entries
func (g *langCheck) created() {
	fn := g.m.Func("NewXLanguage")
	if fn == nil {
		g.r.errf("%s: NewXLanguage not found", g.m.Name)
		return
	}
	var args []*Term
	e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) { args = as })
	for _, o := range outs {
		if o.Panic {
			continue
		}
		st := o.St
		g.r.ob("created")
		obj := st.f.norm(o.Ret.A[0])
		if obj.Op != OAlloc {
			g.r.fail(g.m, "created", fn, o.Pos, st, "no new table is returned")
			continue
		}
		for i, at := range []int{g.lr.name, g.lr.tag} {
			if !e.sameVal(st, e.loadField(st, obj, g.lr.typ, at), args[i]) {
				g.r.fail(g.m, "created", fn, o.Pos, st, "the %s of the new table is not the one given", g.u.Field(at).Name())
			}
		}
		g.empty(e, st, obj, fn, o)
	}
}

func (g *langCheck) empty(e *Engine, st *State, obj *Term, fn *ssa.Function, o Outcome) {
	for _, at := range g.tables() {
		t := st.f.norm(e.loadField(st, obj, g.lr.typ, at))
		if !st.f.nonNil(t) || e.mapVer(st, t).Op != OMapEmpty {
			g.r.fail(g.m, "created", fn, o.Pos, st, "the new table does not start with empty %s", g.u.Field(at).Name())
		}
	}
}

// loading: each way to load ends in reading the text given, or the content of the file given
func (g *langCheck) loading() {
	flat, xml := g.m.Method("XLanguage", "LoadString"), g.m.Method("XLanguage", "LoadXMLString")
	if flat == nil || xml == nil {
		g.r.errf("%s: the loaders of the language table were not found", g.m.Name)
		return
	}
	g.flatText(flat)
	type way struct {
		fn   *ssa.Function
		to   *ssa.Function
		file bool
	}
	for _, w := range []way{
		{g.m.Method("XLanguage", "LoadFile"), flat, true}, {g.m.Method("XLanguage", "LoadXMLFile"), xml, true},
		{g.m.Func("NewXLanguageFromString"), flat, false}, {g.m.Func("NewXLanguageFromXMLString"), xml, false},
		{g.m.Func("NewXLanguageFromFile"), flat, true}, {g.m.Func("NewXLanguageFromXMLFile"), xml, true},
	} {
		if w.fn == nil {
			continue
		}
		g.forwarded(w.fn, w.to, w.file)
	}
}

func (g *langCheck) forwarded(fn, to *ssa.Function, file bool) {
	w := &loadWay{m: g.m, r: g.r, fn: fn, to: []*ssa.Function{to}, file: file, what: "table", blank: func(e *Engine, st *State, obj *Term) bool {
		ok := true
		for _, at := range g.tables() {
			t := st.f.norm(e.loadField(st, obj, g.lr.typ, at))
			ok = ok && st.f.nonNil(t) && e.mapVer(st, t).Op == OMapEmpty
		}
		return ok
	}}
	if !w.check() {
		return
	}
	if strings.Contains(to.Name(), "XML") {
		xmlReader(g.m, g.r, fn, g.lr)
	} else {
		g.flatText(fn)
	}
}

// loadWay is a function that loads an object from a text or a file by handing the text to another one
type loadWay struct {
	m     *Module
	r     *Report
	fn    *ssa.Function
	to    []*ssa.Function // any of these reads the text
	file  bool
	what  string
	blank func(e *Engine, st *State, obj *Term) bool // a new object holds nothing yet
	calls int                                        // ways to success that hand the text on
}

// check reports false when the text is handed on in each way to success, true when the function reads it by itself
func (g *loadWay) check() (direct bool) {
	fn := g.fn
	ctor := fn.Signature.Recv() == nil
	var args []*Term
	fresh := map[*Term]bool{}
	reads := map[string]bool{}
	for _, f := range g.to {
		reads[f.RelString(g.m.Pkg.Types)] = true
	}
	var eng *Engine
	cfg := Config{
		Opaque: func(f *ssa.Function) bool { return f != fn && reads[f.RelString(g.m.Pkg.Types)] },
		Record: func(st *State, ev *Ev) {
			if ev.Kind != "call" || !reads[ev.Name] || !ctor {
				return
			}
			obj := st.f.norm(ev.A[0])
			fresh[obj] = obj.Op == OAlloc && g.blank(eng, st, obj)
		},
	}
	_, outs := g.r.analyse(g.m, fn, cfg, func(s *State, as []*Term) { args = as; eng = s.e })
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St
		rets := resultTerms(o.Ret)
		errT := st.f.norm(rets[len(rets)-1])
		var calls []*Ev
		evs := flatEvents(st.tr.list())
		for _, ev := range evs {
			if ev.Kind == "call" && reads[ev.Name] {
				calls = append(calls, ev)
			}
		}
		success := st.f.isNil(errT)
		for _, ev := range calls {
			if ev.Res != nil && st.f.norm(ev.Res) == errT && !st.f.nonNil(errT) {
				success = true // whatever the loader says
			}
		}
		if !success {
			continue
		}
		g.r.ob("text-loaded")
		if len(calls) == 0 {
			if ctor && st.f.isNil(rets[0]) {
				g.r.fail(g.m, "text-loaded", fn, o.Pos, st, "neither a %s nor an error is returned", g.what)
				continue
			}
			direct = true
			continue
		}
		g.calls++
		if len(calls) > 1 {
			g.r.fail(g.m, "text-loaded", fn, calls[1].Pos, st, "the text is loaded twice")
			continue
		}
		obj := st.f.norm(calls[0].A[0])
		if ctor {
			g.r.ob("created")
			if st.f.norm(rets[0]) != obj {
				g.r.fail(g.m, "text-loaded", fn, o.Pos, st, "the %s returned is not the one that was loaded", g.what)
			} else if !fresh[obj] {
				g.r.fail(g.m, "created", fn, o.Pos, st, "the %s that is loaded is not a new and empty one", g.what)
			}
		} else if obj != st.f.norm(args[0]) {
			g.r.fail(g.m, "text-loaded", fn, o.Pos, st, "another %s is loaded", g.what)
		}
		txt := st.f.norm(calls[0].A[1])
		given := st.f.norm(args[len(args)-1])
		if !g.file {
			if txt != given {
				g.r.fail(g.m, "text-loaded", fn, calls[0].Pos, st, "the text loaded is not the one given: %s", txt.str(4))
			}
			continue
		}
		if !fileContent(st, evs, txt, given) {
			g.r.fail(g.m, "text-loaded", fn, calls[0].Pos, st, "the text loaded is not the content of the file given: %s", txt.str(4))
		}
	}
	return direct
}

// fileContent: the text is all that was read from the file of the name
func fileContent(st *State, evs []*Ev, txt, name *Term) bool {
	for txt.Op == OConv || txt.Op == OPure && (txt.S == "string" || txt.S == "bytes") {
		txt = st.f.norm(txt.A[0])
	}
	opened := map[*Term]bool{}
	for _, ev := range evs {
		if ev.Kind != "ext" || ev.Res == nil {
			continue
		}
		rs := resultTerms(ev.Res)
		switch ev.Name {
		case "os.Open", "os.OpenFile":
			if st.f.norm(ev.A[0]) == name {
				opened[st.f.norm(rs[0])] = true
			}
		case "os.ReadFile", "io/ioutil.ReadFile":
			if st.f.norm(ev.A[0]) == name && st.f.norm(rs[0]) == txt {
				return true
			}
		case "bufio.NewReader":
			x := ev.A[0]
			if x.Op == OIface {
				x = x.A[0]
			}
			if opened[st.f.norm(x)] {
				opened[st.f.norm(rs[0])] = true
			}
		case "io.Copy", "(*bytes.Buffer).ReadFrom":
			if len(ev.A) == 3 && opened[st.f.norm(bare(ev.A[1]))] && st.f.norm(ev.A[2]) == txt {
				return true
			}
		case "io.ReadAll", "io/ioutil.ReadAll":
			x := ev.A[0]
			if x.Op == OIface {
				x = x.A[0]
			}
			if opened[st.f.norm(x)] && st.f.norm(rs[0]) == txt {
				return true
			}
		}
	}
	return false
}

// flatText: the lines of the text are read as name and value
func (g *langCheck) flatText(fn *ssa.Function) {
	var args []*Term
	e, outs := g.r.analyse(g.m, fn, Config{}, func(s *State, as []*Term) { args = as })
	checked := map[*LoopInfo]bool{}
	for _, o := range outs {
		if o.Panic || o.St.f.bad {
			continue
		}
		st := o.St
		rets := resultTerms(o.Ret)
		if !st.f.isNil(st.f.norm(rets[len(rets)-1])) {
			continue
		}
		obj := args[0]
		if fn.Signature.Recv() == nil {
			obj = st.f.norm(rets[0])
		}
		g.r.ob("table-loaded")
		ver := e.mapVer(st, st.f.norm(e.loadField(st, obj, g.lr.typ, g.lr.entries)))
		why := ""
		for k := 0; k < 4; k++ {
			info := st.loopOf[ver]
			if info == nil {
				why = "no loop over the lines fills the table"
				if ver.Op == OMapInit && st.f.known(e.tt.EqInt(e.tt.Len(args[len(args)-1]), e.tt.Int(0)), true) {
					why = "" // no text
				}
				break
			}
			if !info.IsMap {
				g.lines(e, fn, st, info, ver, st.f.norm(args[len(args)-1]), checked)
				break
			}
			src := info.MapVer
			for i, v := range info.Back[ver] {
				b := info.Backs[i]
				if v.Op != OMapPut || b.f.norm(v.A[1]) != b.f.norm(info.Keys[i]) || b.f.norm(v.A[2]) != b.f.norm(e.lookupTerm(b, src, info.Keys[i], g.text)) {
					why = "not everything that was read is stored"
				}
			}
			for _, x := range info.Exits {
				if x.Kind != xPanic && !x.Header {
					why = "not everything that was read is stored"
				}
			}
			if why != "" || src == nil || src == ver {
				break
			}
			ver = src
		}
		if why != "" {
			g.r.fail(g.m, "table-loaded", fn, o.Pos, st, "%s", why)
		}
	}
}

// lines: each line with a name is stored, each other one ignored
func (g *langCheck) lines(e *Engine, fn *ssa.Function, st *State, info *LoopInfo, ver, data *Term, checked map[*LoopInfo]bool) {
	tt := e.tt
	if checked[info] {
		return
	}
	checked[info] = true
	// the source of the lines
	var line func(i int) *Term
	whole := false
	var scanner *Term
	for _, evs := range info.Events {
		for _, ev := range evs {
			if ev.Kind == "ext" && ev.Name == "(*bufio.Scanner).Scan" {
				scanner = ev.A[0]
			}
		}
	}
	evs := flatEvents(st.tr.list())
	if scanner != nil {
		readers := map[*Term]bool{}
		for _, ev := range evs {
			if ev.Kind != "ext" {
				continue
			}
			src := func() *Term {
				x := ev.A[0]
				for x.Op == OIface {
					x = x.A[0]
				}
				return st.f.norm(x)
			}
			switch ev.Name {
			case "strings.NewReader", "bytes.NewReader", "bytes.NewBufferString", "bytes.NewBuffer":
				x := src()
				for x.Op == OConv || x.Op == OPure && x.S == "bytes" {
					x = st.f.norm(x.A[0])
				}
				if x == data {
					readers[st.f.norm(ev.Res)] = true
				}
			case "os.Open":
				if src() == data {
					readers[st.f.norm(resultTerms(ev.Res)[0])] = true
				}
			case "bufio.NewScanner":
				if st.f.norm(ev.Res) == st.f.norm(scanner) && readers[src()] {
					whole = true
				}
			case "(*bufio.Scanner).Split":
				if f, ok := ev.A[1].Ref.(*ssa.Function); !ok || f.String() != "bufio.ScanLines" {
					g.r.fail(g.m, "all-lines", fn, ev.Pos, st, "the text is not cut into lines")
				}
			}
		}
		line = func(i int) *Term {
			var last *Term
			for _, ev := range info.Events[i] {
				if ev.Kind == "ext" && (ev.Name == "(*bufio.Scanner).Text" || ev.Name == "(*bufio.Scanner).Bytes") {
					last = ev.Res
				}
			}
			return last
		}
		for _, x := range info.Exits {
			if x.Kind == xPanic {
				continue
			}
			// it ends when there are no more lines
			ended := false
			for ev := x.St.tr; ev != nil; ev = ev.Prev {
				if ev.Kind == "ext" && ev.Name == "(*bufio.Scanner).Scan" {
					ended = x.St.f.known(ev.Res, false)
					break
				}
			}
			g.r.ob("all-lines")
			if !ended {
				g.r.fail(g.m, "all-lines", fn, info.Pos, x.St, "the reading can end before the last line")
			}
		}
	} else {
		for _, it := range e.over(st, info) {
			s := it.seq
			if s == nil || it.step != 1 {
				continue
			}
			s = st.f.norm(s)
			if s.Op == OPure && s.S == "strings.Split" && st.f.norm(s.A[0]) == data {
				if sep, ok := s.A[1].strVal(); ok && sep == "\n" {
					whole = true
					it := it
					line = func(i int) *Term { return e.index(info.Backs[i], it.seq, it.idx, g.text) }
				}
			}
		}
	}
	g.r.ob("all-lines")
	if !whole {
		g.r.fail(g.m, "all-lines", fn, info.Pos, st, "the loop does not read the lines of the text given")
		return
	}
	for i, v := range info.Back[ver] {
		b := info.Backs[i]
		l := line(i)
		if l == nil {
			g.r.fail(g.m, "line-ignored", fn, info.Pos, b, "a line is ignored without being looked at")
			continue
		}
		l = b.f.norm(l)
		f := g.facts(e, b, l)
		if v == ver {
			g.r.ob("line-ignored")
			if !f.empty.yes() && !f.comment.yes() && !f.noEqual.yes() && !f.noName.yes() {
				g.r.fail(g.m, "line-ignored", fn, info.Pos, b, "a line is ignored that can have a name, an equal sign and no comment mark")
			}
			continue
		}
		g.r.ob("line-stored")
		if v.Op != OMapPut || v.A[0] != ver {
			g.r.fail(g.m, "line-stored", fn, info.Pos, b, "a line does not change exactly one entry")
			continue
		}
		p := &pathTerms{e: e, st: b, sep: "="}
		trim := func(t *Term) *Term { return tt.Pure("strings.TrimSpace", g.text, t) }
		key, val := p.canon(v.A[1]), p.canon(v.A[2])
		switch {
		case key != trim(p.first(l)):
			g.r.fail(g.m, "line-stored", fn, info.Pos, b, "the name is not what is before the first equal sign, without spaces around: %s", key.str(5))
		case val != trim(p.rest(l)):
			g.r.fail(g.m, "line-stored", fn, info.Pos, b, "the text is not what is after the first equal sign, without spaces around: %s", val.str(5))
		case !f.comment.no():
			g.r.fail(g.m, "line-stored", fn, info.Pos, b, "a comment line can be stored")
		case !f.noEqual.no():
			g.r.fail(g.m, "line-stored", fn, info.Pos, b, "a line without equal sign can be stored")
		case !f.noName.no():
			g.r.fail(g.m, "line-stored", fn, info.Pos, b, "a line without name can be stored")
		}
	}
}

// tri is what is known of a condition
type tri struct{ known, val bool }

func (t tri) yes() bool { return t.known && t.val }
func (t tri) no() bool  { return t.known && !t.val }

type lineFacts struct{ empty, comment, noEqual, noName tri }

// facts: what a path knows of a line
func (g *langCheck) facts(e *Engine, st *State, l *Term) lineFacts {
	tt := e.tt
	f := lineFacts{}
	ev := func(c *Term) tri {
		v, k := st.f.eval(c)
		return tri{k, v}
	}
	f.empty = ev(tt.EqInt(tt.Len(l), tt.Int(0)))
	if !f.empty.known {
		f.empty = ev(tt.Eq(l, tt.Str("")))
	}
	// first character
	c0 := st.f.norm(e.index(st, l, tt.Int(0), types.Typ[types.Byte]))
	not := 0
	for _, c := range "#;" {
		t := ev(tt.EqInt(c0, tt.Int(int64(c))))
		if !t.known {
			t = ev(tt.Pure("strings.HasPrefix", types.Typ[types.Bool], l, tt.Str(string(c))))
		}
		if t.yes() {
			f.comment = tri{true, true}
		}
		if t.no() {
			not++
		}
	}
	p := &pathTerms{e: e, st: st, sep: "="}
	first := func(t *Term) bool {
		t = st.f.norm(t)
		for t.Op == OConv {
			t = t.A[0]
		}
		if t == c0 {
			return true
		}
		if t.Op == OPure && t.S == "substr" && t.A[0] == l {
			lo, ok := t.A[1].intVal()
			hi, ok2 := t.A[2].intVal()
			return ok && ok2 && lo == 0 && hi == 1
		}
		return false
	}
	marks := func(t *Term) bool {
		s, ok := t.strVal()
		return ok && len(s) == 2 && strings.Contains(s, "#") && strings.Contains(s, ";")
	}
	set := func(x *Term, v bool) {
		if x.Op != OPure || len(x.A) != 2 {
			return
		}
		if strings.HasPrefix(x.S, "strings.Contains") && (marks(x.A[0]) && first(x.A[1]) || x.S == "strings.ContainsAny" && marks(x.A[1]) && first(x.A[0])) {
			f.comment = tri{true, v}
		}
	}
	for x, v := range st.f.truth {
		set(x, v)
	}
	for _, d := range st.f.le {
		for _, x := range linTerms(d) {
			if x.Op == OPure && strings.HasPrefix(x.S, "strings.Index") && len(x.A) == 2 && marks(x.A[0]) && first(x.A[1]) {
				if st.f.known(tt.LeT(tt.Int(0), x), true) {
					f.comment = tri{true, true}
				} else if st.f.known(tt.LtT(x, tt.Int(0)), true) {
					not = 2
				}
			}
		}
	}
	if !f.comment.known && (not == 2 || f.empty.yes()) {
		f.comment = tri{true, false}
	}
	lo, hi := p.steps(l)
	switch {
	case hi == 0:
		f.noEqual = tri{true, true}
	case lo > 0:
		f.noEqual = tri{true, false}
	}
	// the name
	want := tt.Pure("strings.TrimSpace", g.text, p.first(l))
	see := func(t *Term) {
		t.walk(func(x *Term) bool {
			if f.noName.known || x.T == nil || !isStringType(x.T) || x.Op != OPure {
				return true
			}
			switch p.canon(x) {
			case want:
				if t := ev(tt.EqInt(tt.Len(x), tt.Int(0))); t.known {
					f.noName = t
				} else if t := ev(tt.Eq(x, tt.Str(""))); t.known {
					f.noName = t
				}
			}
			return true
		})
	}
	for x := range st.f.truth {
		see(x)
	}
	for _, d := range st.f.le {
		see(d)
		for _, x := range linTerms(d) {
			// an equal sign at the beginning, or none
			if x.Op == OPure && strings.HasPrefix(x.S, "strings.Index") && x.A[0] == l && p.isSep(x.A[1]) && st.f.known(tt.LeT(x, tt.Int(0)), true) {
				f.noName = tri{true, true}
			}
		}
	}
	for x, v := range st.f.rep {
		see(x)
		if s, ok := v.strVal(); ok && s == "" && x.Op == OPure && x.S == "strings.TrimSpace" && p.canon(x.A[0]) == p.first(l) {
			f.noName = tri{true, true}
		}
		if n, ok := v.intVal(); ok && n == 0 && x.Op == OPure && strings.HasPrefix(x.S, "strings.Index") && x.A[0] == l && p.isSep(x.A[1]) {
			f.noName = tri{true, true}
		}
	}
	return f
}

func init() {
	register("C31", "A language table holds what was set and loaded", "Abstract interpretation of every method of the language tables. Obligations: after each change the table holds the value given under the name given (or nothing, for a deletion) and every other name is unchanged; each reader returns what the table holds and changes nothing; the list of entries is a complete copy. Loading: each entry point ends in the reader of the text given, or of all the content of the file named; in the flat format each abstract path of an iteration over the lines stores the trimmed text after the first equal sign under the trimmed text before it, or is known to be on a line that is empty, a comment, without equal sign or without name.", languageCheck)
}
