package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C24: language tables written as XML and read from XML ----

// xmlPart is a piece of an XML text: known characters, a value, or what a loop writes
type xmlPart struct {
	lit  string
	val  *Term
	st   *State
	loop *LoopInfo
	each [][]xmlPart // per kind of iteration
}

// textParts lists what a text is put together from
func textParts(t *Term) []*Term {
	if t.Op == OConcat {
		return t.A
	}
	return []*Term{t}
}

// xmlParts cuts a text in pieces; nil if some piece is written in a way that is not understood
func (e *Engine) xmlParts(st *State, t *Term, depth int) ([]xmlPart, string) {
	if depth > 8 {
		return nil, "text nested too deep"
	}
	var out []xmlPart
	for _, p := range textParts(st.f.norm(t)) {
		if s, ok := p.strVal(); ok {
			out = append(out, xmlPart{lit: s})
			continue
		}
		if p.Op == OPure && p.S == "strings.Join" {
			sep, ok := p.A[1].strVal()
			if !ok || strings.TrimSpace(sep) != "" && !e.anySep {
				return nil, "text joined with something else than white space"
			}
			ps, why := e.xmlJoined(st, p.A[0], sep, depth+1)
			if why != "" {
				return nil, why
			}
			out = append(out, ps...)
			continue
		}
		if info := st.loopOf[p]; info != nil && (isStringType(p.T) || typeName(p.T) == "Buffer" || typeName(p.T) == "Builder") {
			ps, why := e.xmlParts(st, info.Init[p], depth+1)
			if why != "" {
				return nil, why
			}
			out = append(out, ps...)
			lp := xmlPart{loop: info, st: st}
			for i, v := range info.Back[p] {
				b := info.Backs[i]
				ps := textParts(b.f.norm(v))
				if len(ps) == 0 || ps[0] != b.f.norm(p) {
					return nil, "text rewritten by a loop"
				}
				rest := e.tt.Str("")
				for _, q := range ps[1:] {
					rest = e.tt.Concat(rest, q)
				}
				each, why := e.xmlParts(b, rest, depth+1)
				if why != "" {
					return nil, why
				}
				lp.each = append(lp.each, each)
			}
			out = append(out, lp)
			continue
		}
		out = append(out, xmlPart{val: p, st: st})
	}
	return out, ""
}

// xmlJoined cuts the texts of a sequence in pieces
func (e *Engine) xmlJoined(st *State, seq *Term, sep string, depth int) ([]xmlPart, string) {
	if depth > 8 {
		return nil, "text nested too deep"
	}
	var out []xmlPart
	for _, q := range e.tt.parts(e.resolveSeq(st, seq)) {
		if q.Op == OElem {
			ps, why := e.xmlParts(st, q.A[0], depth+1)
			if why != "" {
				return nil, why
			}
			out = append(append(out, ps...), xmlPart{lit: sep})
			continue
		}
		im := e.builtBy(st, q)
		if im == nil {
			if q.Op == ONil || q.Op == OZero || st.f.known(e.tt.EqInt(e.tt.Len(q), e.tt.Int(0)), true) {
				continue
			}
			if lp := e.builtSome(st, q, sep, depth); lp != nil {
				out = append(out, *lp)
				continue
			}
			if isView(q) && e.builtBy(st, q.A[0]) != nil {
				return nil, cutList
			}
			return nil, "joined text of unknown origin"
		}
		ps, why := e.xmlJoined(st, im.prefix, sep, depth+1)
		if why != "" {
			return nil, why
		}
		out = append(out, ps...)
		lp := xmlPart{loop: im.info, st: st}
		for i, x := range im.el {
			ps, why := e.xmlParts(im.info.Backs[i], x, depth+1)
			if why != "" {
				return nil, why
			}
			lp.each = append(lp.each, append(ps, xmlPart{lit: sep}))
		}
		out = append(out, lp)
	}
	return out, ""
}

const cutList = "only a part of a list of texts is joined"

// builtSome: a list to which the iterations of a loop add any number of elements
func (e *Engine) builtSome(st *State, q *Term, sep string, depth int) *xmlPart {
	q = e.resolveSeq(st, q)
	info := st.loopOf[q]
	if info == nil || len(e.qsegs(st, info.Init[q])) > 0 {
		return nil
	}
	lp := &xmlPart{loop: info, st: st}
	for i, v := range info.Back[q] {
		b := info.Backs[i]
		ps := e.tt.parts(b.f.norm(v))
		if len(ps) == 0 || ps[0] != b.f.norm(q) {
			return nil
		}
		var each []xmlPart
		for _, x := range ps[1:] {
			if x.Op != OElem {
				return nil
			}
			xs, why := e.xmlParts(b, x.A[0], depth+1)
			if why != "" {
				return nil
			}
			each = append(append(each, xs...), xmlPart{lit: sep})
		}
		lp.each = append(lp.each, each)
	}
	return lp
}

// xmlElem is an element of the text written
type xmlElem struct {
	name  string
	attrs map[string][]xmlPart
	body  []xmlPart
	loop  *LoopInfo // the loop that writes it
	kind  int       // the kind of iteration
	kids  []*xmlElem
}

const (
	xText = iota
	xOpen
	xTag
	xAttr
	xEq
	xVal
	xClose
	xCData
	xSkip // processing instruction, comment, declaration
)

// xmlScan follows the grammar of XML over text with values of unknown content in it
type xmlScan struct {
	stack []*xmlElem
	mode  int
	word  string
	quote byte
	end   string
	loop  *LoopInfo
	kind  int
	bad   string
	spots []xmlSpot
}

// xmlSpot is the place of a value in the text
type xmlSpot struct {
	val  *Term
	st   *State
	mode int
	attr string
	elem string
}

func (x *xmlScan) top() *xmlElem { return x.stack[len(x.stack)-1] }

func (x *xmlScan) text(p xmlPart) {
	switch x.mode {
	case xVal:
		a := x.top().attrs
		if p.val != nil || p.lit != "" {
			if l := a[x.word]; p.val == nil && len(l) > 0 && l[len(l)-1].val == nil {
				l[len(l)-1].lit += p.lit
				return
			}
			a[x.word] = append(a[x.word], p)
		} else if _, ok := a[x.word]; !ok {
			a[x.word] = nil
		}
	default:
		t := x.top()
		if l := t.body; p.val == nil && len(l) > 0 && l[len(l)-1].val == nil {
			l[len(l)-1].lit += p.lit
			return
		}
		t.body = append(t.body, p)
	}
}

func (x *xmlScan) open() {
	el := &xmlElem{name: x.word, attrs: map[string][]xmlPart{}, loop: x.loop, kind: x.kind}
	x.top().kids = append(x.top().kids, el)
	x.stack = append(x.stack, el)
	x.word = ""
}

func (x *xmlScan) pop() {
	if len(x.stack) < 2 {
		x.bad = "an element is ended that was not started"
		return
	}
	x.stack = x.stack[:len(x.stack)-1]
}

func isXMLSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

func (x *xmlScan) char(c byte) {
	switch x.mode {
	case xText:
		if c == '<' {
			x.mode, x.word = xOpen, ""
			return
		}
		if len(x.stack) == 1 && !isXMLSpace(c) {
			x.bad = "there is text outside of the outermost element"
			return
		}
		x.text(xmlPart{lit: string([]byte{c})})
	case xOpen:
		switch {
		case x.word == "" && c == '/':
			x.mode = xClose
		case x.word == "" && c == '?':
			x.mode, x.end, x.word = xSkip, "?>", ""
		case strings.HasPrefix("![CDATA[", x.word+string(c)):
			x.word += string(c)
			if x.word == "![CDATA[" {
				x.mode, x.word = xCData, ""
			}
		case strings.HasPrefix(x.word, "!"):
			x.word += string(c)
			x.mode, x.end = xSkip, ">"
			if strings.HasPrefix(x.word, "!-") {
				x.end = "-->"
			}
			x.word = ""
		case isXMLSpace(c):
			x.open()
			x.mode = xTag
		case c == '>':
			x.open()
			x.mode = xText
		case c == '/':
			x.open()
			x.mode = xTag
			x.char(c)
		case c == '<' || c == '"' || c == '\'' || c == '=':
			x.bad = "an element has no proper name"
		default:
			x.word += string(c)
		}
	case xTag:
		switch {
		case isXMLSpace(c):
		case c == '/':
			x.word = "/"
		case c == '>':
			if x.word == "/" {
				x.pop()
			}
			x.mode, x.word = xText, ""
		default:
			x.mode, x.word = xAttr, string(c)
		}
	case xAttr:
		switch {
		case c == '=':
			x.mode = xEq
		case isXMLSpace(c):
		case c == '>' || c == '<' || c == '"':
			x.bad = "an attribute has no value"
		default:
			x.word += string(c)
		}
	case xEq:
		switch {
		case c == '"' || c == '\'':
			x.quote, x.mode = c, xVal
			x.text(xmlPart{})
		case isXMLSpace(c):
		default:
			x.bad = "an attribute value is not quoted"
		}
	case xVal:
		switch {
		case c == x.quote:
			x.mode, x.word = xTag, ""
		case c == '<':
			x.bad = "an attribute value is not ended"
		default:
			x.text(xmlPart{lit: string([]byte{c})})
		}
	case xClose:
		if c != '>' {
			x.word += string(c)
			return
		}
		if name := strings.TrimSpace(x.word); len(x.stack) < 2 || x.top().name != name {
			x.bad = "the element ended is not the one that is open: " + name
			return
		}
		x.pop()
		x.mode, x.word = xText, ""
	case xCData, xSkip:
		end := x.end
		if x.mode == xCData {
			end = "]]>"
		}
		x.word += string(c)
		if strings.HasSuffix(x.word, end) {
			if x.mode == xCData {
				x.text(xmlPart{lit: strings.TrimSuffix(x.word, end)})
			}
			x.mode, x.word = xText, ""
		}
	}
}

func (x *xmlScan) scan(ps []xmlPart) {
	for _, p := range ps {
		switch {
		case x.bad != "":
			return
		case p.loop != nil:
			if x.mode != xText {
				x.bad = "a loop writes inside of a tag"
				return
			}
			at := len(x.stack)
			for i, q := range p.each {
				ol, ok := x.loop, x.kind
				x.loop, x.kind = p.loop, i
				x.scan(q)
				x.loop, x.kind = ol, ok
				if x.bad != "" {
					return
				}
				if x.mode != xText || len(x.stack) != at {
					x.bad = "an iteration of a loop does not end the elements it starts"
					return
				}
			}
		case p.val != nil:
			s := xmlSpot{val: p.val, st: p.st, mode: x.mode, elem: x.top().name}
			switch x.mode {
			case xText, xCData:
				if len(x.stack) == 1 {
					x.bad = "a value is written outside of the outermost element: " + p.val.str(3)
					return
				}
				if x.mode == xCData && x.word != "" {
					x.text(xmlPart{lit: x.word})
					x.word = ""
				}
				x.text(p)
			case xVal:
				s.attr = x.word
				x.text(p)
			default:
				x.bad = "a value is written where a name of the format belongs: " + p.val.str(3)
				return
			}
			x.spots = append(x.spots, s)
		default:
			for i := 0; i < len(p.lit); i++ {
				if x.char(p.lit[i]); x.bad != "" {
					return
				}
			}
		}
	}
}

// unescaped: the text a value stands for once read, in a place of the XML text
func unescaped(s xmlSpot) (*Term, string) {
	v := s.st.f.norm(s.val)
	if n, ok := plainText(v); ok {
		return n, ""
	}
	switch s.mode {
	case xText, xVal:
		if v.Op == OPure && (v.S == "xml.escape" || v.S == "html.EscapeString") {
			return v.A[0], ""
		}
		return nil, "is not escaped"
	}
	// a CDATA section is only ended by its mark
	if v.Op == OPure && v.S == "strings.Replace" {
		from, _ := v.A[1].strVal()
		to, _ := v.A[2].strVal()
		n, ok := v.A[3].intVal()
		x := &xmlScan{stack: []*xmlElem{{}}, mode: xCData}
		x.scan([]xmlPart{{lit: to}})
		if from == "]]>" && ok && n < 0 && x.bad == "" && x.mode == xCData && len(x.stack) == 1 {
			got := x.word
			if b := x.stack[0].body; len(b) == 1 {
				got = b[0].lit + got
			}
			if got == from {
				return v.A[0], ""
			}
		}
	}
	return nil, "can contain the end of the section it is written in"
}

// plainText: values whose text never contains characters with a meaning in XML
func plainText(v *Term) (*Term, bool) {
	switch {
	case v.Op == OPure && v.S == "fmt.Sprint" && len(v.A) == 1:
		x := v.A[0]
		if x.Op == OIface {
			if typeName(x.T) == "Tag" {
				return x.A[0], true
			}
		}
	case v.Op == OPure && strings.HasSuffix(v.S, "language.Tag).String"):
		return v.A[0], true
	case v.Op == OPure && v.S == "strconv.Itoa":
		return v, true
	}
	return nil, false
}

// langRoles are the parts of a language table, found by what its methods give back
type langRoles struct {
	typ                        types.Type
	name, tag, entries, status int
}

func findLangRoles(m *Module, r *Report) *langRoles {
	nm := m.Named("XLanguage")
	if nm == nil {
		r.errf("%s: no language table", m.Name)
		return nil
	}
	lr := &langRoles{typ: nm, name: -1, tag: -1, entries: -1, status: -1}
	u := nm.Underlying().(*types.Struct)
	table := func(method string) int {
		fn := m.Method("XLanguage", method)
		if fn == nil {
			return -1
		}
		at := -1
		var recv *Term
		_, outs := r.analyse(m, fn, Config{}, func(st *State, as []*Term) { recv = as[0] })
		for _, o := range outs {
			for _, ev := range flatEvents(o.St.tr.list()) {
				if ev.Kind != "mapget" {
					continue
				}
				for i := 0; i < u.NumFields(); i++ {
					if _, ok := u.Field(i).Type().Underlying().(*types.Map); ok {
						if w := o.St.e.loadField(o.St, recv, nm, i); o.St.f.norm(w) == o.St.f.norm(ev.A[0]) {
							at = i
						}
					}
				}
			}
		}
		return at
	}
	field := func(method string) int {
		fn := m.Method("XLanguage", method)
		if fn == nil {
			return -1
		}
		at := -1
		var recv *Term
		_, outs := r.analyse(m, fn, Config{}, func(st *State, as []*Term) { recv = as[0] })
		for _, o := range outs {
			if o.Ret == nil || o.Panic {
				continue
			}
			v := o.St.f.norm(o.Ret.A[0])
			for i := 0; i < u.NumFields(); i++ {
				if o.St.f.norm(o.St.e.loadField(o.St, recv, nm, i)) == v {
					at = i
				}
			}
		}
		return at
	}
	lr.entries, lr.status = table("Get"), table("GetStatus")
	lr.name, lr.tag = field("GetName"), field("GetLanguage")
	if lr.entries < 0 || lr.name < 0 || lr.tag < 0 {
		r.errf("%s: the parts of the language table were not recognised", m.Name)
		return nil
	}
	return lr
}

// sameTable: a version of a table holds what another one does
func (e *Engine) sameTable(st *State, ver, src *Term, elem types.Type) bool {
	if ver == src {
		return true
	}
	ps, ok := e.tableImage(st, ver, src, elem)
	for _, p := range ps {
		ok = ok && p.val != nil && e.sameVal(p.st, p.val, p.src)
	}
	return ok
}

func xmlCheck(c *Ctx, r *Report) {
	for _, m := range c.each() {
		lr := findLangRoles(m, r)
		if lr == nil {
			continue
		}
		if fn := m.Method("XLanguage", "GetXML"); fn != nil {
			xmlWriter(m, r, fn, lr)
		}
		if fn := m.Method("XLanguage", "LoadXMLString"); fn != nil {
			xmlReader(m, r, fn, lr)
		} else {
			r.errf("%s: no method LoadXMLString", m.Name)
		}
	}
	r.need("attribute-id", 1)
	r.need("attribute-lang", 1)
	r.need("entry-id", 1)
	r.need("entry-text", 1)
	r.need("read-name", 1)
	r.need("read-entry", 1)
}

func xmlWriter(m *Module, r *Report, fn *ssa.Function, lr *langRoles) {
	var recv *Term
	text := types.Typ[types.String]
	e, outs := r.analyse(m, fn, Config{}, func(st *State, as []*Term) { recv = as[0] })
	for _, o := range outs {
		if o.Panic || o.Ret == nil || o.St.f.bad {
			continue
		}
		st := o.St
		ret := st.f.norm(o.Ret.A[0])
		foreign := false
		ret.walk(func(t *Term) bool {
			foreign = foreign || t.Op == OPure && strings.HasPrefix(t.S, "encoding/xml.Marshal") || t.Op == OSym && strings.Contains(t.S, "Marshal")
			return true
		})
		if foreign {
			r.notes = append(r.notes, m.Name+": the XML is written by the encoder of the library; its text is not analysed")
			for _, s := range []string{"attribute-id", "attribute-lang", "entry-id", "entry-text"} {
				r.ob(s)
			}
			continue
		}
		ps, why := e.xmlParts(st, ret, 0)
		r.ob("well-formed")
		x := &xmlScan{stack: []*xmlElem{{name: "the document", attrs: map[string][]xmlPart{}}}}
		if why == "" {
			x.scan(ps)
			why = x.bad
		}
		if why == "" && (x.mode != xText || len(x.stack) != 1) {
			why = "not all elements are ended"
		}
		if why == "" && len(x.top().kids) != 1 {
			why = "there is not exactly one outermost element"
		}
		if why != "" {
			r.fail(m, "well-formed", fn, o.Pos, st, "the text is not an XML document: %s", why)
			continue
		}
		for _, s := range x.spots {
			r.ob("value-escaped")
			if _, why := unescaped(s); why != "" {
				at := "the content of element " + s.elem
				if s.attr != "" {
					at = "attribute " + s.attr + " of element " + s.elem
				}
				r.fail(m, "value-escaped", fn, o.Pos, s.st, "the value written as %s %s: %s", at, why, s.val.str(4))
			}
		}
		root := x.top().kids[0]
		same := func(rule string, st *State, ps []xmlPart, mode int, want *Term, what string) {
			r.ob(rule)
			want = st.f.norm(want)
			if want.Op == OLookup && st.f.known(e.hasTerm(st, want.A[0], want.A[1]), false) {
				want = e.tt.Str("")
			}
			got := e.tt.Str("")
			for _, p := range ps {
				if p.val == nil {
					got = e.tt.Concat(got, e.tt.Str(p.lit))
					continue
				}
				v, why := unescaped(xmlSpot{val: p.val, st: p.st, mode: mode})
				if why != "" {
					// reported above; compare the value itself
					v = p.st.f.norm(p.val)
				}
				got = e.tt.Concat(got, st.f.norm(v))
			}
			if got = st.f.norm(got); got == want {
				return
			}
			if s, ok := got.strVal(); ok && s == "" && st.f.known(e.tt.Eq(want, e.tt.Str("")), true) {
				return
			}
			r.fail(m, rule, fn, o.Pos, st, "%s is written as %s", what, got.str(4))
		}
		if root.loop != nil {
			r.fail(m, "well-formed", fn, o.Pos, st, "the outermost element is written by a loop")
			continue
		}
		same("attribute-id", st, root.attrs["id"], xVal, e.loadField(st, recv, lr.typ, lr.name), "the name of the table")
		same("attribute-lang", st, root.attrs["lang"], xVal, e.loadField(st, recv, lr.typ, lr.tag), "the language of the table")
		table := e.mapVer(st, st.f.norm(e.loadField(st, recv, lr.typ, lr.entries)))
		var stat *Term
		if lr.status >= 0 {
			stat = e.mapVer(st, st.f.norm(e.loadField(st, recv, lr.typ, lr.status)))
		}
		r.ob("nothing-else")
		for _, p := range root.body {
			if p.val != nil || strings.TrimSpace(p.lit) != "" {
				r.fail(m, "nothing-else", fn, o.Pos, st, "there is text between the entries")
				break
			}
		}
		// the entries
		loops := map[*LoopInfo]map[int][]*xmlElem{}
		for _, p := range ps {
			if p.loop != nil && loops[p.loop] == nil {
				loops[p.loop] = map[int][]*xmlElem{}
			}
		}
		for _, k := range root.kids {
			if k.loop == nil {
				if k.name == "entry" {
					r.fail(m, "all-entries", fn, o.Pos, st, "an entry is written that is not one of the table")
				}
				continue
			}
			if k.name == "entry" {
				if loops[k.loop] == nil {
					loops[k.loop] = map[int][]*xmlElem{}
				}
				loops[k.loop][k.kind] = append(loops[k.loop][k.kind], k)
			}
		}
		r.ob("all-entries")
		done := st.f.known(e.tt.EqInt(e.mapLen(st, table), e.tt.Int(0)), true)
		for info, kinds := range loops {
			var it *iterOver
			for _, x := range e.over(st, info) {
				if x.ver != nil && e.sameTable(st, x.ver, table, text) {
					it = &x
					break
				}
			}
			if it == nil {
				continue
			}
			if done {
				r.fail(m, "all-entries", fn, info.Pos, st, "the entries are written twice")
			}
			done = true
			for i, b := range info.Backs {
				els := kinds[i]
				if len(els) != 1 {
					r.fail(m, "all-entries", fn, info.Pos, b, "an iteration over the entries of the table writes %d elements named entry", len(els))
					continue
				}
				key := b.f.norm(it.keys[i])
				val := b.f.norm(e.lookupTerm(b, it.ver, key, text))
				same("entry-id", b, els[0].attrs["id"], xVal, key, "the name of an entry")
				mode := xText
				for _, s := range x.spots {
					if s.mode == xCData && s.elem == "entry" {
						mode = xCData
					}
				}
				same("entry-text", b, els[0].body, mode, val, "the text of an entry")
				if stat != nil {
					same("entry-status", b, els[0].attrs["status"], xVal, e.lookupTerm(b, stat, key, text), "the status of an entry")
				}
			}
		}
		if !done {
			r.fail(m, "all-entries", fn, o.Pos, st, "no loop over the whole table writes its entries")
		}
	}
}

// xmlTag is what a field of a structure receives from an XML text
func xmlTag(u *types.Struct, i int) string {
	if !u.Field(i).Exported() {
		return ""
	}
	t := reflect.StructTag(u.Tag(i)).Get("xml")
	if t == "-" {
		return ""
	}
	fs := strings.Split(t, ",")
	name := fs[0]
	for _, f := range fs[1:] {
		switch f {
		case "attr":
			if name == "" {
				name = u.Field(i).Name()
			}
			return "attribute " + name
		case "chardata", "cdata":
			return "content"
		case "innerxml", "comment", "any":
			return f
		}
	}
	if name == "" {
		name = u.Field(i).Name()
	}
	return "element " + name
}

func xmlReader(m *Module, r *Report, fn *ssa.Function, lr *langRoles) {
	var recv *Term
	text := types.Typ[types.String]
	e, outs := r.analyse(m, fn, Config{}, func(st *State, as []*Term) { recv = as[0] })
	n := 0
	for _, o := range outs {
		if o.Panic || o.Ret == nil || o.St.f.bad {
			continue
		}
		st := o.St
		if !st.f.isNil(st.f.norm(o.Ret.A[0])) {
			continue
		}
		var target *Term
		for _, ev := range st.tr.list() {
			if ev.Kind == "ext" && (ev.Name == "encoding/xml.Unmarshal" || ev.Name == "(*encoding/xml.Decoder).Decode") {
				if t := ev.A[len(ev.A)-1]; t.Op == OIface {
					target = t.A[0]
				}
			}
		}
		if target == nil || target.T == nil {
			continue
		}
		typ := target.T
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
		u, ok := typ.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		n++
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "XMLName" {
				r.ob("read-root")
				if name := strings.Split(reflect.StructTag(u.Tag(i)).Get("xml"), ",")[0]; name != "" && name != "language" {
					r.fail(m, "read-root", fn, o.Pos, st, "the outermost element is expected to be named %s", name)
				}
			}
		}
		// the field of the structure read that a value comes from
		source := func(v *Term) string {
			v = st.f.norm(v)
			for i := 0; i < u.NumFields(); i++ {
				if st.f.norm(e.loadField(st, target, typ, i)) == v {
					return xmlTag(u, i)
				}
			}
			return "something else: " + v.str(3)
		}
		r.ob("read-name")
		if s := source(e.loadField(st, recv, lr.typ, lr.name)); s != "attribute id" {
			r.fail(m, "read-name", fn, o.Pos, st, "the name of the table is not attribute id of the outermost element but %s", s)
		}
		r.ob("read-language")
		tag := st.f.norm(e.loadField(st, recv, lr.typ, lr.tag))
		got := "something else: " + tag.str(3)
		if x := tag; x.Op == OExtract || x.Op == OPure {
			if x.Op == OExtract {
				x = x.A[0]
			}
			if x.Op == OPure && len(x.A) > 0 {
				for _, f := range []string{"Parse", "Make", "MustParse"} {
					if strings.HasSuffix(strings.Split(x.S, "#")[0], "text/language."+f) {
						got = source(x.A[len(x.A)-1])
					}
				}
			}
		}
		if got != "attribute lang" {
			r.fail(m, "read-language", fn, o.Pos, st, "the language of the table is not attribute lang of the outermost element but %s", got)
		}
		tables := []struct {
			rule, want, what string
			at               int
		}{{"read-entry", "content", "the text of an entry", lr.entries}, {"read-status", "attribute status", "the status of an entry", lr.status}}
		for _, tb := range tables {
			if tb.at < 0 {
				continue
			}
			r.ob(tb.rule)
			obj := st.f.norm(e.loadField(st, recv, lr.typ, tb.at))
			ver := e.mapVer(st, obj)
			if why := e.readTable(st, ver, target, typ, u, text, tb.want); why != "" {
				r.fail(m, tb.rule, fn, o.Pos, st, "%s: %s", tb.what, why)
			}
		}
	}
	if n == 0 {
		r.notes = append(r.notes, fmt.Sprintf("%s: the XML is not read into a structure; the reader is not analysed", m.Name))
		for _, s := range []string{"read-name", "read-entry"} {
			r.ob(s)
		}
	}
}

// readTable: each element named entry is put in the table, under its id
func (e *Engine) readTable(st *State, ver, target *Term, typ types.Type, u *types.Struct, text types.Type, want string) string {
	list := func(t *Term) (*types.Struct, bool) {
		for i := 0; i < u.NumFields(); i++ {
			if st.f.norm(e.loadField(st, target, typ, i)) == st.f.norm(t) {
				el := sliceElem(u.Field(i).Type())
				if el == nil {
					return nil, false
				}
				if p, ok := el.Underlying().(*types.Pointer); ok {
					el = p.Elem()
				}
				us, ok := el.Underlying().(*types.Struct)
				return us, ok && xmlTag(u, i) == "element entry"
			}
		}
		return nil, false
	}
	info := st.loopOf[ver]
	if info == nil {
		return "no loop over the elements named entry fills the table"
	}
	// first read in a table of its own
	if info.IsMap && info.MapVer != nil && info.MapVer != ver {
		for i, v := range info.Back[ver] {
			b := info.Backs[i]
			if v.Op != OMapPut || b.f.norm(v.A[1]) != b.f.norm(info.Keys[i]) || b.f.norm(v.A[2]) != b.f.norm(e.lookupTerm(b, info.MapVer, info.Keys[i], text)) {
				return "not everything that was read is stored"
			}
		}
		return e.readTable(st, info.MapVer, target, typ, u, text, want)
	}
	why := "no loop over all the elements named entry fills the table"
	for _, it := range e.over(st, info) {
		if it.seq == nil {
			continue
		}
		us, ok := list(it.seq)
		if !ok {
			continue
		}
		why = ""
		if it.step != 1 {
			return "the elements are read from the last to the first"
		}
		for i, v := range info.Back[ver] {
			b := info.Backs[i]
			if v.Op != OMapPut || v.A[0] != ver {
				return "an element named entry is not stored, or several are"
			}
			el := e.index(b, it.seq, it.idx, sliceElem(it.seq.T))
			from := func(x *Term) string {
				x = b.f.norm(x)
				for k := 0; k < us.NumFields(); k++ {
					ft := us.Field(k).Type()
					if el.T != nil && isPointer(el.T) {
						if b.f.norm(e.loadField(b, el, us, k)) == x {
							return xmlTag(us, k)
						}
						continue
					}
					if b.f.norm(e.tt.Field(el, k, ft)) == x {
						return xmlTag(us, k)
					}
				}
				return "something else: " + x.str(4)
			}
			if s := from(v.A[1]); s != "attribute id" {
				return "it is not stored under attribute id but " + s
			}
			if s := from(v.A[2]); s != want {
				return "it is not the " + want + " of the element but " + s
			}
		}
		break
	}
	return why
}

func init() {
	register("C24", "A language table printed as XML can be read back", "Grammar of the text written: the text returned by GetXML on each abstract path, with the part each loop adds, is followed through the grammar of XML with the values in it unknown. Obligations: well-formed whatever the values; each value in an attribute or in content is escaped, each one in a CDATA section cannot end it; name, language, and, for each entry of the table, name, status and text are written in the attributes and content of the documented format. Reader: the structure tags that receive the XML and the stores made from it must give the same parts of the table back, for all elements.", xmlCheck)
}
