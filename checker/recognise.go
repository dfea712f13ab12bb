package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
)

// ---- C18: how the text of a template is cut into tokens ----

// form is one alternative of the pattern: a name between two marks
type form struct {
	open, close string
	name        int            // group of the name, 0 if there is none
	re          *syntax.Regexp // what the name matches
	lits        map[int]string // groups that match a fixed text
	some        map[int]bool   // groups that match at least one character
	eol         bool           // an end of line after it belongs to it
	groups      map[int]bool   // groups of the alternative
}

// the forms of the language: marks, kind, characters a name can have
var tokenForms = []struct {
	open, close, kind string
	named             bool
	chars             string
}{
	{"%--", "--%", "MetaComment", true, "aZ09 \n-%.<"},
	{"##", "##", "MetaLanguage", true, "azAZ09-_."},
	{"&&", "&&", "MetaReference", true, "azAZ09-_.:>"},
	{"@@", "@@", "MetaRange", true, "azAZ09-_.:>"},
	{"??", "??", "MetaCondition", true, "azAZ09-_.:>"},
	{"!!", "!!", "MetaDump", true, "azAZ09-_."},
	{"{{", "}}", "MetaVariable", true, "azAZ09-_.>"},
	{"[[", "]]", "MetaTemplateStart", true, "az09-_.|"},
	{"[[]]", "", "MetaTemplateEnd", false, ""},
}

// alternatives lists the ways a pattern can match, as sequences without choice outside of groups
func alternatives(re *syntax.Regexp) [][]*syntax.Regexp {
	switch re.Op {
	case syntax.OpAlternate:
		var out [][]*syntax.Regexp
		for _, s := range re.Sub {
			out = append(out, alternatives(s)...)
		}
		return out
	case syntax.OpConcat:
		out := [][]*syntax.Regexp{nil}
		for _, s := range re.Sub {
			var next [][]*syntax.Regexp
			for _, tail := range alternatives(s) {
				for _, head := range out {
					next = append(next, append(append([]*syntax.Regexp(nil), head...), tail...))
				}
			}
			out = next
		}
		return out
	}
	return [][]*syntax.Regexp{{re}}
}

func literal(re *syntax.Regexp) (string, bool) {
	switch re.Op {
	case syntax.OpLiteral:
		return string(re.Rune), re.Flags&syntax.FoldCase == 0
	case syntax.OpCharClass:
		if len(re.Rune) == 2 && re.Rune[0] == re.Rune[1] {
			return string(re.Rune[0]), true
		}
	case syntax.OpEmptyMatch:
		return "", true
	case syntax.OpCapture:
		return literal(re.Sub[0])
	case syntax.OpConcat:
		s := ""
		for _, x := range re.Sub {
			l, ok := literal(x)
			if !ok {
				return "", false
			}
			s += l
		}
		return s, true
	}
	return "", false
}

// newlines: matches ends of lines at most
func newlines(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpLiteral:
		return strings.Trim(string(re.Rune), "\r\n") == ""
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			for c := re.Rune[i]; c <= re.Rune[i+1]; c++ {
				if c != '\n' && c != '\r' {
					return false
				}
			}
		}
		return true
	case syntax.OpQuest, syntax.OpStar, syntax.OpCapture, syntax.OpConcat, syntax.OpAlternate, syntax.OpEmptyMatch:
		for _, s := range re.Sub {
			if !newlines(s) {
				return false
			}
		}
		return true
	}
	return false
}

func captures(re *syntax.Regexp, out map[int]bool) {
	if re.Op == syntax.OpCapture {
		out[re.Cap] = true
	}
	for _, s := range re.Sub {
		captures(s, out)
	}
}

// minLen is 0 or 1: whether something is matched in any case
func minLen(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral, syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minLen(re.Sub[0])
	case syntax.OpRepeat:
		if re.Min > 0 {
			return minLen(re.Sub[0])
		}
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if minLen(s) == 1 {
				return 1
			}
		}
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if minLen(s) == 0 {
				return 0
			}
		}
		return 1
	}
	return 0
}

// formOf reads an alternative; the marks of the optional end of line are left out
func formOf(seq []*syntax.Regexp) (*form, string) {
	f := &form{lits: map[int]string{}, some: map[int]bool{}, groups: map[int]bool{}}
	var lits func(re *syntax.Regexp)
	lits = func(re *syntax.Regexp) {
		if re.Op == syntax.OpCapture {
			if s, ok := literal(re.Sub[0]); ok {
				f.lits[re.Cap] = s
			} else if minLen(re) == 1 {
				f.some[re.Cap] = true
			}
		}
		if re.Op == syntax.OpCapture || re.Op == syntax.OpConcat {
			for _, s := range re.Sub {
				lits(s)
			}
		}
	}
	named := false
	for i, re := range seq {
		captures(re, f.groups)
		lits(re)
		if s, ok := literal(re); ok {
			if named {
				f.close += s
			} else {
				f.open += s
			}
			continue
		}
		if i == len(seq)-1 && newlines(re) {
			f.eol = true
			continue
		}
		if re.Op == syntax.OpCapture && !named {
			named = true
			f.name, f.re = re.Cap, re.Sub[0]
			continue
		}
		return nil, re.String()
	}
	return f, ""
}

// accepts: the repeated part of a name accepts a character
func accepts(re *syntax.Regexp, c rune) bool {
	switch re.Op {
	case syntax.OpPlus, syntax.OpStar, syntax.OpRepeat, syntax.OpQuest, syntax.OpCapture:
		return accepts(re.Sub[0], c)
	case syntax.OpAnyChar:
		return true
	case syntax.OpAnyCharNotNL:
		return c != '\n'
	case syntax.OpLiteral:
		return len(re.Rune) == 1 && re.Rune[0] == c
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i] <= c && c <= re.Rune[i+1] {
				return true
			}
		}
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			if accepts(s, c) {
				return true
			}
		}
	}
	return false
}

func lazy(re *syntax.Regexp) bool { return re.Flags&syntax.NonGreedy != 0 }

// lexing is the loop that turns the matches of the pattern into tokens
type lexing struct {
	m    *Module
	r    *Report
	e    *Engine
	info *LoopInfo
	acc  *Term // tokens so far
	data *Term
	re   *Term
	idx  *Term // of the match
	subs *Term // search that gives the groups
	locs *Term // search that gives the positions
}

func (x *lexing) at(st *State, search *Term, k int64) *Term {
	inner := sliceElem(search.T)
	return st.f.norm(x.e.index(st, x.e.index(st, search, x.idx, inner), x.e.tt.Int(k), sliceElem(inner)))
}

// group is the text of a group of the match; where it is for a group that matched
func (x *lexing) group(st *State, k int) *Term {
	if !strings.HasSuffix(x.subs.S, "Index") {
		return x.at(st, x.subs, int64(k))
	}
	lo, hi := x.at(st, x.subs, int64(2*k)), x.at(st, x.subs, int64(2*k+1))
	return st.f.norm(x.e.tt.Pure("substr", types.Typ[types.String], x.data, lo, hi))
}

// assume restricts a state to the matches of one form
func (x *lexing) assume(st *State, f *form, groups int) {
	tt := x.e.tt
	index := strings.HasSuffix(x.subs.S, "Index")
	for k := 1; k <= groups; k++ {
		in := f.groups[k]
		var lo, hi *Term
		if index {
			lo, hi = x.at(st, x.subs, int64(2*k)), x.at(st, x.subs, int64(2*k+1))
		}
		lit, fixed := f.lits[k]
		switch {
		case !in && index:
			st.f.assume(tt.EqInt(lo, tt.Int(-1)), true)
			st.f.assume(tt.EqInt(hi, tt.Int(-1)), true)
		case !in:
			st.f.assume(tt.Eq(x.group(st, k), tt.Str("")), true)
		case index && (fixed || f.some[k] || k == f.name):
			st.f.assume(tt.LeT(tt.Int(0), lo), true)
			if f.some[k] || fixed && lit != "" {
				st.f.assume(tt.LtT(lo, hi), true)
			} else {
				st.f.assume(tt.LeT(lo, hi), true)
			}
		case fixed:
			st.f.assume(tt.Eq(x.group(st, k), tt.Str(lit)), true)
		case f.some[k]:
			st.f.assume(tt.Eq(x.group(st, k), tt.Str("")), false)
		}
	}
}

// findLexing looks for the loop over the matches of a constant pattern that makes tokens
func findLexing(m *Module, r *Report) (*lexing, []Outcome) {
	fn := m.Method("XTemplate", "LoadString")
	if fn == nil || len(fn.Params) < 2 {
		r.errf("%s: LoadString not found", m.Name)
		return nil, nil
	}
	var args []*Term
	e, outs := r.analyse(m, fn, Config{}, func(st *State, as []*Term) { args = as })
	seen := map[*LoopInfo]bool{}
	var found *lexing
	for _, o := range outs {
		for _, ev := range o.St.tr.list() {
			info := ev.Info
			if ev.Kind != "loopexit" || info == nil || seen[info] {
				continue
			}
			seen[info] = true
			x := &lexing{m: m, r: r, e: e, info: info, data: args[1]}
			for _, evs := range info.Events {
				for _, ev := range evs {
					if ev.Kind != "index" || ev.A[0].Op != OPure || !strings.HasPrefix(ev.A[0].S, "(*regexp.Regexp).FindAll") {
						continue
					}
					if _, step := info.induction(e.tt, ev.A[1]); step != 1 {
						continue
					}
					kind := strings.TrimPrefix(ev.A[0].S, "(*regexp.Regexp).FindAll")
					x.re, x.idx = ev.A[0].A[0], ev.A[1]
					if strings.HasSuffix(kind, "Index") {
						x.locs = ev.A[0]
					}
					if strings.Contains(kind, "Submatch") {
						x.subs = ev.A[0]
					}
				}
			}
			for _, sym := range sortedInit(info) {
				if sym.T == nil || typeName(sliceElemOrNil(sym.T)) != "XTemplateParam" {
					continue
				}
				for i, b := range info.Back[sym] {
					if ps := e.tt.parts(info.Backs[i].f.norm(b)); len(ps) > 1 && ps[0] == sym {
						x.acc = sym
					}
				}
			}
			if x.acc != nil && x.subs != nil && x.locs != nil {
				found = x
			}
		}
	}
	if found == nil {
		r.fail(m, "form-known", fn, fn.Pos(), nil, "the text is not cut into tokens by a loop over the matches of one pattern")
	}
	return found, outs
}

func sliceElemOrNil(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Int]
}

func sortedInit(info *LoopInfo) []*Term {
	var out []*Term
	for t := range info.Init {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// recognition: each form of token gives its kind and its name; text outside of tokens is kept
func recognition(m *Module, r *Report) {
	x, outs := findLexing(m, r)
	if x == nil {
		return
	}
	e, tt, info := x.e, x.e.tt, x.info
	fn := info.Fn
	pat, ok := rePattern(x.re)
	if !ok {
		r.fail(m, "form-known", fn, info.Pos, info.Entry, "the pattern of the tokens is not a constant")
		return
	}
	parsed, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		r.fail(m, "form-known", fn, info.Pos, info.Entry, "the pattern of the tokens: %v", err)
		return
	}
	groups := parsed.MaxCap()
	forms := map[string]*form{}
	for _, seq := range alternatives(parsed) {
		f, odd := formOf(seq)
		if f == nil {
			r.fail(m, "form-known", fn, info.Pos, info.Entry, "an alternative of the pattern of the tokens is no form of the language: %s", odd)
			return
		}
		key := f.open + " " + f.close
		known := false
		for _, t := range tokenForms {
			known = known || t.open == f.open && t.close == f.close && t.named == (f.name != 0)
		}
		r.ob("form-known")
		if !known {
			r.fail(m, "form-known", fn, info.Pos, info.Entry, "%q … %q is recognised as a token, which is no form of the language", f.open, f.close)
			continue
		}
		if forms[key] != nil {
			r.fail(m, "form-known", fn, info.Pos, info.Entry, "%q … %q is recognised twice", f.open, f.close)
		}
		forms[key] = f
	}
	pt, dt := fieldByName(m.Named("XTemplateParam"), "ParamType"), fieldByName(m.Named("XTemplateParam"), "Data")
	str := m.constInt("MetaString")
	if pt < 0 || dt < 0 || str == nil {
		r.errf("%s: the fields of a token were not found", m.Name)
		return
	}
	// the end of the previous match
	var prev *Term
	for _, sym := range sortedInit(info) {
		if !isIntType(sym.T) || len(info.Backs) == 0 {
			continue
		}
		if n, ok := info.Init[sym].intVal(); !ok || n != 0 {
			continue
		}
		all := true
		for i, b := range info.Back[sym] {
			all = all && info.Backs[i].f.norm(b) == x.at(info.Backs[i].clone(), x.locs, 1)
		}
		if all {
			prev = sym
		}
	}
	r.ob("text-position")
	if prev == nil {
		r.fail(m, "text-position", fn, info.Pos, info.Entry, "the end of a token is not where the following text begins")
	}
	type tok struct{ kind, data *Term }
	pieces := func(st *State, t *Term) ([]tok, bool) {
		ps := tt.parts(st.f.norm(t))
		if len(ps) == 0 || ps[0] != x.acc {
			return nil, false
		}
		var out []tok
		for _, p := range ps[1:] {
			if p.Op != OElem {
				return nil, false
			}
			out = append(out, tok{st.f.norm(tt.Field(p.A[0], pt, types.Typ[types.Int])), st.f.norm(tt.Field(p.A[0], dt, types.Typ[types.String]))})
		}
		return out, true
	}
	for _, t := range tokenForms {
		r.ob("form-present")
		f := forms[t.open+" "+t.close]
		if f == nil {
			r.fail(m, "form-present", fn, info.Pos, info.Entry, "no alternative of the pattern recognises %s…%s", t.open, t.close)
			continue
		}
		if t.named {
			r.ob("name-characters")
			for _, c := range t.chars {
				if !accepts(f.re, c) {
					r.fail(m, "name-characters", fn, info.Pos, info.Entry, "the name in %s…%s cannot contain %q", t.open, t.close, c)
				}
			}
			r.ob("name-ends")
			if c := []rune(t.close)[0]; !lazy(f.re) && accepts(f.re, c) {
				r.fail(m, "name-ends", fn, info.Pos, info.Entry, "the name in %s…%s does not end at the first %s", t.open, t.close, t.close)
			}
		}
		r.ob("end-of-line")
		if f.eol && t.kind != "MetaComment" && !strings.HasPrefix(t.kind, "MetaTemplate") {
			r.fail(m, "end-of-line", fn, info.Pos, info.Entry, "the end of line after %s…%s is lost", t.open, t.close)
		}
		kind := m.constInt(t.kind)
		if kind == nil {
			r.errf("%s: no constant %s", m.Name, t.kind)
			continue
		}
		for i, bs := range info.Backs {
			st := bs.clone()
			x.assume(st, f, groups)
			if st.f.bad {
				continue
			}
			for _, before := range []bool{true, false} {
				s := st.clone()
				if prev != nil {
					start := x.at(s, x.locs, 0)
					s.f.assume(tt.LeT(prev, start), true)
					s.f.assume(tt.EqInt(prev, start), !before)
				} else if before {
					continue
				}
				if s.f.bad {
					continue
				}
				r.ob("recognised " + t.open + t.close)
				got, ok := pieces(s, info.Back[x.acc][i])
				if !ok || len(got) == 0 {
					r.fail(m, "recognised", fn, info.Pos, s, "%s…%s gives no token", t.open, t.close)
					continue
				}
				last := got[len(got)-1]
				got = got[:len(got)-1]
				if n, ok := last.kind.intVal(); !ok || n != *kind {
					r.fail(m, "recognised", fn, info.Pos, s, "%s…%s gives a token of kind %s, not %s", t.open, t.close, x.kindName(last.kind), t.kind)
				} else if t.named && last.data != x.group(s, f.name) {
					r.fail(m, "recognised", fn, info.Pos, s, "the token of %s…%s gets the name %s, not the one between the marks", t.open, t.close, last.data.str(5))
				}
				if prev == nil {
					continue
				}
				r.ob("text-kept")
				want := s.f.norm(tt.Pure("substr", types.Typ[types.String], x.data, prev, x.at(s, x.locs, 0)))
				switch {
				case before && len(got) != 1 || len(got) > 1:
					r.fail(m, "text-kept", fn, info.Pos, s, "the text before %s…%s gives %d tokens", t.open, t.close, len(got))
				case len(got) == 1 && (got[0].kind != tt.Int(*str) || got[0].data != want):
					r.fail(m, "text-kept", fn, info.Pos, s, "the text before %s…%s is not kept as it is", t.open, t.close)
				}
			}
		}
		r.need("recognised "+t.open+t.close, 1)
	}
	// all matches, and the text after the last
	for _, o := range outs {
		if o.Panic {
			continue
		}
		in := false
		var tail []*Ev
		for _, ev := range o.St.tr.list() {
			if ev.Kind == "loopexit" && ev.Info == info {
				in = true
			}
			if in && ev.Kind == "append" {
				tail = append(tail, ev)
			}
		}
		if !in {
			continue
		}
		r.ob("all-matches")
		whole := false
		for _, q := range []*Term{x.locs, x.subs} {
			if n, ok := q.A[2].intVal(); !ok || n >= 0 {
				r.fail(m, "all-matches", fn, info.Pos, o.St, "the number of matches of the pattern is limited")
			}
		}
		for _, it := range e.over(o.St, info) {
			whole = whole || it.seq == x.locs || it.seq == x.subs
		}
		if !whole {
			r.fail(m, "all-matches", fn, info.Pos, o.St, "not all the matches of the pattern are turned into tokens")
		}
		if prev == nil {
			continue
		}
		s := o.St.clone()
		n := tt.Len(x.data)
		s.f.assume(tt.LtT(prev, n), true)
		if s.f.bad {
			continue
		}
		r.ob("text-after")
		good := false
		want := s.f.norm(tt.Pure("substr", types.Typ[types.String], x.data, prev, n))
		for _, ev := range tail {
			if s.f.norm(ev.A[0]) != s.f.norm(x.acc) || len(ev.A) < 2 {
				continue
			}
			ps := tt.parts(s.f.norm(ev.A[1]))
			if len(ps) == 1 && ps[0].Op == OElem {
				el := ps[0].A[0]
				good = good || s.f.norm(tt.Field(el, pt, types.Typ[types.Int])) == tt.Int(*str) && s.f.norm(tt.Field(el, dt, types.Typ[types.String])) == want
			}
		}
		if !good {
			r.fail(m, "text-after", fn, info.Pos, s, "the text after the last token is not kept")
		}
	}
	r.need("text-after", 1)
	r.need("text-kept", 9)
}

func (x *lexing) kindName(t *Term) string {
	n, ok := t.intVal()
	if !ok {
		return t.str(4)
	}
	for _, name := range x.m.Pkg.Types.Scope().Names() {
		if k := x.m.constInt(name); strings.HasPrefix(name, "Meta") && k != nil && *k == n {
			return name
		}
	}
	return fmt.Sprint(n)
}
