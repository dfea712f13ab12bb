package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Viol is one obligation that does not hold.
type Viol struct {
	Rule  string   `json:"rule"`
	Mod   string   `json:"module"`
	Fn    string   `json:"function"`
	Pos   string   `json:"at"`
	Msg   string   `json:"what"`
	Trace []string `json:"path,omitempty"`
}

func (v Viol) key() string { return v.Rule + "|" + v.Mod + "|" + v.Fn + "|" + v.Msg }

// Report collects what one check analysed and found.
type Report struct {
	ID     string
	viols  map[string]Viol
	obs    map[string]int
	funcs  map[string]bool
	entry  map[string]bool
	paths  int
	instrs int
	loops  int
	errs   []string
	min    map[string]int
	notes  []string
}

func newReport(id string) *Report {
	return &Report{ID: id, viols: map[string]Viol{}, obs: map[string]int{}, funcs: map[string]bool{}, entry: map[string]bool{}, min: map[string]int{}}
}

// ob counts one examined instance of a rule.
func (r *Report) ob(rule string) { r.obs[rule]++ }

// need: fewer instances than this mean that the analysis lost sight of the code.
func (r *Report) need(rule string, n int) { r.min[rule] = n }

func (r *Report) errf(f string, a ...interface{}) { r.errs = append(r.errs, fmt.Sprintf(f, a...)) }

func (r *Report) fail(m *Module, rule string, fn *ssa.Function, pos token.Pos, st *State, f string, a ...interface{}) {
	if !pos.IsValid() && fn != nil {
		pos = fn.Pos() // a return without a place of its own
	}
	v := Viol{Rule: rule, Mod: m.Name, Pos: m.Pos(pos), Msg: fmt.Sprintf(f, a...)}
	if fn != nil {
		v.Fn = fn.RelString(m.Pkg.Types)
	}
	if st != nil {
		v.Trace = trace(m, st)
	}
	if _, ok := r.viols[v.key()+v.Pos]; !ok {
		r.viols[v.key()+v.Pos] = v
	}
}

// trace renders the events that lead to the state
func trace(m *Module, st *State) []string {
	var out []string
	for _, ev := range st.tr.list() {
		switch ev.Kind {
		case "load", "index", "seqlen", "mapnext", "backedge", "loopexit":
			continue
		}
		var as []string
		for i, a := range ev.A {
			if i < 3 {
				as = append(as, a.str(3))
			}
		}
		fn := ""
		if ev.Fn != nil {
			fn = ev.Fn.Name()
		}
		out = append(out, fmt.Sprintf("%s in %s: %s %s %s", m.Pos(ev.Pos), fn, ev.Kind, ev.Name, strings.Join(as, ", ")))
	}
	if len(out) > 60 {
		out = out[len(out)-60:]
	}
	return out
}

// Ctx gives the checks access to the analysed modules.
type Ctx struct {
	mods map[string]*Module
	tier string
}

func (c *Ctx) each() []*Module { return []*Module{c.mods["v1"], c.mods["v2"]} }

// analyse runs the engine on one entry point and adds its statistics to the report.
func (r *Report) analyse(m *Module, fn *ssa.Function, cfg Config, pre func(s *State, args []*Term)) (*Engine, []Outcome) {
	e := newEngine(m, newTermTab(m.Pkg.Types), cfg)
	outs := e.Run(fn, pre)
	r.entry[m.Name+" "+fn.RelString(m.Pkg.Types)] = true
	for f := range e.Funcs {
		r.funcs[m.Name+" "+f.RelString(m.Pkg.Types)] = true
	}
	r.paths += len(outs)
	r.instrs += e.NInstr
	r.loops += e.NLoops
	if e.Overflow {
		r.errf("%s %s: too many abstract paths", m.Name, fn.RelString(m.Pkg.Types))
	}
	for u := range e.Unsup {
		r.notes = append(r.notes, fmt.Sprintf("%s %s: not modelled: %s", m.Name, fn.RelString(m.Pkg.Types), u))
	}
	return e, outs
}

type checkFn func(c *Ctx, r *Report)

type checkDef struct {
	title string
	run   checkFn
	expl  string
}

var checks = map[string]checkDef{}

func register(id, title, expl string, f checkFn) { checks[id] = checkDef{title, f, expl} }

// knownFindings reads the committed list of accepted defects: "finding: property=<id> key=<key> <text>"
func knownFindings(file, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		if i := strings.Index(l, " :: "); i >= 0 {
			out[l[:i]] = l[i+4:]
		}
	}
	return out
}

// runCheck decides one property and writes its evidence. It returns the exit code.
func runCheck(c *Ctx, id, tier string, seed int, outDir, known string, t0 time.Time) (code int) {
	def, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	r := newReport(id)
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.errf("the checker failed: %v", p)
				if os.Getenv("XVERIF_DEBUG") != "" {
					panic(p)
				}
			}
		}()
		def.run(c, r)
	}()
	var vs []Viol
	for _, v := range r.viols {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].key() < vs[j].key() })
	kf := knownFindings(known, id)
	var open []Viol
	for _, v := range vs {
		if txt, ok := kf[v.key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, txt)
			continue
		}
		open = append(open, v)
	}
	total := 0
	if len(open) == 0 && len(r.errs) == 0 {
		// the places a rule is about are gone: the property is not shown
		var gone []string
		for rule, n := range r.min {
			if r.obs[rule] < n {
				gone = append(gone, rule)
			}
		}
		sort.Strings(gone)
		for _, rule := range gone {
			open = append(open, Viol{Rule: rule, Mod: "both", Pos: "/repo", Msg: fmt.Sprintf("only %d places this rule is about are left in the repository, at least %d expected: what it asks for is not done there any more", r.obs[rule], r.min[rule])})
		}
	}
	for _, n := range r.obs {
		total += n
	}
	if total == 0 && len(r.errs) == 0 {
		r.errf("nothing was examined")
	}
	names := func(m map[string]bool) []string {
		var out []string
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	cov := map[string]interface{}{
		"explanation":            def.expl,
		"rules":                  r.obs,
		"obligations":            total,
		"failed":                 len(open),
		"entry_points":           names(r.entry),
		"functions_analysed":     names(r.funcs),
		"n_entry_points":         len(r.entry),
		"n_functions":            len(r.funcs),
		"abstract_exit_states":   r.paths,
		"instructions_evaluated": r.instrs,
		"loops_summarised":       r.loops,
	}
	if len(r.notes) > 0 {
		sort.Strings(r.notes)
		cov["not_modelled"] = r.notes
	}
	if len(r.errs) > 0 {
		cov["errors"] = r.errs
	}
	ev := map[string]interface{}{
		"property":   id,
		"tier":       tier,
		"seed":       seed,
		"level":      "other",
		"coverage":   cov,
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(open),
		"assumptions": []string{
			"the go/ssa form of the current source is the program",
			"standard library functions behave as modelled; LOG is false except in the check on logging",
		},
	}
	if outDir != "" {
		os.MkdirAll(outDir, 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(outDir, id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(open) > 0 {
		replay := filepath.Join(outDir, id+".replay.json")
		b, _ := json.MarshalIndent(open, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0o644)
		for _, v := range open {
			fmt.Printf("%s: %s [%s] %s %s: %s\n", id, v.Pos, v.Mod, v.Rule, v.Fn, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	if len(r.errs) > 0 {
		for _, e := range r.errs {
			fmt.Fprintf(os.Stderr, "%s: error: %s\n", id, e)
		}
		return 2
	}
	fmt.Printf("%s: held (%d obligations, %d entry points, %d functions, %d exit states)\n", id, total, len(r.entry), len(r.funcs), r.paths)
	return 0
}
