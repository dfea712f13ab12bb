package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 3 && os.Args[1] == "-dump" {
		dump(os.Args[2], os.Args[3], strings.Join(os.Args[4:], " "))
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-stats" {
		stats(false)
		return
	}
	prop := flag.String("property", "", "property to decide, or a comma separated list, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int("seed", 1, "seed (the analysis is deterministic)")
	out := flag.String("out", "", "directory of the evidence")
	known := flag.String("known", "", "file of known findings")
	flag.Parse()
	t0 := time.Now()
	mods, err := loadAll()
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
	c := &Ctx{mods: mods, tier: *tier}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	code := 0
	for _, id := range ids {
		if r := runCheck(c, id, *tier, *seed, *out, *known, t0); r > code {
			code = r
		}
	}
	os.Exit(code)
}

func stats(conc bool) {
	mods, err := loadAll()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, n := range []string{"v1", "v2"} {
		m := mods[n]
		for _, fn := range m.EntryPoints() {
			t0 := time.Now()
			e := newEngine(m, newTermTab(m.Pkg.Types), Config{Concurrent: conc})
			outs := e.Run(fn, nil)
			fmt.Println(n, fn.RelString(m.Pkg.Types), "outcomes", len(outs), "instr", e.NInstr, "overflow", e.Overflow, "unsup", e.Unsup, time.Since(t0))
		}
	}
}

func loadAll() (map[string]*Module, error) {
	scratch, err := os.MkdirTemp("", "xverif")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	out := map[string]*Module{}
	for _, n := range [][2]string{{"v1", repoDir()}, {"v2", repoDir() + "/v2"}} {
		m, err := loadModule(n[0], n[1], scratch)
		if err != nil {
			return nil, err
		}
		out[n[0]] = m
	}
	return out, nil
}

// dump prints the abstract outcomes of one function (debugging aid). Options: c (concurrent), e (events)
func dump(mod, name, opts string) {
	mods, err := loadAll()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	m := mods[mod]
	var fn *ssa.Function
	if i := strings.Index(name, "."); i >= 0 {
		fn = m.Method(name[:i], name[i+1:])
	} else {
		fn = m.Func(name)
	}
	if fn == nil {
		fmt.Println("no function", name)
		os.Exit(2)
	}
	t0 := time.Now()
	e := newEngine(m, newTermTab(m.Pkg.Types), Config{Concurrent: strings.Contains(opts, "c")})
	outs := e.Run(fn, nil)
	fmt.Println("outcomes", len(outs), "instr", e.NInstr, "terms", e.tt.n, "overflow", e.Overflow, "unsup", e.Unsup, time.Since(t0))
	for i, o := range outs {
		fmt.Printf("--- %d %s panic=%v ret=%v\n", i, m.Pos(o.Pos), o.Panic, o.Ret)
		dumpState(o.St)
		if strings.Contains(opts, "e") {
			for _, x := range o.St.tr.list() {
				fmt.Printf("      %s %s %v -> %v  %s\n", x.Kind, x.Name, x.A, x.Res, m.Pos(x.Pos))
			}
		}
	}
}

func dumpState(st *State) {
	var fs []string
	for c, v := range st.f.truth {
		fs = append(fs, fmt.Sprintf("   %v = %v", c, v))
	}
	for _, d := range st.f.le {
		fs = append(fs, fmt.Sprintf("   %v <= 0", d))
	}
	for a, b := range st.f.rep {
		fs = append(fs, fmt.Sprintf("   %v -> %v", a, b))
	}
	sort.Strings(fs)
	fmt.Println(strings.Join(fs, "\n"))
	fs = nil
	for a, v := range st.mem {
		fs = append(fs, fmt.Sprintf("  mem %v := %v", a, v))
	}
	for a, v := range st.maps {
		fs = append(fs, fmt.Sprintf("  map %v := %v", a, v))
	}
	for _, fa := range st.foralls {
		fs = append(fs, fmt.Sprintf("  forall %v in %v: %v = %v", fa.Idx, fa.S, fa.Atom, fa.Val))
	}
	sort.Strings(fs)
	fmt.Println(strings.Join(fs, "\n"))
}
