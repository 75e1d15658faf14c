package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"

func main() {
	repo := flag.String("repo", "/repo", "repository")
	prop := flag.String("prop", "", "property id(s), comma separated, or all")
	tier := flag.String("tier", "quick", "quick|thorough")
	dump := flag.String("dump", "", "function whose facts to print")
	assume := flag.String("assume", "", "assumptions separated by ;")
	given := flag.String("given", "", "case assumptions separated by ;")
	sites := flag.String("sites", "", "interesting call names, comma separated")
	cls := flag.String("cls", "aZN", "exit classes to dump")
	lvl := flag.Int("lvl", 4, "max level to dump")
	verbose := flag.Bool("v", false, "list obligations")
	flag.StringVar(&verifDir, "verif", verifDir, "verification directory")
	flag.Parse()
	t0 := time.Now()
	if *dump != "" {
		w, err := loadWorld(*repo)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		dumpFn(w, *dump, *assume, *given, *sites, *cls, *lvl)
		return
	}
	if *prop == "wire" { // prints the wire layouts, to be reviewed into rules/wire.golden
		w, err := loadWorld(*repo)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		fmt.Print(w.wireDB().dump())
		return
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	for _, id := range ids {
		if props[id] == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
	}
	w, err := loadWorld(*repo)
	bad := false
	for _, id := range ids {
		t1 := time.Now()
		if id == ids[0] {
			t1 = t0
		}
		if runProp(w, err, id, *tier, *verbose, t1) {
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}

var lineNo = regexp.MustCompile(`:\d+`)

func (v Violation) Key() string {
	return lineNo.ReplaceAllString(v.Where, "") + " | " + v.What
}

// loadKnown: lines "KNOWN property=<id> <key> || <description>".
func loadKnown(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "KNOWN property=" + id + " "
		if strings.HasPrefix(l, p) {
			kv := strings.SplitN(strings.TrimPrefix(l, p), " || ", 2)
			d := kv[0]
			if len(kv) == 2 {
				d = kv[1]
			}
			r[strings.TrimSpace(kv[0])] = d
		}
	}
	return r
}

func runProp(w *World, loadErr error, id, tier string, verbose bool, t0 time.Time) (bad bool) {
	c := &Ctx{w: w, prop: id, tier: tier, funcs: map[string]bool{}, analyses: map[string]*Analysis{}}
	if loadErr != nil {
		c.fail("load", "/repo", "the tree cannot be loaded and type-checked: "+loadErr.Error())
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.fail("engine", "analysis", fmt.Sprintf("undecided: %v", r))
					if os.Getenv("QKVERIF_TRACE") != "" {
						debug.PrintStack()
					}
				}
			}()
			props[id].run(c)
		}()
		if len(c.obs) < props[id].minObs && len(c.viols) == 0 {
			c.fail("vacuity", "analysis", fmt.Sprintf("only %d obligations decided, at least %d expected", len(c.obs), props[id].minObs))
		}
	}
	known := loadKnown(id)
	var viols []Violation
	seen := map[string]bool{}
	var knownHit []string
	for _, v := range c.viols {
		if seen[v.Key()] {
			continue
		}
		seen[v.Key()] = true
		if d, ok := known[v.Key()]; ok {
			knownHit = append(knownHit, d)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, d)
			continue
		}
		viols = append(viols, v)
	}
	if verbose {
		for _, o := range c.obs {
			fmt.Printf("ok   %s  %s  %s\n", o.Rule, o.Where, o.Req)
		}
	}
	replay := filepath.Join(verifDir, "evidence", id+".replay.json")
	for _, v := range viols {
		fmt.Printf("  [%s] %s: %s\n", v.Rule, v.Where, v.What)
	}
	nf := 0
	for _, a := range c.analyses {
		nf += a.nFuncs
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fl := make([]string, 0, len(c.funcs))
	for f := range c.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	obs := c.obs
	if len(obs) > 400 {
		obs = obs[:400]
	}
	for i := range obs {
		if len(obs[i].Req) > 300 {
			obs[i].Req = obs[i].Req[:300] + "…"
		}
	}
	nall := 0
	if w != nil {
		nall = len(w.all)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": props[id].level,
		"wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]any{
			"kind":        "other",
			"explanation": props[id].explain,
			"obligations": len(c.obs) + len(c.viols), "discharged": len(c.obs),
			"functions_loaded": nall, "function_summaries": nf, "call_sites": c.nSites, "anchors": fl,
			"obligation_list": obs, "notes": c.notes,
			"violation_list": viols, "known_findings": knownHit,
		},
		"violations":  len(viols),
		"assumptions": props[id].assumptions,
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d obligations discharged, %d violations, %d known findings (%d function summaries)\n", id, len(c.obs), len(viols), len(knownHit), nf)
	if w != nil {
		for f := range w.unconverged {
			fmt.Fprintln(os.Stderr, "unconverged:", f)
		}
	}
	if len(viols) > 0 {
		rb, _ := json.MarshalIndent(map[string]any{"property": id, "violations": viols, "how": "re-run: /verif/run.sh " + id}, "", " ")
		os.WriteFile(replay, rb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return true
	}
	os.Remove(replay)
	return false
}

func dumpFn(w *World, dump, assume, given, sites, cls string, lvl int) {
	it := map[string]bool{}
	for _, s := range strings.Split(sites, ",") {
		it[s] = true
	}
	split := func(s string) []string {
		if s == "" {
			return nil
		}
		return strings.Split(s, ";")
	}
	a := newAnalysis(w, it, split(assume)...)
	fn := w.funcs[dump]
	if fn == nil {
		for n := range w.funcs {
			if strings.Contains(n, dump) {
				fmt.Println(n)
			}
		}
		os.Exit(2)
	}
	s := a.summaryGiven(fn, split(given))
	if s == nil {
		fmt.Println("no summary")
		return
	}
	for _, c := range []byte(cls) {
		cs := s.cls[c]
		if cs == nil {
			fmt.Printf("== class %c unreachable\n", c)
			continue
		}
		fmt.Printf("== class %c\n", c)
		for _, f := range cs.facts.list() {
			if f.Lvl <= lvl {
				fmt.Printf("  [%d] %s\n", f.Lvl, f)
			}
		}
		for i, r := range cs.results {
			if r != nil {
				fmt.Printf("  result %d = %s\n", i, r.key)
			}
		}
	}
	for _, x := range s.sites {
		fmt.Printf("== site %s %s at %s %v %s\n", x.Name, args(x.Args), w.pos(x.Pos), x.Chain, x.Mode)
		for _, f := range x.Facts.list() {
			if f.Lvl <= lvl {
				fmt.Printf("    [%d] %s\n", f.Lvl, f)
			}
		}
	}
}

func args(a []*Term) string {
	var s []string
	for _, x := range a {
		s = append(s, x.key)
	}
	return "(" + strings.Join(s, ", ") + ")"
}
