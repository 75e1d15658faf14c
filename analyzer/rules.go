package main

import (
	"embed"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed rules/*.rules
var ruleFS embed.FS

// Rule is one block of a .rules file.
type Rule struct {
	line   int
	kind   string // fact | site | every | nosite
	fn     string
	assume []string
	given  []string
	on     byte
	site   string
	min    int
	max    int
	lvl    int
	reqs   []ruleReq
	denies []ruleReq // facts that must not be established at the site
}

type ruleReq struct {
	src  string
	line int
}

// parseRules reads
//
//	fn NAME            entry function
//	assume FACT        configuration assumption, applied in every function
//	given FACT         case assumption, applied in the entry function only
//	on Z|N|a           exit class the following reqs speak about
//	req FACT
//	dead Z|N|a         no exit of that class is reachable under the givens
//	site [min=N] CALL  every site reachable from fn that matches; reqs follow
//	nosite CALL        no such site is reachable from fn
//	every NAME         every call of NAME in the repository; reqs follow
func parseRules(name string) []*Rule {
	b, err := ruleFS.ReadFile("rules/" + name + ".rules")
	if err != nil {
		return nil
	}
	var out []*Rule
	var fn string
	var assume, given []string
	var cur *Rule
	for i, ln := range strings.Split(string(b), "\n") {
		if j := strings.Index(ln, " # "); j >= 0 {
			ln = ln[:j]
		}
		ln = strings.TrimSpace(ln)
		if ln == "" || strings.HasPrefix(ln, "#") {
			continue
		}
		kw, rest := ln, ""
		if j := strings.IndexAny(ln, " \t"); j >= 0 {
			kw, rest = ln[:j], strings.TrimSpace(ln[j:])
		}
		start := func(r *Rule) {
			r.line, r.fn = i+1, fn
			r.assume, r.given = append([]string(nil), assume...), append([]string(nil), given...)
			r.lvl = 99
			out = append(out, r)
			cur = r
		}
		opts := func(r *Rule) {
			for {
				f := strings.Fields(rest)
				if len(f) > 0 && strings.HasPrefix(f[0], "min=") {
					fmt.Sscanf(f[0], "min=%d", &r.min)
				} else if len(f) > 0 && strings.HasPrefix(f[0], "max=") {
					fmt.Sscanf(f[0], "max=%d", &r.max)
				} else if len(f) > 0 && strings.HasPrefix(f[0], "lvl=") {
					fmt.Sscanf(f[0], "lvl=%d", &r.lvl)
				} else {
					return
				}
				rest = strings.TrimSpace(rest[len(f[0]):])
			}
		}
		switch kw {
		case "fn":
			fn, assume, given, cur = rest, nil, nil, nil
		case "assume":
			assume = append(assume, rest)
		case "given":
			given = append(given, rest)
		case "clear":
			assume, given = nil, nil
		case "ungiven":
			given = nil
		case "dead":
			start(&Rule{kind: "dead", on: rest[0]})
		case "on":
			start(&Rule{kind: "fact", on: rest[0]})
		case "site":
			r := &Rule{kind: "site", min: 1}
			start(r)
			opts(r)
			r.site = rest
		case "nosite":
			r := &Rule{kind: "nosite"}
			start(r)
			opts(r)
			r.site = rest
		case "every":
			r := &Rule{kind: "every", min: 1}
			start(r)
			opts(r)
			r.fn = rest
		case "only":
			r := &Rule{kind: "only"}
			start(r)
			opts(r)
			r.site = rest
		case "freshappend":
			start(&Rule{kind: kw})
		case "nowrite", "deferwrite":
			r := &Rule{kind: kw}
			start(r)
			r.site = rest
		case "callers", "writers":
			r := &Rule{kind: kw, min: 1}
			start(r)
			opts(r)
			r.site = rest
		case "from", "one":
			cur.reqs = append(cur.reqs, ruleReq{rest, i + 1})
		case "deny":
			cur.denies = append(cur.denies, ruleReq{rest, i + 1})
		case "req":
			if cur == nil {
				panic(fmt.Sprintf("%s:%d: req outside a block", name, i+1))
			}
			cur.reqs = append(cur.reqs, ruleReq{rest, i + 1})
		default:
			panic(fmt.Sprintf("%s:%d: unknown keyword %s", name, i+1, kw))
		}
	}
	return out
}

type Violation struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	What  string `json:"what"`
	At    string `json:"at,omitempty"`
}

type Obligation struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Req   string `json:"obligation"`
}

type Ctx struct {
	w        *World
	prop     string
	tier     string
	obs      []Obligation
	viols    []Violation
	known    []string
	notes    []string
	funcs    map[string]bool
	analyses map[string]*Analysis
	nSites   int
	curAn    *Analysis
}

func (c *Ctx) ok(rule, where, req string) { c.obs = append(c.obs, Obligation{rule, where, req}) }
func (c *Ctx) fail(rule, where, what string) {
	c.viols = append(c.viols, Violation{Rule: rule, Where: where, What: what})
}
func (c *Ctx) check(cond bool, rule, where, what string) {
	if cond {
		c.ok(rule, where, what)
	} else {
		c.fail(rule, where, what)
	}
}

func (c *Ctx) fn(name, rule string) *ssa.Function {
	f := c.w.funcs[name]
	if i := strings.IndexByte(name, '{'); f == nil && i > 0 {
		f = c.w.fieldFunc(name[:i], strings.TrimSuffix(name[i+1:], "}"))
	}
	if f == nil {
		c.fail(rule, name, "anchor function not found")
	} else {
		c.funcs[name] = true
	}
	return f
}

// fieldFunc: the function stored into the struct field by fn or the functions of
// its package it calls (a literal, a method value or a plain function).
func (w *World) fieldFunc(fn, field string) *ssa.Function {
	var out *ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 2 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Pkg == f.Pkg {
						visit(g, d+1)
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fv, _ := fieldOf(st.Addr)
				if fv == nil || fv.Name() != field {
					continue
				}
				v := st.Val
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				var g *ssa.Function
				switch x := v.(type) {
				case *ssa.MakeClosure:
					g = x.Fn.(*ssa.Function)
				case *ssa.Function:
					g = x
				}
				if g != nil && g.Synthetic != "" && g.Object() != nil {
					if fo, ok := g.Object().(*types.Func); ok {
						if m := w.prog.FuncValue(fo); m != nil {
							g = m
						}
					}
				}
				if g != nil {
					out = g
				}
			}
		}
	}
	visit(w.funcs[fn], 0)
	return out
}

func (c *Ctx) analysis(assume []string, interesting map[string]bool) *Analysis {
	var ks []string
	for k := range interesting {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	key := strings.Join(assume, ";") + "|" + strings.Join(ks, ",")
	if a := c.analyses[key]; a != nil {
		return a
	}
	a := newAnalysis(c.w, interesting, assume...)
	c.analyses[key] = a
	return a
}

// given: analyse fn afresh under case assumptions of its own.
func (a *Analysis) summaryGiven(fn *ssa.Function, given []string) *Summary {
	if len(given) == 0 {
		return a.summary(fn)
	}
	a.inprog[fn] = true
	f0 := a.newFunc(fn)
	f0.run()
	fa := a.newFunc(fn)
	fa.fixedPhi = f0.phiVal
	for _, g := range given {
		fa.given = append(fa.given, parsePat(a.w, fn, g))
	}
	fa.run()
	s := fa.summarize()
	delete(a.inprog, fn)
	return s
}

func siteName(src string) string {
	e := src
	if i := strings.Index(e, "("); i >= 0 {
		e = e[:i]
	}
	if i := strings.LastIndexAny(e, "."); i >= 0 {
		e = e[i+1:]
	}
	return strings.TrimSpace(e)
}

func runRules(c *Ctx, name string) {
	for _, r := range parseRules(name) {
		c.runRule(r, name)
	}
}

func (c *Ctx) runRule(r *Rule, name string) {
	id := func(l int) string { return fmt.Sprintf("%s.rules:%d", name, l) }
	cond := ""
	if len(r.assume)+len(r.given) > 0 {
		cond = " [when " + strings.Join(append(append([]string{}, r.assume...), r.given...), ", ") + "]"
	}
	if r.kind == "callers" {
		c.callersRule(r, id)
		return
	}
	if r.kind == "writers" {
		c.writersRule(r, id)
		return
	}
	fn := c.fn(r.fn, id(r.line))
	if fn == nil {
		return
	}
	where := fmt.Sprintf("%s (%s)", r.fn, c.w.pos(fn.Pos()))
	switch r.kind {
	case "dead":
		a := c.analysis(r.assume, nil)
		s := a.summaryGiven(fn, r.given)
		if s == nil {
			c.fail(id(r.line), where, "cannot analyse")
		} else if s.cls[r.on] != nil {
			c.fail(id(r.line), where, fmt.Sprintf("the %s exit is reachable%s", clsName(r.on, fn), cond))
		} else {
			c.ok(id(r.line), where, fmt.Sprintf("the %s exit is unreachable%s", clsName(r.on, fn), cond))
		}
	case "fact":
		a := c.analysis(r.assume, nil)
		c.curAn = a
		s := a.summaryGiven(fn, r.given)
		if s == nil || s.cls[r.on] == nil {
			c.fail(id(r.line), where, fmt.Sprintf("no reachable exit of class %c%s", r.on, cond))
			return
		}
		exitFacts := func(cs *ClassSum) []*Fact {
			fs := cs.facts.list()
			for i, t := range cs.results {
				if t != nil {
					fs = append(fs, (&Fact{Kind: 's', A: mkP(fmt.Sprintf("ret%d", i)), B: t}).fin())
				}
			}
			for i, nn := range cs.nonnil {
				if nn {
					fs = append(fs, mkPair(mkP(fmt.Sprintf("ret%d", i)), mkC("nil"), NE, false))
				}
			}
			return fs
		}
		fs := exitFacts(s.cls[r.on])
		if ps := s.cls[r.on].parts; len(ps) > 1 && !c.solves(r, fn, fs, env{}) {
			// what all exits establish in different words
			all := true
			for _, p := range ps {
				all = all && c.solves(r, fn, exitFacts(p), env{})
			}
			if all {
				for _, q := range r.reqs {
					c.ok(id(q.line), where, fmt.Sprintf("on every %s exit%s: ", clsName(r.on, fn), cond)+q.src)
				}
				return
			}
		}
		c.checkReqs(r, fn, fs, env{}, where, fmt.Sprintf("on every %s exit%s: ", clsName(r.on, fn), cond), id)
	case "site", "nosite":
		nm := siteName(r.site)
		a := c.analysis(r.assume, map[string]bool{nm: true})
		c.curAn = a
		s := a.summaryGiven(fn, r.given)
		if s == nil {
			c.fail(id(r.line), where, "cannot analyse")
			return
		}
		sp := parsePat(c.w, fn, r.site)
		n := 0
		for _, x := range s.sites {
			if x.Name != nm || x.lvl > r.lvl {
				continue
			}
			t := mkCall(x.Name, x.Full, x.Args...)
			hit := false
			at := fmt.Sprintf("%s in %s", c.w.pos(x.Pos), objFull(x.Fn))
			if len(x.Chain) > 0 {
				at += " via " + strings.Join(x.Chain, " -> ")
			}
			match(sp.A, t, env{}, func(e env) bool {
				hit = true
				if r.kind == "site" {
					c.checkReqs(r, fn, x.Facts.list(), e, at, "at "+r.site+cond+": ", id)
				}
				return true
			})
			if hit {
				n++
				c.nSites++
				if r.kind == "nosite" {
					if n == 1 {
						c.viols = append(c.viols, Violation{Rule: id(r.line), Where: where, What: "forbidden call " + r.site + " reachable from " + r.fn + cond})
					}
					v := &c.viols[len(c.viols)-1]
					v.At = strings.TrimPrefix(v.At+"; "+at, "; ")
				}
			}
		}
		if r.kind == "site" && n < r.min {
			c.fail(id(r.line), where, fmt.Sprintf("%d sites match %s, at least %d expected%s", n, r.site, r.min, cond))
		}
		if r.kind == "nosite" {
			if n == 0 {
				c.ok(id(r.line), where, "no call "+r.site+" reachable"+cond)
			}
		}
		if r.max > 0 && n > r.max {
			c.fail(id(r.line), where, fmt.Sprintf("%d sites match %s, at most %d expected%s", n, r.site, r.max, cond))
		}
	case "only":
		a := c.analysis(r.assume, map[string]bool{r.site: true})
		c.curAn = a
		s := a.summaryGiven(fn, r.given)
		if s == nil {
			c.fail(id(r.line), where, "cannot analyse")
			return
		}
		for _, x := range s.sites {
			if x.Name != r.site || x.lvl > r.lvl {
				continue
			}
			t := mkCall(x.Name, x.Full, x.Args...)
			at := fmt.Sprintf("%s in %s", c.w.pos(x.Pos), objFull(x.Fn))
			if len(x.Chain) > 0 {
				at += " via " + strings.Join(x.Chain, " -> ")
			}
			hit := false
			for _, q := range r.reqs {
				match(parsePat(c.w, fn, q.src).A, t, env{}, func(env) bool { hit = true; return true })
			}
			c.nSites++
			c.check(hit, id(r.line), at, "call "+clip(t.key, 300)+" is one of the "+r.site+" calls allowed from "+r.fn+cond)
		}
	case "nowrite":
		nm := "store:" + r.site[strings.LastIndex(r.site, ".")+1:]
		a := c.analysis(r.assume, map[string]bool{nm: true})
		all := a.summary(fn)
		s := a.summaryGiven(fn, r.given)
		if s == nil || all == nil {
			c.fail(id(r.line), where, "cannot analyse")
			return
		}
		// writes of functions called from fn that the assumed case rules out
		ruledOut := map[ssa.Instruction]bool{}
		for _, x := range all.sites {
			if x.Name == nm && x.Fn != fn {
				ruledOut[x.Instr] = true
			}
		}
		for _, x := range s.sites {
			if x.Name == nm && !x.Dead {
				delete(ruledOut, x.Instr)
			}
		}
		n := 0
		c.liveWrites(fn, s.live, r.site, 0, map[*ssa.Function]bool{}, func(in ssa.Instruction) {
			if ruledOut[in] {
				return
			}
			n++
			c.fail(id(r.line), c.w.pos(in.Pos())+" in "+objFull(in.Parent()), r.site+" written in "+r.fn+cond)
		})
		if n == 0 {
			c.ok(id(r.line), where, "no write of "+r.site+" reachable"+cond)
		}
	case "freshappend":
		c.freshAppend(fn, id(r.line), where)
	case "deferwrite":
		a := c.analysis(r.assume, nil)
		s := a.summaryGiven(fn, r.given)
		n := 0
		if s != nil {
			for _, b := range fn.Blocks {
				if !s.live[b] {
					continue
				}
				for _, in := range b.Instrs {
					if df, ok := in.(*ssa.Defer); ok {
						if mc, ok := df.Call.Value.(*ssa.MakeClosure); ok {
							c.liveWrites(mc.Fn.(*ssa.Function), nil, r.site, 0, map[*ssa.Function]bool{}, func(ssa.Instruction) { n++ })
						} else if f := df.Call.StaticCallee(); f != nil {
							c.liveWrites(f, nil, r.site, 0, map[*ssa.Function]bool{}, func(ssa.Instruction) { n++ })
						}
					}
				}
			}
		}
		c.check(n > 0, id(r.line), where, r.site+" is restored by a deferred call"+cond)
	case "every":
		c.every(r, fn, id)
	}
}

// liveWrites reports the writes of a struct field in the live blocks of fn, the closures made
// there and the functions called statically from there.
func (c *Ctx) liveWrites(fn *ssa.Function, live map[*ssa.BasicBlock]bool, field string, d int, seen map[*ssa.Function]bool, rep func(ssa.Instruction)) {
	if seen[fn] || d > 3 {
		return
	}
	seen[fn] = true
	i := strings.LastIndex(field, ".")
	typ, fld := field[:i], field[i+1:]
	for _, b := range fn.Blocks {
		if live != nil && !live[b] {
			continue
		}
		for _, in := range b.Instrs {
			if fa := fieldWrite(in); fa != nil && structName(fa) == typ {
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() == fld && !freshBase(fa) {
					rep(in)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				c.liveWrites(mc.Fn.(*ssa.Function), nil, field, d+1, seen, rep)
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && c.w.inRepo(f) && f != fn {
					c.liveWrites(f, nil, field, d+1, seen, rep)
				}
			}
		}
	}
}

func clsName(b byte, fn *ssa.Function) string {
	switch b {
	case 'Z':
		return "nil-error/false"
	case 'N':
		return "error/true"
	}
	return "normal"
}

func (c *Ctx) solves(r *Rule, fn *ssa.Function, fs []*Fact, e env) bool {
	pats := make([]*pat, len(r.reqs))
	for i, q := range r.reqs {
		pats[i] = parsePat(c.w, fn, q.src)
		pats[i].an = c.curAn
	}
	var rec func(i int, e env) bool
	rec = func(i int, e env) bool {
		return i == len(pats) || pats[i].find(fs, e, func(e env, _ []*Fact) bool { return rec(i+1, e) })
	}
	return rec(0, e)
}

func (c *Ctx) checkReqs(r *Rule, fn *ssa.Function, fs []*Fact, e env, where, pre string, id func(int) string) {
	for _, q := range r.denies {
		p := parsePat(c.w, fn, q.src)
		p.an = c.curAn
		if p.find(fs, e, func(env, []*Fact) bool { return true }) {
			c.fail(id(q.line), where, pre+"must not hold, but is established: "+q.src)
		} else {
			c.ok(id(q.line), where, pre+"not: "+q.src)
		}
	}
	// binders may be shared between reqs: solve greedily with backtracking
	pats := make([]*pat, len(r.reqs))
	for i, q := range r.reqs {
		pats[i] = parsePat(c.w, fn, q.src)
		pats[i].an = c.curAn
	}
	best := 0
	var rec func(i int, e env) bool
	rec = func(i int, e env) bool {
		if i > best {
			best = i
		}
		if i == len(pats) {
			return true
		}
		return pats[i].find(fs, e, func(e env, _ []*Fact) bool { return rec(i+1, e) })
	}
	if rec(0, e) {
		for _, q := range r.reqs {
			c.ok(id(q.line), where, pre+q.src)
		}
		return
	}
	// report individually failing reqs
	any := false
	for i, q := range r.reqs {
		if !pats[i].find(fs, e, func(env, []*Fact) bool { return true }) {
			c.fail(id(q.line), where, pre+"required but not established: "+q.src)
			any = true
		} else {
			c.ok(id(q.line), where, pre+q.src)
		}
	}
	if !any {
		c.fail(id(r.reqs[best].line), where, pre+"required but not established together: "+r.reqs[best].src)
	}
}

// every call of fn in the repository satisfies the reqs at the call site or,
// failing that, at every call site of the enclosing function (3 levels).
func (c *Ctx) every(r *Rule, fn *ssa.Function, id func(int) string) {
	calls := c.w.callers[fn]
	n := 0
	for _, ci := range calls {
		if strings.HasSuffix(c.w.fset.Position(ci.Pos()).Filename, "_test.go") {
			continue
		}
		n++
		if !c.everyUp(r, fn, ci, 0) {
			c.fail(id(r.line), c.w.pos(ci.Pos())+" in "+objFull(ci.Parent()), "call of "+r.fn+" without: "+reqStr(r))
		} else {
			c.ok(id(r.line), c.w.pos(ci.Pos())+" in "+objFull(ci.Parent()), "call of "+r.fn+" only with: "+reqStr(r))
		}
	}
	if n < r.min {
		c.fail(id(r.line), r.fn, fmt.Sprintf("%d call sites, at least %d expected", n, r.min))
	}
}

func reqStr(r *Rule) string {
	var s []string
	for _, q := range r.reqs {
		s = append(s, q.src)
	}
	return strings.Join(s, " and ")
}

func (c *Ctx) everyUp(r *Rule, fn *ssa.Function, ci ssa.CallInstruction, depth int) bool {
	enc := ci.Parent()
	a := c.analysis(r.assume, map[string]bool{fn.Name(): true})
	top := enc
	for top.Parent() != nil {
		top = top.Parent()
	}
	okSomewhere := func(f *ssa.Function) (bool, int) {
		s := a.summary(f)
		if s == nil {
			return false, 0
		}
		n := 0
		for _, x := range s.sites {
			if x.Instr != ssa.Instruction(ci) {
				continue
			}
			n++
			e := env{}
			for i, t := range x.Args {
				e[fmt.Sprintf("A%d", i)] = t
			}
			fs := x.Facts.list()
			var rec func(i int, e env) bool
			rec = func(i int, e env) bool {
				if i == len(r.reqs) {
					return true
				}
				return parsePat(c.w, fn, r.reqs[i].src).find(fs, e, func(e env, _ []*Fact) bool { return rec(i+1, e) })
			}
			if !rec(0, e) {
				return false, n
			}
		}
		return n > 0, n
	}
	if ok, _ := okSomewhere(enc); ok {
		return true
	}
	// walk up
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function, d int) bool
	up = func(f *ssa.Function, d int) bool {
		if d > 3 || seen[f] {
			return false
		}
		seen[f] = true
		cs := c.w.callers[f]
		if f.Parent() != nil {
			ok, _ := okSomewhere(f.Parent())
			if ok {
				return true
			}
			return up(f.Parent(), d+1)
		}
		if len(cs) == 0 {
			return false
		}
		for _, k := range cs {
			if ok, _ := okSomewhere(k.Parent()); !ok {
				if !up(k.Parent(), d+1) {
					return false
				}
			}
		}
		return true
	}
	return up(enc, 0)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// callersRule: calls of the method/function named only occur in the listed functions, or in
// unexported helpers all of whose callers are (transitively) listed.
func (c *Ctx) callersRule(r *Rule, id func(int) string) {
	typ, nm := "", r.site
	if i := strings.LastIndex(nm, "."); i >= 0 {
		typ, nm = nm[:i], nm[i+1:]
	}
	okf := c.allowedFn(r)
	n := 0
	for _, f := range c.w.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cn, ct := calleeName(ci)
				if cn != nm || typ != "" && ct != typ {
					continue
				}
				if strings.HasSuffix(c.w.fset.Position(in.Pos()).Filename, "_test.go") {
					continue
				}
				n++
				c.check(okf(f, 0), id(r.line), c.w.pos(in.Pos())+" in "+objFull(f), r.site+" is called only by its listed callers")
			}
		}
	}
	// an unexported function that is no longer called has been folded into its
	// callers; the rules about what it wrote still apply there
	if n < r.min && nm[0] >= 'A' && nm[0] <= 'Z' {
		c.fail(id(r.line), r.site, fmt.Sprintf("%d call sites, at least %d expected", n, r.min))
	}
}

// allowedFn: is the function listed by the rule, or an unexported helper all of
// whose callers are (transitively) listed?
func (c *Ctx) allowedFn(r *Rule) func(f *ssa.Function, d int) bool {
	allowed := func(f *ssa.Function) bool {
		n := objFull(f)
		for _, q := range r.reqs {
			if n == q.src || strings.HasPrefix(q.src, "pkg:") && (pkgPathOf(f) == q.src[4:]) {
				return true
			}
		}
		return false
	}
	memo := map[*ssa.Function]bool{}
	var okf func(f *ssa.Function, d int) bool
	okf = func(f *ssa.Function, d int) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if allowed(f) {
			return true
		}
		if v, ok := memo[f]; ok {
			return v
		}
		memo[f] = false
		if d > 4 || f.Object() == nil || f.Object().Exported() {
			return false
		}
		n, all := 0, true
		for _, ci := range c.w.callers[f] {
			if strings.HasSuffix(c.w.fset.Position(ci.Pos()).Filename, "_test.go") {
				continue
			}
			n++
			if !okf(ci.Parent(), d+1) {
				all = false
			}
		}
		memo[f] = n > 0 && all
		return memo[f]
	}
	return okf
}

// fieldOf: the struct field an address designates (through element addressing), or nil.
func fieldOf(v ssa.Value) (*types.Var, *ssa.FieldAddr) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return st.Field(x.Field), x
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				v = x.X
				continue
			}
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		}
		return nil, nil
	}
}

func structName(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return relPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return ""
}

// fresh: the base object was allocated by this very function.
func freshBase(fa *ssa.FieldAddr) bool {
	v := fa.X
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
			continue
		}
		return false
	}
}

// fieldWrite: the field changed by an instruction (store, map update, delete, append target).
func fieldWrite(in ssa.Instruction) *ssa.FieldAddr {
	switch x := in.(type) {
	case *ssa.Store:
		if f, ok := x.Addr.(*ssa.FieldAddr); ok {
			return f
		}
		if f, ok := x.Addr.(*ssa.IndexAddr); ok {
			_, fa := fieldOf(f)
			return fa
		}
	case *ssa.MapUpdate:
		_, fa := fieldOf(x.Map)
		return fa
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			_, fa := fieldOf(x.Call.Args[0])
			return fa
		}
	}
	return nil
}

// writersRule: the field is written only by the listed functions (objects still being built excepted).
func (c *Ctx) writersRule(r *Rule, id func(int) string) {
	i := strings.LastIndex(r.site, ".")
	typ, fld := r.site[:i], r.site[i+1:]
	okf := c.allowedFn(r)
	n := 0
	for _, f := range c.w.all {
		if strings.HasSuffix(c.w.fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa := fieldWrite(in)
				if fa == nil || structName(fa) != typ {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() != fld {
					continue
				}
				if _, isStore := in.(*ssa.Store); isStore && freshBase(fa) {
					continue
				}
				n++
				c.nSites++
				c.check(okf(f, 0), id(r.line), c.w.pos(in.Pos())+" in "+objFull(f), r.site+" is written only by its listed functions")
			}
		}
	}
	if n < r.min {
		c.fail(id(r.line), r.site, fmt.Sprintf("%d writes, at least %d expected", n, r.min))
	}
}

// calleeName: name and receiver (or package) type name of a call's target.
func calleeName(ci ssa.CallInstruction) (string, string) {
	cc := ci.Common()
	if cc.IsInvoke() {
		t := cc.Value.Type()
		if n, ok := t.(*types.Named); ok {
			return cc.Method.Name(), n.Obj().Name()
		}
		return cc.Method.Name(), ""
	}
	if f := cc.StaticCallee(); f != nil {
		if rv := f.Signature.Recv(); rv != nil {
			t := rv.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				return f.Name(), n.Obj().Name()
			}
		}
		if f.Pkg != nil {
			return f.Name(), f.Pkg.Pkg.Name()
		}
		return f.Name(), ""
	}
	return "", ""
}

func pkgPathOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
}

// freshAppend: every append in fn (and its closures) extends a slice made in the function, never
// the backing array of a slice it got from elsewhere (a cache, a parameter, a field).
func (c *Ctx) freshAppend(fn *ssa.Function, rule, where string) {
	var bad func(v ssa.Value, seen map[ssa.Value]bool) string
	bad = func(v ssa.Value, seen map[ssa.Value]bool) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const, *ssa.MakeSlice, *ssa.Convert:
			return ""
		case *ssa.Slice:
			if x.Max != nil {
				return ""
			}
			if _, ok := x.X.(*ssa.Alloc); ok {
				return ""
			}
			return bad(x.X, seen)
		case *ssa.ChangeType:
			return bad(x.X, seen)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if s := bad(e, seen); s != "" {
					return s
				}
			}
			return ""
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						if s := bad(st.Val, seen); s != "" {
							return s
						}
					}
				}
				return ""
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return bad(x.Call.Args[0], seen)
			}
			if f := x.Call.StaticCallee(); f != nil && c.w.inRepo(f) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						if p, isP := r.Results[0].(*ssa.Parameter); isP {
							for i, q := range f.Params {
								if q == p {
									if s := bad(x.Call.Args[i], seen); s != "" {
										return s
									}
								}
							}
						} else if s := bad(r.Results[0], seen); s != "" {
							return s
						}
					}
				}
				return ""
			}
		}
		return v.Name() + " (" + v.String() + ")"
	}
	n := 0
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok {
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						n++
						s := bad(cl.Call.Args[0], map[ssa.Value]bool{})
						at := c.w.pos(in.Pos()) + " in " + objFull(f)
						if s != "" {
							c.fail(rule, at, "append extends a slice shared with its origin: "+s)
						} else {
							c.ok(rule, at, "append extends a slice of the function's own")
						}
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			walk(g)
		}
	}
	walk(fn)
	if n == 0 {
		c.ok(rule, where, "no append")
	}
}
