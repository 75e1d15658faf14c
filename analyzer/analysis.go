package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State at a program point.
type State struct {
	facts Facts
	cells map[string]cell
	dead  bool
}

type cell struct {
	loc *Term
	val *Term
	fv  *types.Var // field stored, when the location is a field
}

func (s *State) clone() *State {
	c := &State{facts: s.facts.clone(), cells: make(map[string]cell, len(s.cells)), dead: s.dead}
	for k, v := range s.cells {
		c.cells[k] = v
	}
	return c
}

type Site struct {
	Name, Full string
	Args       []*Term
	Facts      Facts
	Pos        token.Pos
	Fn         *ssa.Function // function containing the site
	Instr      ssa.Instruction
	Chain      []string
	Mode       string // "", "defer", "go"
	Dead       bool   // the facts of the caller contradict those of the site
	lvl        int
}

type ClassSum struct {
	facts   Facts
	results []*Term
	nonnil  []bool // result provably not nil on every exit of the class
	cells   map[string]cell
	parts   []*ClassSum // the exits of the class one by one
}

type Summary struct {
	fn    *ssa.Function
	cls   map[byte]*ClassSum // 'a' any exit, 'Z' last result nil/false, 'N' non-nil/true; nil if unreachable
	sites []*Site
	rets  int
	live  map[*ssa.BasicBlock]bool
}

// Analysis is one run of the must-facts engine under a set of assumptions.
type Analysis struct {
	w           *World
	assume      []*pat
	assumeSrc   string
	sums        map[*ssa.Function]*Summary
	inprog      map[*ssa.Function]bool
	interesting map[string]bool
	maxLvl      int
	nFuncs      int
	spDepth     int
	phiOf       map[string]*ssa.Phi
}

func newAnalysis(w *World, interesting map[string]bool, assume ...string) *Analysis {
	a := &Analysis{w: w, sums: map[*ssa.Function]*Summary{}, inprog: map[*ssa.Function]bool{}, phiOf: map[string]*ssa.Phi{}, interesting: interesting, maxLvl: 4, assumeSrc: strings.Join(assume, " ; ")}
	for _, s := range assume {
		a.assume = append(a.assume, parsePat(w, nil, s))
	}
	return a
}

type callInfo struct {
	cells   map[string]*Term // caller field values at the call
	memo    map[string]*Term
	rawMode bool
	priv    bool
	ptr     map[string]*Term // param -> variable whose address is passed
	sum     *Summary
	val     map[string]*Term // param -> argument value
	raw     map[string]*Term // param -> argument location
	tag     string
	term    *Term
}

type funcAn struct {
	altBusy    map[*ssa.Phi]bool
	a          *Analysis
	fn         *ssa.Function
	name       string
	in         map[*ssa.BasicBlock]*State
	out        map[*ssa.BasicBlock]*State
	val        map[ssa.Value]*Term
	infos      map[string]*callInfo // by call term key
	phis       map[string]*ssa.Phi
	clos       map[string]*ssa.MakeClosure
	loops      map[*ssa.BasicBlock]*loop
	inLoop     map[*ssa.BasicBlock]*loop
	cur        *State
	final      bool
	sites      []*Site
	rets       []*retRec
	asyncErr   map[string][]*callInfo // errgroup term -> closure results guarded by Wait
	given      []*pat
	phiChanged bool
	pass       int
	fixedPhi   map[*ssa.Phi]*Term // phi values of the unpruned run
	phiVal     map[*ssa.Phi]*Term
	forced     map[*ssa.BasicBlock]int // branches fixed by the class of the exit
	refined    map[forcedKey]*funcAn
	outer      func(*Fact) bool // does a fact contradict the case assumptions of the calling function
	special_   map[string]*Summary
}

type retRec struct {
	st  *State
	res []ssa.Value
	ins *ssa.Return
}

type loop struct {
	head    *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
	id      string
}

func (a *Analysis) summary(fn *ssa.Function) *Summary {
	if s, ok := a.sums[fn]; ok {
		return s
	}
	if a.inprog[fn] || fn.Blocks == nil || !a.w.inRepo(fn) {
		return nil
	}
	if len(fn.Blocks) > 600 {
		return nil
	}
	a.inprog[fn] = true
	fa := a.newFunc(fn)
	fa.run()
	s := fa.summarize()
	delete(a.inprog, fn)
	a.sums[fn] = s
	a.nFuncs++
	return s
}

func (a *Analysis) newFunc(fn *ssa.Function) *funcAn {
	fa := &funcAn{a: a, fn: fn, name: objFull(fn), in: map[*ssa.BasicBlock]*State{}, out: map[*ssa.BasicBlock]*State{}, val: map[ssa.Value]*Term{},
		infos: map[string]*callInfo{}, phis: map[string]*ssa.Phi{}, clos: map[string]*ssa.MakeClosure{}, phiVal: map[*ssa.Phi]*Term{}, asyncErr: map[string][]*callInfo{}}
	for i, p := range fn.Params {
		n := fmt.Sprintf("p%d", i)
		if fn.Signature.Recv() != nil {
			if i == 0 {
				n = "recv"
			} else {
				n = fmt.Sprintf("p%d", i-1)
			}
		}
		fa.val[p] = typed(mkP(n), p.Type())
	}
	for _, p := range fn.FreeVars {
		fa.val[p] = typed(mkP("fv_"+p.Name()), p.Type())
	}
	fa.findLoops()
	return fa
}

func typed(t *Term, ty types.Type) *Term {
	num, uns := numKind(ty)
	if num && !t.Num || uns && !t.Uns {
		c := *t
		c.Num, c.Uns = num, uns
		return &c
	}
	return t
}

func isBig(ty types.Type) bool {
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
			return n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
		}
	}
	return false
}

func numKind(ty types.Type) (num, uns bool) {
	if ty == nil {
		return
	}
	if isBig(ty) {
		return true, false
	}
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		_ = p
		return false, false
	}
	if b, ok := ty.Underlying().(*types.Basic); ok {
		i := b.Info()
		if i&types.IsInteger != 0 {
			return true, i&types.IsUnsigned != 0
		}
	}
	return
}

func (fa *funcAn) findLoops() {
	fa.loops = map[*ssa.BasicBlock]*loop{}
	for _, b := range fa.fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fa.loops[s]
				if l == nil {
					l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}, id: fmt.Sprintf("%s/%d", fa.name, s.Index)}
					fa.loops[s] = l
				}
				l.latches = append(l.latches, b)
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	fa.inLoop = map[*ssa.BasicBlock]*loop{}
	for _, l := range fa.loops {
		for b := range l.body {
			if o := fa.inLoop[b]; o == nil || len(l.body) < len(o.body) {
				fa.inLoop[b] = l
			}
		}
	}
}

func (fa *funcAn) run() {
	order := rpo(fa.fn)
	for pass := 0; pass < 14; pass++ {
		changed := false
		fa.pass = pass
		fa.phiChanged = false
		for _, b := range order {
			in := fa.blockIn(b)
			if in == nil {
				continue
			}
			out := fa.exec(b, in)
			old := fa.out[b]
			fa.in[b] = in
			if old == nil || old.dead != out.dead || !equalFacts(old.facts, out.facts) || !equalCells(old.cells, out.cells) {
				changed = true
			}
			fa.out[b] = out
		}
		if !changed && !fa.phiChanged && pass > 0 {
			break
		}
		if pass == 13 {
			fa.a.w.unconverged[objFull(fa.fn)] = true
		}
		if len(fa.loops) == 0 {
			break
		}
	}
	// final pass: record sites and returns
	fa.final = true
	for _, b := range order {
		in := fa.blockIn(b)
		if in == nil {
			continue
		}
		fa.in[b] = in
		fa.out[b] = fa.exec(b, in)
	}
	if fa.a.interesting["again"] {
		fa.againSites()
	}
}

// againSites records, for every variable a loop carries, a pseudo call again(value in this
// iteration, value in the next one) with the facts under which the loop goes on.
func (fa *funcAn) againSites() {
	for _, b := range fa.fn.Blocks {
		l := fa.loops[b]
		if l == nil {
			continue
		}
		for i, la := range b.Preds {
			if !l.body[la] {
				continue
			}
			st := fa.edgeState(la, b, i)
			if st == nil {
				continue
			}
			// a flag tested at the top of the loop holds what this iteration left in it
			dead := false
			tests := []*ssa.BasicBlock{b}
			for _, s := range b.Succs {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.If); ok && l.body[s] && len(s.Instrs) <= 2 {
					tests = append(tests, s)
				}
			}
			for _, t := range tests {
				iff, ok := t.Instrs[len(t.Instrs)-1].(*ssa.If)
				if !ok || l.body[t.Succs[0]] == l.body[t.Succs[1]] {
					continue
				}
				v, want := iff.Cond, l.body[t.Succs[0]]
				for {
					u, ok := v.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					v, want = u.X, !want
				}
				if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b {
					dead = dead || !fa.constrainBool(st, phi.Edges[i], want, 0)
				}
			}
			if dead {
				continue
			}
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if isBool(phi.Type()) {
					continue
				}
				n := fa.valAt(phi.Edges[i], la)
				if n == nil {
					continue
				}
				pos := phi.Pos()
				if !pos.IsValid() {
					pos = b.Instrs[len(b.Instrs)-1].Pos()
				}
				fa.sites = append(fa.sites, &Site{Name: "again", Full: "again", Args: []*Term{fa.term(phi), n}, Facts: st.facts.clone(), Pos: pos, Fn: fa.fn, Instr: phi})
			}
		}
	}
}

func equalCells(a, b map[string]cell) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w.val.key != v.val.key {
			return false
		}
	}
	return true
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			walk(b.Succs[i])
		}
		post = append(post, b)
	}
	walk(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// edgeState: state on the edge p -> p.Succs[i]; nil if not yet computed or dead.
func (fa *funcAn) edgeState(p *ssa.BasicBlock, b *ssa.BasicBlock, nth int) *State {
	o := fa.out[p]
	if o == nil || o.dead {
		return nil
	}
	last := p.Instrs[len(p.Instrs)-1]
	st := o
	if iff, ok := last.(*ssa.If); ok {
		if p.Succs[0] == p.Succs[1] {
			return o.clone()
		}
		if f, ok := fa.forced[p]; ok && p.Succs[f] != b {
			return nil
		}
		st = o.clone()
		if !fa.constrainBool(st, iff.Cond, p.Succs[0] == b, 0) {
			return nil
		}
	} else {
		st = o.clone()
	}
	if l := fa.loops[p]; l != nil && !l.body[b] {
		fa.addForall(l, st, b)
	}
	return st
}

func (fa *funcAn) blockIn(b *ssa.BasicBlock) *State {
	if b == fa.fn.Blocks[0] {
		return &State{facts: Facts{}, cells: map[string]cell{}}
	}
	var sts []*State
	var preds []*ssa.BasicBlock
	live := map[int]bool{}
	for i, p := range b.Preds {
		if st := fa.edgeState(p, b, i); st != nil {
			live[i] = true
			sts = append(sts, st)
			preds = append(preds, p)
		}
	}
	if len(sts) == 0 {
		return nil
	}
	r := sts[0]
	if len(sts) > 1 {
		f := sts[0].facts
		for _, s := range sts[1:] {
			f = joinFacts(f, s.facts)
		}
		cells := map[string]cell{}
		keys := map[string]cell{}
		for _, s := range sts {
			for k, c := range s.cells {
				keys[k] = c
			}
		}
		for k, c := range keys {
			if l := fa.loops[b]; l != nil && c.loc.contains(func(t *Term) bool { return (t.Op == "it" || t.Op == "mk") && t.S == l.id }) {
				continue // location of an earlier iteration
			}
			same := true
			var v *Term
			for _, s := range sts {
				x, ok := s.cells[k]
				var xv *Term
				if ok {
					xv = x.val
				} else {
					xv = c.loc
				}
				if v == nil {
					v = xv
				} else if v.key != xv.key {
					same = false
				}
			}
			if same {
				if v.key != k {
					cells[k] = cell{c.loc, v, c.fv}
				}
			} else {
				o := finish(&Term{Op: "phi", S: fmt.Sprintf("m:%s/%d:%s", fa.name, b.Index, k)})
				o.Num, o.Uns = v.Num, v.Uns
				cells[k] = cell{c.loc, o, c.fv}
			}
		}
		r = &State{facts: f, cells: cells}
	}
	// phis
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t, ok := fa.fixedPhi[phi]; ok && fa.loops[b] != nil && !isBool(phi.Type()) {
			fa.phis[mkOp("phi", fmt.Sprintf("%s/%s", fa.name, phi.Name())).key] = phi
			fa.val[phi] = t
			continue
		}
		nv := fa.phiTerm(phi, b, live)
		if o := fa.val[phi]; o == nil || o.key != nv.key {
			fa.phiChanged = true
		}
		fa.val[phi] = nv
		fa.phiVal[phi] = nv
	}
	return r
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func (fa *funcAn) phiTerm(phi *ssa.Phi, b *ssa.BasicBlock, live map[int]bool) *Term {
	id := fmt.Sprintf("%s/%s", fa.name, phi.Name())
	opaque := typed(finish(&Term{Op: "phi", S: id}), phi.Type())
	fa.phis[opaque.key] = phi
	fa.a.phiOf[opaque.key] = phi
	l := fa.loops[b]
	var start, step *Term
	uniform, startUni, stepUni := true, true, true
	var uv *Term
	for i, e := range phi.Edges {
		p := b.Preds[i]
		if o := fa.out[p]; o == nil || o.dead || !live[i] {
			continue
		}
		t := fa.valAt(e, p)
		if t == nil {
			continue
		}
		if pv := fa.val[phi]; pv != nil && (pv.Op == "iterate" || pv.Op == "fold") {
			t = subst(t, func(x *Term) *Term {
				if x.key == pv.key {
					return opaque
				}
				return nil
			}, map[string]*Term{})
		}
		if t.key == opaque.key {
			continue
		}
		if uv == nil {
			uv = t
		} else if uv.key != t.key {
			uniform = false
		}
		if l != nil && l.body[p] {
			if step == nil {
				step = t
			} else if step.key != t.key {
				stepUni = false
			}
		} else {
			if start == nil {
				start = t
			} else if start.key != t.key {
				startUni = false
			}
		}
	}
	if l == nil {
		if uniform && uv != nil {
			return uv
		}
		return opaque
	}
	if uniform && uv != nil && isBool(phi.Type()) && (uv.key == "true" || uv.key == "false") {
		return uv // optimistic; re-evaluated until stable
	}
	// induction variable?
	it := typed(finish(&Term{Op: "it", S: l.id}), types.Typ[types.Uint64])
	if d, ok := inductionStep(phi, l, b); ok && start != nil && startUni {
		if d == 1 {
			return mkAdd(start, it)
		}
		return mkSub(start, it)
	}
	if uniform && uv != nil && step != nil && start != nil {
		return uv
	}
	if step != nil && start != nil && startUni && stepUni {
		// recurrence prev = f(it): start == f(0), step == f(it+1)
		one := mkNumC("1")
		if !step.contains(func(t *Term) bool { return t.key == opaque.key }) && step.contains(func(t *Term) bool { return t.key == it.key }) {
			f := subst(step, func(t *Term) *Term {
				if t.key == it.key {
					return mkSub(it, one)
				}
				return nil
			}, map[string]*Term{})
			f0 := subst(f, func(t *Term) *Term {
				if t.key == it.key {
					return mkNumC("0")
				}
				return nil
			}, map[string]*Term{})
			if f0.key == start.key {
				return f
			}
			if f.depth < 8 {
				return typed(mkOp("rec", "", start, f), phi.Type())
			}
		}
	}
	if step != nil && start != nil && startUni && stepUni && step.Op == "call" && step.depth < 5 &&
		step.contains(func(t *Term) bool { return t.key == opaque.key }) && !step.contains(func(t *Term) bool { return t.Op == "it" || t.Op == "mk" }) {
		// x = f(x): iterate(start, f(self))
		f := subst(step, func(t *Term) *Term {
			if t.key == opaque.key {
				return mkC("self")
			}
			return nil
		}, map[string]*Term{})
		if !f.opq && !start.opq {
			return typed(mkOp("iterate", l.id, start, f), phi.Type())
		}
	}
	if step != nil && start != nil && startUni && stepUni && step.Op != "call" && step.Op != "x" && step.depth < 6 && foldable(phi.Type()) && !start.opq &&
		step.contains(func(t *Term) bool { return t.key == opaque.key }) && !step.contains(func(t *Term) bool { return t.Op == "fold" }) {
		// x = f(x, it): fold(start, f(self, it))
		f := subst(step, func(t *Term) *Term {
			if t.key == opaque.key {
				return mkC("self")
			}
			return nil
		}, map[string]*Term{})
		if !f.contains(func(t *Term) bool { return t.Op == "phi" || t.Op == "?" || t.Op == "new" }) {
			return typed(mkOp("fold", l.id, start, f), phi.Type())
		}
	}
	return opaque
}

func foldable(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func inductionStep(phi *ssa.Phi, l *loop, b *ssa.BasicBlock) (int64, bool) {
	var d int64
	ok := false
	for i, e := range phi.Edges {
		if !l.body[b.Preds[i]] {
			continue
		}
		bo, isb := e.(*ssa.BinOp)
		if !isb || bo.X != ssa.Value(phi) {
			return 0, false
		}
		c, isc := bo.Y.(*ssa.Const)
		if !isc || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, false
		}
		v, _ := constant.Int64Val(c.Value)
		if bo.Op == token.SUB {
			v = -v
		} else if bo.Op != token.ADD {
			return 0, false
		}
		if ok && v != d {
			return 0, false
		}
		d, ok = v, true
	}
	return d, ok && (d == 1 || d == -1)
}

// valAt evaluates a phi operand (values are path-independent once computed).
func (fa *funcAn) valAt(v ssa.Value, p *ssa.BasicBlock) *Term {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return fa.term(v)
	}
	if t, ok := fa.val[v]; ok {
		if o := fa.out[p]; o != nil && isBig(v.Type()) {
			if c, ok := o.cells[t.key]; ok {
				return c.val
			}
		}
		return t
	}
	return nil
}

func (fa *funcAn) addForall(l *loop, st *State, exit *ssa.BasicBlock) {
	var j Facts
	for _, la := range l.latches {
		s := fa.edgeState(la, l.head, 0)
		if s == nil {
			if fa.out[la] == nil && fa.pass == 0 {
				return // not computed yet
			}
			continue
		}
		if j == nil {
			j = s.facts
		} else {
			j = joinFacts(j, s.facts)
		}
	}
	if os.Getenv("DBGF") != "" && strings.HasSuffix(fa.name, os.Getenv("DBGF")) {
		fmt.Println("FORALL", fa.pass, l.id, len(l.latches), len(j))
		for _, la := range l.latches {
			fmt.Println("  latch", la, fa.out[la] != nil, fa.edgeState(la, l.head, 0) != nil)
		}
	}
	if j == nil {
		return
	}
	itKey := "it" + l.id
	// loop bound from the header's condition
	var bound *Term
	if iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
		body := l.head.Succs[0]
		if !l.body[body] {
			body = l.head.Succs[1]
		}
		tmp := &State{facts: Facts{}, cells: fa.out[l.head].cells}
		fa.constrainBool(tmp, iff.Cond, l.head.Succs[0] == body, 3)
		for _, f := range tmp.facts.list() {
			if f.Kind != 'p' || len(f.Forall) > 0 {
				continue
			}
			m, k := f.canon()
			if f.Num && (m == LE || m == GE) {
				d := toLin(f.A)
				d.add(f.B, -1)
				c := d.m[itKey]
				if c == 1 && m == LE || c == -1 && m == GE {
					// c*it + rest <= k  (or >= with c = -1)
					delete(d.m, itKey)
					delete(d.t, itKey)
					r := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int)}
					for x, v := range d.m {
						r.m[x], r.t[x] = -c*v, d.t[x]
					}
					r.k.Sub(k, d.k)
					if c == -1 {
						r.k.Neg(r.k)
					}
					r.k.Add(r.k, big.NewInt(1))
					bound = r.term()
				}
			} else if f.A.Op == "call" && f.A.S == "rangeok" {
				bound = mkOp("range", "", f.A.A[0])
			}
		}
	}
	if bound == nil {
		bound = mkOp("range", "?")
	}
	entry := fa.in[l.head]
	for _, f := range j.list() {
		if o, ok := st.facts[f.key]; ok && o.Mask == f.Mask {
			continue
		}
		if len(f.Forall) >= 2 {
			continue
		}
		rel := f.Kind == 'c' || f.A.contains(func(t *Term) bool {
			return t.Op == "mk" || t.key == itKey || t.Op == "phi" || t.Op == "new" || t.Op == "?"
		})
		if !rel && f.B != nil {
			rel = f.B.contains(func(t *Term) bool { return t.Op == "mk" || t.key == itKey || t.Op == "phi" })
		}
		if !rel {
			continue
		}
		_ = entry
		nm := ""
		if len(f.Forall) == 1 {
			nm = "2"
		}
		sub := func(t *Term) *Term {
			if t.key == itKey {
				return typed(finish(&Term{Op: "it", S: nm}), types.Typ[types.Uint64])
			}
			if t.Op == "mk" && t.S == l.id {
				return mkOp("mk", nm, t.A[0])
			}
			return nil
		}
		memo := map[string]*Term{}
		g := &Fact{Kind: f.Kind, A: subst(f.A, sub, memo), K: f.K, Mask: f.Mask, Num: f.Num}
		if f.B != nil {
			g.B = subst(f.B, sub, memo)
		}
		g.Forall = append([]*Term{bound}, f.Forall...)
		g.fin()
		st.facts[g.key] = g
	}
}

// ---- evaluation -------------------------------------------------------

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if num, _ := numKind(c.Type()); num && !isBig(c.Type()) {
			return mkNumC("0")
		}
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return tZero
		}
		return tNil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return tTrue
		}
		return tFalse
	case constant.String:
		return mkC(fmt.Sprintf("%q", constant.StringVal(c.Value)))
	case constant.Int:
		return mkNumC(c.Value.ExactString())
	}
	if num, _ := numKind(c.Type()); num {
		return mkNumC(constant.ToInt(c.Value).ExactString())
	}
	return mkC(c.Value.ExactString())
}

func (fa *funcAn) term(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		if n := v.Name(); len(n) > 3 && n[:3] == "Big" && v.Pkg.Pkg.Name() == "common" && strings.Trim(n[3:], "0123456789") == "" {
			return mkNumC(n[3:]) // the shared big integers 0, 1, 2, ...
		}
		return finish(&Term{Op: "g", S: v.Pkg.Pkg.Name() + "." + v.Name()})
	case *ssa.Function:
		return finish(&Term{Op: "fn", S: objFull(v)})
	case *ssa.Builtin:
		return finish(&Term{Op: "fn", S: v.Name()})
	}
	if t, ok := fa.val[v]; ok {
		return t
	}
	return typed(finish(&Term{Op: "?", S: fa.name + "/" + v.Name()}), v.Type())
}

func typedZero(t *Term, ty types.Type) *Term {
	if t.Op != "c" || t.S != "zero" || ty == nil {
		return t
	}
	if num, _ := numKind(ty); num && !isBig(ty) {
		return mkNumC("0")
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if u.Info()&types.IsString != 0 {
			return mkC(`""`)
		}
	case *types.Struct, *types.Array:
		return tZero
	default:
		return tNil
	}
	return t
}

func (fa *funcAn) load(loc *Term, ty types.Type) *Term {
	if c, ok := fa.cur.cells[loc.key]; ok {
		if c.val.Op == "c" && c.val.S == "zero" && fa.hasSub(loc) {
			return fa.lit(loc, ty)
		}
		if fa.hasSub(loc) {
			return fa.lit(loc, ty)
		}
		return typedZero(c.val, ty)
	}
	if fa.hasSub(loc) {
		if _, ok := ty.Underlying().(*types.Struct); ok {
			return fa.lit(loc, ty)
		}
	}
	if loc.Op == "f" || loc.Op == "[]" {
		if b, ok := fa.baseVal(loc.A[0]); ok {
			if loc.Op == "f" {
				return typed(typedZero(mkField(b, loc.S), ty), ty)
			}
			if b.Op == "c" && b.S == "zero" {
				return typedZero(b, ty)
			}
			return typed(mkIndex(b, loc.A[1]), ty)
		}
	}
	return typed(loc, ty)
}

func (fa *funcAn) baseVal(loc *Term) (*Term, bool) {
	if c, ok := fa.cur.cells[loc.key]; ok {
		return c.val, true
	}
	if loc.Op == "f" {
		if b, ok := fa.baseVal(loc.A[0]); ok {
			return mkField(b, loc.S), true
		}
	}
	return nil, false
}

func (fa *funcAn) hasSub(loc *Term) bool {
	if loc.Op != "new" {
		return false
	}
	for _, c := range fa.cur.cells {
		if c.loc.Op == "f" && c.loc.A[0].key == loc.key {
			return true
		}
	}
	return false
}

func elemOf(ty types.Type) types.Type {
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return ty
}

func (fa *funcAn) lit(loc *Term, ty types.Type) *Term {
	ty = elemOf(ty)
	t := &Term{Op: "lit", S: typeName(ty)}
	var base *Term
	if c, ok := fa.cur.cells[loc.key]; ok && !(c.val.Op == "c" && c.val.S == "zero") {
		if c.val.Op == "lit" && c.val.S == t.S {
			base = c.val
		} else {
			t.A = append(t.A, mkOp("kv", "*", c.val))
		}
	}
	if base != nil {
		for _, kv := range base.A {
			if kv.S == "*" {
				t.A = append(t.A, kv)
			}
		}
	}
	if st, ok := ty.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := mkFieldRaw(loc, st.Field(i).Name())
			if _, ok := fa.cur.cells[f.key]; !ok && base != nil {
				for _, kv := range base.A {
					if kv.S == st.Field(i).Name() {
						t.A = append(t.A, kv)
					}
				}
			}
			if c, ok := fa.cur.cells[f.key]; ok {
				v := c.val
				if v.Op == "new" && v.depth < 3 && v.key != loc.key {
					v = fa.content(v, st.Field(i).Type())
				}
				t.A = append(t.A, mkOp("kv", st.Field(i).Name(), v))
			}
		}
	}
	return finish(t)
}

func mkFieldRaw(base *Term, name string) *Term {
	if name == "header" && base.Op != "new" {
		return base
	}
	return finish(&Term{Op: "f", S: name, A: []*Term{base}})
}

// content: the value behind a pointer to a fresh object.
func (fa *funcAn) content(t *Term, ty types.Type) *Term {
	if t.Op == "new" {
		if c, ok := fa.cur.cells[t.key]; ok && !fa.hasSub(t) {
			if !(c.val.Op == "c" && c.val.S == "zero") {
				return c.val
			}
			if isBig(ty) {
				return mkNumC("0")
			}
		}
		if fa.hasSub(t) {
			return fa.lit(t, ty)
		}
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			if isBig(ty) {
				return mkNumC("0")
			}
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				return finish(&Term{Op: "lit", S: typeName(p.Elem())})
			}
		}
	}
	if isBig(ty) {
		if c, ok := fa.cur.cells[t.key]; ok {
			return c.val
		}
	}
	return t
}

func (fa *funcAn) arg(v ssa.Value) *Term {
	t := fa.term(v)
	u := v
	for {
		switch x := u.(type) {
		case *ssa.MakeInterface:
			u = x.X
			continue
		case *ssa.ChangeInterface:
			u = x.X
			continue
		case *ssa.ChangeType:
			u = x.X
			continue
		}
		break
	}
	return fa.content(t, u.Type())
}

func (fa *funcAn) setCell(loc, val *Term, fv *types.Var) {
	if loc.Op == "phi" || loc.Op == "?" {
		// store through an unknown pointer: not tracked
	}
	for k, c := range fa.cur.cells {
		if k != loc.key && c.loc.contains(func(t *Term) bool { return t.key == loc.key }) {
			delete(fa.cur.cells, k)
		}
	}
	fa.cur.cells[loc.key] = cell{loc, val, fv}
}

func (fa *funcAn) exec(b *ssa.BasicBlock, in *State) *State {
	st := in.clone()
	fa.cur = st
	for _, ins := range b.Instrs {
		if st.dead {
			break
		}
		fa.step(ins, b)
	}
	return st
}

func (fa *funcAn) step(ins ssa.Instruction, b *ssa.BasicBlock) {
	st := fa.cur
	switch in := ins.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.RunDefers:
	case *ssa.Alloc:
		t := finish(&Term{Op: "new", S: fa.name + "/" + in.Name()})
		fa.val[in] = t
		for k, c := range st.cells {
			if c.loc.contains(func(x *Term) bool { return x.key == t.key }) {
				delete(st.cells, k)
			}
		}
		st.cells[t.key] = cell{t, tZero, nil}
	case *ssa.FieldAddr:
		fv := fieldVar(in.X.Type(), in.Field)
		base := fa.term(in.X)
		fa.val[in] = fa.fieldLoc(base, fv, in.X.Type())
	case *ssa.Field:
		fv := fieldVar(in.X.Type(), in.Field)
		fa.val[in] = typed(typedZero(mkField(fa.term(in.X), fv.Name()), in.Type()), in.Type())
	case *ssa.IndexAddr:
		fa.val[in] = mkIndex(fa.term(in.X), fa.term(in.Index))
	case *ssa.Index:
		fa.val[in] = typed(mkIndex(fa.term(in.X), fa.term(in.Index)), in.Type())
	case *ssa.Lookup:
		m, k := fa.term(in.X), fa.arg(in.Index)
		v := mkIndex(m, k)
		if c, ok := st.cells[v.key]; ok {
			v = c.val
		}
		if in.CommaOk {
			fa.val[in] = mkOp("tup", "", typed(v, in.Type().(*types.Tuple).At(0).Type()), mkCall("has", "has", m, k))
		} else {
			fa.val[in] = typed(v, in.Type())
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			loc := fa.term(in.X)
			fa.val[in] = fa.load(loc, in.Type())
		case token.NOT:
			fa.val[in] = mkOp("u", "!", fa.term(in.X))
		case token.SUB:
			fa.val[in] = mkSub(mkNumC("0"), fa.term(in.X))
		case token.ARROW:
			t := finish(&Term{Op: "call", S: "recv", Full: "<-", A: []*Term{fa.term(in.X)}})
			fa.val[in] = t
			if in.CommaOk {
				fa.val[in] = mkOp("tup", "", t, mkCall("recvok", "recvok", fa.term(in.X)))
			}
			fa.event("recv", "<-", []*Term{fa.term(in.X)}, in, "")
		default:
			fa.val[in] = typed(mkOp("u", in.Op.String(), fa.term(in.X)), in.Type())
		}
	case *ssa.BinOp:
		x, y := fa.term(in.X), fa.term(in.Y)
		if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger == 0 && in.Op == token.ADD {
			fa.val[in] = mkOp("b", "++", x, y)
			return
		}
		fa.val[in] = typed(mkBin(in.Op.String(), x, y), in.Type())
	case *ssa.ChangeType:
		fa.val[in] = fa.term(in.X)
	case *ssa.ChangeInterface:
		fa.val[in] = fa.term(in.X)
	case *ssa.MakeInterface:
		fa.val[in] = fa.term(in.X)
	case *ssa.SliceToArrayPointer:
		fa.val[in] = fa.term(in.X)
	case *ssa.Convert:
		fa.val[in] = convert(fa.term(in.X), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		x := fa.term(in.X)
		if in.CommaOk {
			fa.val[in] = mkOp("tup", "", x, mkCall("is", "is", x, mkC(typeName(in.AssertedType))))
		} else {
			fa.val[in] = x
		}
	case *ssa.Extract:
		t := fa.term(in.Tuple)
		if t.Op == "tup" {
			fa.val[in] = typed(t.A[in.Index], in.Type())
		} else {
			fa.val[in] = typed(mkX(t, fmt.Sprint(in.Index)), in.Type())
		}
	case *ssa.Slice:
		x := fa.term(in.X)
		lo, hi := tNil, tNil
		if in.Low != nil {
			lo = fa.term(in.Low)
			if v, ok := isIntConst(lo); ok && v.Sign() == 0 {
				lo = tNil
			}
		}
		if in.High != nil {
			hi = fa.term(in.High)
		}
		if lo == tNil && hi == tNil {
			if x.Op == "new" { // variadic / composite literal backing array
				fa.val[in] = fa.arrayLit(x, in.X.Type())
			} else {
				fa.val[in] = x
			}
		} else {
			fa.val[in] = mkOp("slice", "", x, lo, hi)
		}
	case *ssa.MakeSlice:
		fa.val[in] = mkOp("new", fa.name+"/"+in.Name(), fa.term(in.Len), fa.term(in.Cap))
		fa.event("make", "make", []*Term{fa.term(in.Len), fa.term(in.Cap)}, in, "")
	case *ssa.MakeMap, *ssa.MakeChan:
		fa.val[ins.(ssa.Value)] = finish(&Term{Op: "new", S: fa.name + "/" + ins.(ssa.Value).Name()})
	case *ssa.MakeClosure:
		var bs []*Term
		for _, x := range in.Bindings {
			bs = append(bs, fa.term(x))
		}
		closureFns.Store(objFull(in.Fn.(*ssa.Function)), in.Fn.(*ssa.Function))
		t := mkOp("clo", objFull(in.Fn.(*ssa.Function)), bs...)
		fa.val[in] = t
		fa.clos[t.key] = in
	case *ssa.Range:
		fa.val[in] = mkOp("rangeiter", "", fa.term(in.X))
	case *ssa.Next:
		it := fa.term(in.Iter)
		id := fa.name
		if l := fa.inLoop[b]; l != nil {
			id = l.id
		}
		if in.IsString || it.Op != "rangeiter" {
			fa.val[in] = mkOp("tup", "", mkCall("rangeok", "rangeok", it), mkOp("?", id+"k"), mkOp("?", id+"v"))
		} else {
			m := it.A[0]
			k := mkOp("mk", id, m)
			if tt, ok := in.Type().(*types.Tuple); ok {
				k = typed(k, tt.At(1).Type())
			}
			v := mkIndex(m, k)
			fa.val[in] = mkOp("tup", "", mkCall("rangeok", "rangeok", m), k, v)
		}
	case *ssa.Select:
		var as []*Term
		for i := range in.States {
			_ = i
			as = append(as, mkOp("?", fmt.Sprintf("%s/%s.%d", fa.name, in.Name(), i)))
		}
		tup := []*Term{typed(mkOp("?", fmt.Sprintf("%s/%s.idx", fa.name, in.Name())), types.Typ[types.Int]), mkOp("?", fmt.Sprintf("%s/%s.ok", fa.name, in.Name()))}
		for _, s := range in.States {
			if s.Dir == types.SendOnly && fa.final && fa.a.interesting["send"] {
				fa.site("send", "send", []*Term{fa.term(s.Chan), fa.arg(s.Send)}, in, "")
			}
			if s.Dir == types.RecvOnly {
				tup = append(tup, mkCall("recv", "<-", fa.term(s.Chan)))
			}
		}
		fa.val[in] = mkOp("tup", "", tup...)
	case *ssa.Store:
		loc := fa.term(in.Addr)
		v := fa.term(in.Val)
		cmp := (*Term)(nil) // the value of a stored comparison that is decided here
		if x, ok := in.Val.(*ssa.BinOp); ok && isBool(x.Type()) && v.Op != "c" {
			if !fa.constrainBool(st.clone(), x, true, 0) {
				cmp = mkC("false")
			} else if !fa.constrainBool(st.clone(), x, false, 0) {
				cmp = mkC("true")
			}
		}
		if cmp != nil {
			v = cmp
		}
		var fv *types.Var
		if f, ok := in.Addr.(*ssa.FieldAddr); ok {
			fv = fieldVar(f.X.Type(), f.Field)
		}
		fa.setCell(loc, v, fv)
		if loc.Op != "new" && !(loc.Op == "f" && loc.A[0].Op == "new") {
			cv := fa.arg(in.Val)
			if cmp != nil {
				cv = cmp
			}
			fa.addSet(loc, cv)
			nm := "store"
			if loc.Op == "f" {
				nm = "store:" + loc.S
			}
			if fa.final && (fa.a.interesting[nm]) {
				fa.site(nm, nm, []*Term{loc, cv}, in, "")
			}
		} else if loc.Op == "f" {
			nm := "store:" + loc.S
			if fa.final && fa.a.interesting[nm] {
				fa.site(nm, nm, []*Term{loc, fa.arg(in.Val)}, in, "")
			}
		}
	case *ssa.MapUpdate:
		m, k, v := fa.term(in.Map), fa.arg(in.Key), fa.arg(in.Value)
		loc := mkIndex(m, k)
		fa.setCell(loc, v, nil)
		fa.addSet(loc, v)
		fa.event("mapupdate", "mapupdate", []*Term{m, k, v}, in, "")
	case *ssa.Send:
		fa.event("send", "send", []*Term{fa.term(in.Chan), fa.arg(in.X)}, in, "")
	case *ssa.Call:
		fa.call(in, &in.Call, "")
	case *ssa.Defer:
		fa.call(in, &in.Call, "defer")
	case *ssa.Go:
		fa.call(in, &in.Call, "go")
	case *ssa.Panic:
		fa.event("panic", "panic", []*Term{fa.arg(in.X)}, in, "")
		st.dead = true
	case *ssa.Return:
		if fa.final {
			fa.rets = append(fa.rets, &retRec{st: st.clone(), res: in.Results, ins: in})
		}
	}
}

func (fa *funcAn) addSet(loc, v *Term) {
	f := (&Fact{Kind: 's', A: loc, B: v}).fin()
	fa.cur.facts[f.key] = f
}

func (fa *funcAn) arrayLit(x *Term, ty types.Type) *Term {
	arr, ok := elemOf(ty).Underlying().(*types.Array)
	if !ok || arr.Len() > 16 {
		return x
	}
	t := &Term{Op: "lit", S: "[]"}
	for i := int64(0); i < arr.Len(); i++ {
		l := mkIndex(x, mkNumC(fmt.Sprint(i)))
		c, ok := fa.cur.cells[l.key]
		if !ok {
			return x
		}
		v := c.val
		if v.Op == "new" {
			if cc, ok := fa.cur.cells[v.key]; ok && !(cc.val.Op == "c") {
				v = cc.val
			}
		}
		t.A = append(t.A, v)
	}
	return finish(t)
}

func (fa *funcAn) fieldLoc(base *Term, fv *types.Var, pty types.Type) *Term {
	if fv.Name() == "header" && base.Op != "new" {
		return base
	}
	return finish(&Term{Op: "f", S: fv.Name(), A: []*Term{base}})
}

func convert(t *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if t.Op == "c" {
			return typed(t, to)
		}
		fs, ts := intSize(fb), intSize(tb)
		if ts == 32 && t.Op == "len" {
			return t // lengths stay below 2^32 (frames and files are bounded far below)
		}
		if ts < fs {
			return typed(mkOp("cv", tb.Name(), t), to)
		}
		if tb.Info()&types.IsUnsigned != 0 && !t.Uns {
			c := *t
			c.Num = true
			return &c
		}
		return t
	}
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		return typed(mkOp("cv", tb.Name(), t), to)
	}
	return t // string/[]byte and pointer-shape conversions
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}
