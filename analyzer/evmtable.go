package main

// The EVM instruction table: constant propagation through the functions that
// build it, then each entry is compared with the instruction's specification
// and with what its implementation does to the stack, the memory and the state.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- constant propagation ------------------------------------------------

type cval struct {
	k    byte // 'i' const 'f' function 'c' closure 'm' unevaluated maker call 'a' aggregate 'p' pointer 'n' nil '?' unknown
	i    int64
	fn   *ssa.Function
	bind []*cval
	agg  map[string]*cval
	cell string
}

var cUnknown = &cval{k: '?'}

type ceval struct {
	heap  map[string]*cval // cell path -> scalar
	n     int
	steps int
	keep  map[string]bool // functions left unevaluated
}

func (e *ceval) load(p string) *cval {
	if v, ok := e.heap[p]; ok {
		return v
	}
	agg := map[string]*cval{}
	for k, v := range e.heap {
		if strings.HasPrefix(k, p+".") || strings.HasPrefix(k, p+"[") {
			agg[k[len(p):]] = v
		}
	}
	return &cval{k: 'a', agg: agg}
}

func (e *ceval) store(p string, v *cval) {
	for k := range e.heap {
		if k == p || strings.HasPrefix(k, p+".") || strings.HasPrefix(k, p+"[") {
			delete(e.heap, k)
		}
	}
	if v.k == 'a' {
		for k, x := range v.agg {
			e.heap[p+k] = x
		}
		return
	}
	e.heap[p] = v
}

func (e *ceval) call(fn *ssa.Function, args, binds []*cval, depth int) []*cval {
	if fn == nil || len(fn.Blocks) == 0 || depth > 12 {
		return nil
	}
	env := map[ssa.Value]*cval{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		}
	}
	get := func(v ssa.Value) *cval {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				if _, ok := x.Type().Underlying().(*types.Struct); ok {
					return &cval{k: 'a', agg: map[string]*cval{}}
				}
				return &cval{k: 'n'}
			}
			switch x.Value.Kind() {
			case constant.Bool:
				if constant.BoolVal(x.Value) {
					return &cval{k: 'i', i: 1}
				}
				return &cval{k: 'i', i: 0}
			case constant.Int:
				if n, ok := constant.Int64Val(x.Value); ok {
					return &cval{k: 'i', i: n}
				}
			}
			return cUnknown
		case *ssa.Function:
			return &cval{k: 'f', fn: x}
		}
		if c := env[v]; c != nil {
			return c
		}
		return cUnknown
	}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		var next *ssa.BasicBlock
		// phis
		var pv []*cval
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			x := cUnknown
			for i, p := range b.Preds {
				if p == prev {
					x = get(phi.Edges[i])
				}
			}
			pv = append(pv, x)
		}
		for i, in := range b.Instrs {
			e.steps++
			if e.steps > 400000 {
				return nil
			}
			if i < len(pv) {
				env[in.(*ssa.Phi)] = pv[i]
				continue
			}
			switch in := in.(type) {
			case *ssa.Alloc:
				e.n++
				env[in] = &cval{k: 'p', cell: fmt.Sprintf("#%d", e.n)}
				if _, ok := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); ok {
					e.heap[env[in].cell] = &cval{k: 'i'}
				}
			case *ssa.FieldAddr:
				if p := get(in.X); p.k == 'p' {
					env[in] = &cval{k: 'p', cell: p.cell + "." + fieldVar(in.X.Type(), in.Field).Name()}
				}
			case *ssa.IndexAddr:
				if p, ix := get(in.X), get(in.Index); p.k == 'p' && ix.k == 'i' {
					env[in] = &cval{k: 'p', cell: fmt.Sprintf("%s[%d]", p.cell, ix.i)}
				}
			case *ssa.Store:
				if p := get(in.Addr); p.k == 'p' {
					e.store(p.cell, get(in.Val))
				}
			case *ssa.UnOp:
				switch in.Op {
				case token.MUL:
					if p := get(in.X); p.k == 'p' {
						env[in] = e.load(p.cell)
					} else {
						env[in] = cUnknown
					}
				case token.NOT:
					if x := get(in.X); x.k == 'i' {
						env[in] = &cval{k: 'i', i: 1 - x.i}
					}
				}
			case *ssa.BinOp:
				x, y := get(in.X), get(in.Y)
				if x.k == 'i' && y.k == 'i' {
					bi := func(t bool) *cval {
						if t {
							return &cval{k: 'i', i: 1}
						}
						return &cval{k: 'i', i: 0}
					}
					switch in.Op {
					case token.ADD:
						env[in] = &cval{k: 'i', i: x.i + y.i}
					case token.SUB:
						env[in] = &cval{k: 'i', i: x.i - y.i}
					case token.MUL:
						env[in] = &cval{k: 'i', i: x.i * y.i}
					case token.LSS:
						env[in] = bi(x.i < y.i)
					case token.LEQ:
						env[in] = bi(x.i <= y.i)
					case token.GTR:
						env[in] = bi(x.i > y.i)
					case token.GEQ:
						env[in] = bi(x.i >= y.i)
					case token.EQL:
						env[in] = bi(x.i == y.i)
					case token.NEQ:
						env[in] = bi(x.i != y.i)
					}
				}
			case *ssa.Convert:
				env[in] = get(in.X)
			case *ssa.ChangeType:
				env[in] = get(in.X)
			case *ssa.MakeClosure:
				c := &cval{k: 'c', fn: in.Fn.(*ssa.Function)}
				for _, x := range in.Bindings {
					v := get(x)
					if v.k == 'p' {
						v = e.load(v.cell)
					}
					c.bind = append(c.bind, v)
				}
				env[in] = c
			case *ssa.Field:
				if x := get(in.X); x.k == 'a' {
					f := "." + fieldVar(in.X.Type(), in.Field).Name()
					if v, ok := x.agg[f]; ok {
						env[in] = v
					}
				}
			case *ssa.Extract:
				if x := get(in.Tuple); x.k == 'a' {
					env[in] = x.agg[fmt.Sprintf("#%d", in.Index)]
				}
			case *ssa.Call:
				var cargs []*cval
				for _, a := range in.Call.Args {
					cargs = append(cargs, get(a))
				}
				var callee *ssa.Function
				var bs []*cval
				if f := in.Call.StaticCallee(); f != nil {
					callee = f
					if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
						bs = get(mc).bind
					}
				} else if v := get(in.Call.Value); v.k == 'f' || v.k == 'c' {
					callee, bs = v.fn, v.bind
				}
				if callee == nil {
					continue
				}
				if e.keep[callee.Name()] {
					env[in] = &cval{k: 'm', fn: callee, bind: cargs}
					continue
				}
				if callee.Pkg != fn.Pkg && callee.Parent() == nil {
					continue
				}
				rs := e.call(callee, cargs, bs, depth+1)
				if len(rs) == 1 {
					env[in] = rs[0]
				} else if len(rs) > 1 {
					a := map[string]*cval{}
					for i, r := range rs {
						a[fmt.Sprintf("#%d", i)] = r
					}
					env[in] = &cval{k: 'a', agg: a}
				}
			case *ssa.Return:
				var rs []*cval
				for _, r := range in.Results {
					rs = append(rs, get(r))
				}
				return rs
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := get(in.Cond)
				if c.k != 'i' {
					return nil
				}
				if c.i != 0 {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			}
		}
		if next == nil {
			return nil
		}
		prev, b = b, next
	}
}

// ---- what an implementation does to stack and memory -----------------------

type memUse struct{ off, size string }

type effect struct {
	need, net int
	mem       map[memUse]bool
	memTouch  bool
	exits     map[[2]int]bool // (need, net) at non-error exits
	pcStores  []*ssa.Store
	bad       string
}

type pathSt struct {
	h, need int
	lab     map[ssa.Value]string
	ints    map[ssa.Value]int64
	vis     map[*ssa.BasicBlock]int
}

func (p *pathSt) clone() *pathSt {
	q := &pathSt{h: p.h, need: p.need, lab: map[ssa.Value]string{}, ints: map[ssa.Value]int64{}, vis: map[*ssa.BasicBlock]int{}}
	for k, v := range p.lab {
		q.lab[k] = v
	}
	for k, v := range p.ints {
		q.ints[k] = v
	}
	for k, v := range p.vis {
		q.vis[k] = v
	}
	return q
}

type effAn struct {
	out   *effect
	paths int
}

// effects of fn where the parameters named by roles ("stack", "memory", "pc")
// are tracked and free variables have the given constants.
func stackEffect(fn *ssa.Function, bind []*cval) *effect {
	a := &effAn{out: &effect{mem: map[memUse]bool{}, exits: map[[2]int]bool{}}}
	st := &pathSt{lab: map[ssa.Value]string{}, ints: map[ssa.Value]int64{}, vis: map[*ssa.BasicBlock]int{}}
	for i, fv := range fn.FreeVars {
		if i < len(bind) && bind[i] != nil && bind[i].k == 'i' {
			st.ints[fv] = bind[i].i
		}
	}
	a.walk(fn, fn.Blocks[0], nil, st, func(*pathSt) {}, true, 0)
	if a.paths > 20000 {
		a.out.bad = "too many paths"
	}
	return a.out
}

func ptrTo(t types.Type, name string) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == name
}

func (a *effAn) ival(st *pathSt, v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return c.Int64(), true
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			return 1, true
		}
		return 0, true
	}
	n, ok := st.ints[v]
	return n, ok
}

func (a *effAn) label(st *pathSt, v ssa.Value) string {
	if n, ok := a.ival(st, v); ok {
		return fmt.Sprint(n)
	}
	if l, ok := st.lab[v]; ok {
		return l
	}
	return "?"
}

func (st *pathSt) read(idx int) string {
	// idx: position from the current top
	o := idx - st.h
	if o >= 0 && o+1 > st.need {
		st.need = o + 1
	}
	if o < 0 {
		return "pushed"
	}
	return fmt.Sprintf("s%d", o)
}

func isErrExit(r *ssa.Return) bool {
	n := len(r.Results)
	if n == 0 {
		return false
	}
	last := r.Results[n-1]
	if !isErr(last.Type()) {
		return false
	}
	if u, ok := last.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			if sv := lastStore(u, al); sv != nil {
				last = sv
			}
		}
	}
	if c, ok := last.(*ssa.Const); ok && c.Value == nil {
		return false
	}
	return true
}

func (a *effAn) walk(fn *ssa.Function, b *ssa.BasicBlock, prev *ssa.BasicBlock, st *pathSt, ret func(*pathSt), top bool, depth int) {
	a.paths++
	if a.paths > 20000 {
		return
	}
	st.vis[b]++
	if st.vis[b] > 40 {
		return
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			for i, p := range b.Preds {
				if p == prev {
					delete(st.ints, in)
					delete(st.lab, in)
					if n, ok := a.ival(st, in.Edges[i]); ok {
						st.ints[in] = n
					} else if l, ok := st.lab[in.Edges[i]]; ok {
						st.lab[in] = l
					}
				}
			}
		case *ssa.BinOp:
			x, ok1 := a.ival(st, in.X)
			y, ok2 := a.ival(st, in.Y)
			delete(st.ints, in)
			if ok1 && ok2 {
				b2i := func(t bool) int64 { return int64(boolInt(t)) }
				switch in.Op {
				case token.ADD:
					st.ints[in] = x + y
				case token.SUB:
					st.ints[in] = x - y
				case token.MUL:
					st.ints[in] = x * y
				case token.LSS:
					st.ints[in] = b2i(x < y)
				case token.LEQ:
					st.ints[in] = b2i(x <= y)
				case token.GTR:
					st.ints[in] = b2i(x > y)
				case token.GEQ:
					st.ints[in] = b2i(x >= y)
				case token.EQL:
					st.ints[in] = b2i(x == y)
				case token.NEQ:
					st.ints[in] = b2i(x != y)
				}
			}
		case *ssa.Convert:
			if n, ok := a.ival(st, in.X); ok {
				st.ints[in] = n
			} else if l, ok := st.lab[in.X]; ok {
				st.lab[in] = l
			}
		case *ssa.ChangeType:
			if l, ok := st.lab[in.X]; ok {
				st.lab[in] = l
			}
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if n, ok := st.ints[in.X]; ok { // captured constant
					st.ints[in] = n
				}
			}
		case *ssa.Store:
			if p, ok := in.Addr.(*ssa.Parameter); ok && types.Identical(p.Type(), types.NewPointer(types.Typ[types.Uint64])) && top {
				a.out.pcStores = append(a.out.pcStores, in)
			}
			if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
				if ld, ok := ia.X.(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && ptrTo(fa.X.Type(), "Memory") {
						a.out.memTouch = true
						a.out.mem[memUse{a.label(st, ia.Index), "1"}] = true
					}
				}
			}
			if al, ok := in.Addr.(*ssa.Alloc); ok {
				if n, ok := a.ival(st, in.Val); ok {
					st.ints[al] = n
				} else {
					delete(st.ints, al)
				}
			}
		case *ssa.Call:
			a.callEff(in, st, depth)
		case *ssa.Return:
			if !(top && isErrExit(in)) {
				if top {
					a.out.exits[[2]int{st.need, st.h}] = true
				}
				ret(st)
			} else {
				// error exits still must not read below the stack
				if st.need > a.out.need {
					a.out.need = st.need
				}
			}
			return
		case *ssa.Jump:
			a.walk(fn, b.Succs[0], b, st, ret, top, depth)
			return
		case *ssa.If:
			if n, ok := a.ival(st, in.Cond); ok {
				a.walk(fn, b.Succs[1-n], b, st, ret, top, depth)
				return
			}
			a.walk(fn, b.Succs[0], b, st.clone(), ret, top, depth)
			a.walk(fn, b.Succs[1], b, st.clone(), ret, top, depth)
			return
		}
	}
}

func (a *effAn) callEff(in *ssa.Call, st *pathSt, depth int) {
	c := &in.Call
	f := c.StaticCallee()
	if f == nil {
		return
	}
	delete(st.ints, in)
	delete(st.lab, in)
	recv := f.Signature.Recv()
	if recv != nil && ptrTo(recv.Type(), "Stack") {
		n := int64(0)
		switch f.Name() {
		case "pop":
			st.lab[in] = st.read(0)
			st.h--
			return
		case "peek":
			st.lab[in] = st.read(0)
			return
		case "Back":
			if x, ok := a.ival(st, c.Args[1]); ok {
				st.lab[in] = st.read(int(x))
			} else {
				a.out.bad = "stack.Back with an unknown index"
			}
			return
		case "push":
			st.h++
			return
		case "dup", "swap":
			x, ok := a.ival(st, c.Args[len(c.Args)-1])
			if !ok {
				a.out.bad = "stack." + f.Name() + " with an unknown index"
				return
			}
			n = x
			st.read(int(n) - 1)
			if f.Name() == "dup" {
				st.h++
			}
			return
		case "len", "require", "Data", "Print":
			return
		case "pushN":
			a.out.bad = "pushN"
			return
		}
	}
	if recv != nil && ptrTo(recv.Type(), "Memory") {
		switch f.Name() {
		case "Get", "GetPtr", "Set":
			a.out.memTouch = true
			a.out.mem[memUse{a.label(st, c.Args[1]), a.label(st, c.Args[2])}] = true
			return
		case "Set32":
			a.out.memTouch = true
			a.out.mem[memUse{a.label(st, c.Args[1]), "32"}] = true
			return
		case "Len":
			return
		}
	}
	// integer views of a stack item
	if len(c.Args) == 1 && recv != nil && isBig(recv.Type()) {
		switch f.Name() {
		case "Int64", "Uint64":
			if l, ok := st.lab[c.Args[0]]; ok {
				st.lab[in] = l
			}
			return
		}
	}
	if f.Name() == "U256" && len(c.Args) == 1 {
		if l, ok := st.lab[c.Args[0]]; ok {
			st.lab[in] = l
		}
		return
	}
	// helpers that are handed the stack or the memory
	pass := false
	for _, x := range c.Args {
		if ptrTo(x.Type(), "Stack") || ptrTo(x.Type(), "Memory") {
			pass = true
		}
	}
	if !pass || len(f.Blocks) == 0 || depth > 4 {
		return
	}
	sub := st.clone()
	sub.vis = map[*ssa.BasicBlock]int{}
	for i, p := range f.Params {
		if n, ok := a.ival(st, c.Args[i]); ok {
			sub.ints[p] = n
		} else if l, ok := st.lab[c.Args[i]]; ok {
			sub.lab[p] = l
		}
	}
	var outs []*pathSt
	a.walk(f, f.Blocks[0], nil, sub, func(p *pathSt) { outs = append(outs, p) }, false, depth+1)
	if len(outs) == 0 {
		return
	}
	st.h = outs[0].h
	for _, o := range outs {
		if o.need > st.need {
			st.need = o.need
		}
		if o.h != outs[0].h {
			a.out.bad = "helper " + f.Name() + " with varying stack effect"
		}
	}
}

// memory ranges a memorySize function accounts for
func memPairs(fn *ssa.Function, out map[memUse]bool) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	return memPairsIn(fn, map[ssa.Value]string{}, out, 0)
}

func memPairsIn(fn *ssa.Function, env map[ssa.Value]string, out map[memUse]bool, depth int) bool {
	var lab func(v ssa.Value) string
	lab = func(v ssa.Value) string {
		if l, ok := env[v]; ok {
			return l
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Int {
				return fmt.Sprint(x.Int64())
			}
		case *ssa.Convert:
			return lab(x.X)
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return "?"
			}
			if f.Name() == "Back" && len(x.Call.Args) == 2 {
				return "s" + lab(x.Call.Args[1])
			}
			if f.Name() == "peek" {
				return "s0"
			}
			if f.Name() == "NewInt" && len(x.Call.Args) == 1 {
				return lab(x.Call.Args[0])
			}
		}
		return "?"
	}
	var ret func(v ssa.Value) bool
	ret = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !ret(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			switch f.Name() {
			case "calcMemSize":
				out[memUse{lab(x.Call.Args[0]), lab(x.Call.Args[1])}] = true
				return true
			case "BigMax":
				return ret(x.Call.Args[0]) && ret(x.Call.Args[1])
			}
			if depth < 3 && len(f.Blocks) > 0 {
				e2 := map[ssa.Value]string{}
				for i, p := range f.Params {
					e2[p] = lab(x.Call.Args[i])
				}
				return memPairsIn(f, e2, out, depth+1)
			}
		}
		return false
	}
	ok := false
	for _, b := range fn.Blocks {
		if r, isr := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isr {
			// max of several returns under comparisons: every returned range counts
			if !ret(r.Results[0]) {
				return false
			}
			ok = true
		}
	}
	return ok
}

// ---- state mutation reachability -------------------------------------------

var stateMutators = map[string]bool{"CreateAccount": true, "SubBalance": true, "AddBalance": true, "SetNonce": true, "SetCode": true, "SetState": true, "Suicide": true, "AddLog": true, "AppendXShardList": true, "AddBlockFee": true, "SetBalance": true}

func mutatesState(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if fn == nil || seen[fn] || len(fn.Blocks) == 0 {
		return ""
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if c.IsInvoke() {
				if n, ok := c.Value.Type().(*types.Named); ok && n.Obj().Name() == "StateDB" && stateMutators[c.Method.Name()] {
					return c.Method.Name()
				}
				continue
			}
			f := c.StaticCallee()
			if f == nil {
				continue
			}
			if r := f.Signature.Recv(); r != nil && ptrTo(r.Type(), "EVM") {
				switch f.Name() {
				case "Call", "CallCode", "DelegateCall", "StaticCall":
					continue
				}
			}
			if f.Pkg == fn.Pkg || f.Parent() != nil {
				if m := mutatesState(f, seen); m != "" {
					return m
				}
			}
		}
	}
	return ""
}

// ---- specification ---------------------------------------------------------

type opSpec struct {
	name                           string
	pop, push                      int
	gas                            int64 // -1: dynamic
	halts, jumps, reverts, returns bool
	writes, mem                    bool
	since                          int // 0 frontier 1 homestead 2 byzantium 3 constantinople
}

func evmSpec() map[int64]*opSpec {
	m := map[int64]*opSpec{}
	add := func(op int64, name string, pop, push int, gas int64, flags string, since int) {
		m[op] = &opSpec{name: name, pop: pop, push: push, gas: gas, since: since,
			halts: strings.Contains(flags, "h"), jumps: strings.Contains(flags, "j"), reverts: strings.Contains(flags, "r"),
			returns: strings.Contains(flags, "R"), writes: strings.Contains(flags, "w"), mem: strings.Contains(flags, "m")}
	}
	add(0x00, "STOP", 0, 0, 0, "h", 0)
	for i, s := range []struct {
		n        string
		pop, gas int
	}{{"ADD", 2, 3}, {"MUL", 2, 5}, {"SUB", 2, 3}, {"DIV", 2, 5}, {"SDIV", 2, 5}, {"MOD", 2, 5}, {"SMOD", 2, 5}, {"ADDMOD", 3, 8}, {"MULMOD", 3, 8}, {"EXP", 2, -1}, {"SIGNEXTEND", 2, 5}} {
		add(int64(1+i), s.n, s.pop, 1, int64(s.gas), "", 0)
	}
	for i, n := range []string{"LT", "GT", "SLT", "SGT", "EQ", "ISZERO", "AND", "OR", "XOR", "NOT", "BYTE", "SHL", "SHR", "SAR"} {
		p, since := 2, 0
		if n == "ISZERO" || n == "NOT" {
			p = 1
		}
		if i >= 11 {
			since = 3
		}
		add(int64(0x10+i), n, p, 1, 3, "", since)
	}
	add(0x20, "SHA3", 2, 1, -1, "m", 0)
	add(0x30, "ADDRESS", 0, 1, 2, "", 0)
	add(0x31, "BALANCE", 1, 1, -1, "", 0)
	add(0x32, "ORIGIN", 0, 1, 2, "", 0)
	add(0x33, "CALLER", 0, 1, 2, "", 0)
	add(0x34, "CALLVALUE", 0, 1, 2, "", 0)
	add(0x35, "CALLDATALOAD", 1, 1, 3, "", 0)
	add(0x36, "CALLDATASIZE", 0, 1, 2, "", 0)
	add(0x37, "CALLDATACOPY", 3, 0, -1, "m", 0)
	add(0x38, "CODESIZE", 0, 1, 2, "", 0)
	add(0x39, "CODECOPY", 3, 0, -1, "m", 0)
	add(0x3a, "GASPRICE", 0, 1, 2, "", 0)
	add(0x3b, "EXTCODESIZE", 1, 1, -1, "", 0)
	add(0x3c, "EXTCODECOPY", 4, 0, -1, "m", 0)
	add(0x3d, "RETURNDATASIZE", 0, 1, 2, "", 2)
	add(0x3e, "RETURNDATACOPY", 3, 0, -1, "m", 2)
	add(0x3f, "EXTCODEHASH", 1, 1, -1, "", 3)
	add(0x40, "BLOCKHASH", 1, 1, 20, "", 0)
	for i, n := range []string{"COINBASE", "TIMESTAMP", "NUMBER", "DIFFICULTY", "GASLIMIT"} {
		add(int64(0x41+i), n, 0, 1, 2, "", 0)
	}
	add(0x50, "POP", 1, 0, 2, "", 0)
	add(0x51, "MLOAD", 1, 1, -1, "m", 0)
	add(0x52, "MSTORE", 2, 0, -1, "m", 0)
	add(0x53, "MSTORE8", 2, 0, -1, "m", 0)
	add(0x54, "SLOAD", 1, 1, -1, "", 0)
	add(0x55, "SSTORE", 2, 0, -1, "w", 0)
	add(0x56, "JUMP", 1, 0, 8, "j", 0)
	add(0x57, "JUMPI", 2, 0, 10, "j", 0)
	add(0x58, "PC", 0, 1, 2, "", 0)
	add(0x59, "MSIZE", 0, 1, 2, "", 0)
	add(0x5a, "GAS", 0, 1, 2, "", 0)
	add(0x5b, "JUMPDEST", 0, 0, 1, "", 0)
	for i := 0; i < 32; i++ {
		add(int64(0x60+i), fmt.Sprintf("PUSH%d", i+1), 0, 1, -1, "", 0)
	}
	for i := 0; i < 16; i++ {
		add(int64(0x80+i), fmt.Sprintf("DUP%d", i+1), i+1, i+2, -1, "", 0)
		add(int64(0x90+i), fmt.Sprintf("SWAP%d", i+1), i+2, i+2, -1, "", 0)
	}
	for i := 0; i < 5; i++ {
		add(int64(0xa0+i), fmt.Sprintf("LOG%d", i), i+2, 0, -1, "wm", 0)
	}
	add(0xf0, "CREATE", 3, 1, -1, "wmR", 0)
	add(0xf1, "CALL", 7, 1, -1, "mR", 0)
	add(0xf2, "CALLCODE", 7, 1, -1, "mR", 0)
	add(0xf3, "RETURN", 2, 0, -1, "hm", 0)
	add(0xf4, "DELEGATECALL", 6, 1, -1, "mR", 1)
	add(0xf5, "CREATE2", 4, 1, -1, "wmR", 3)
	add(0xfa, "STATICCALL", 6, 1, -1, "mR", 2)
	add(0xfd, "REVERT", 2, 0, -1, "rmR", 2)
	add(0xff, "SELFDESTRUCT", 1, 0, -1, "hw", 0)
	return m
}

// calls whose overflow flag must decide an error return
var overflowFns = map[string]bool{"SafeAdd": true, "SafeMul": true, "SafeSub": true, "bigUint64": true}

func reachesIf(v ssa.Value, depth int) bool {
	if depth > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.If:
			return true
		case *ssa.Return:
			return true
		case *ssa.Phi, *ssa.UnOp, *ssa.BinOp:
			if reachesIf(r.(ssa.Value), depth+1) {
				return true
			}
		case *ssa.Store: // kept in a variable
			if al, ok := r.Addr.(*ssa.Alloc); ok {
				for _, q := range *al.Referrers() {
					if u, ok := q.(*ssa.UnOp); ok && reachesIf(u, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) evmTable() {
	spec := evmSpec()
	sets := []string{"newFrontierInstructionSet", "newHomesteadInstructionSet", "newByzantiumInstructionSet", "newConstantinopleInstructionSet"}
	gasFns := map[*ssa.Function]bool{}
	for lvl, name := range sets {
		fn := c.w.funcs["core/vm."+name]
		where := "core/vm/jump_table.go " + name
		if fn == nil {
			c.fail("table", where, "instruction set builder not found")
			continue
		}
		c.funcs["core/vm."+name] = true
		e := &ceval{heap: map[string]*cval{}, keep: map[string]bool{"makeStackFunc": true}}
		rs := e.call(fn, nil, nil, 0)
		if len(rs) != 1 || rs[0] == nil || rs[0].k != 'a' {
			c.fail("table", where, "undecided: the instruction table could not be evaluated")
			continue
		}
		ents := map[int64]map[string]*cval{}
		for k, v := range rs[0].agg {
			var i int64
			var f string
			if n, _ := fmt.Sscanf(k, "[%d].%s", &i, &f); n == 2 {
				if ents[i] == nil {
					ents[i] = map[string]*cval{}
				}
				ents[i][f] = v
			}
		}
		for op := int64(0); op < 256; op++ {
			en := ents[op]
			sp := spec[op]
			flag := func(f string) bool { v := en[f]; return v != nil && v.k == 'i' && v.i != 0 }
			if sp == nil || sp.since > lvl {
				c.check(!flag("valid"), "opcode", fmt.Sprintf("%s 0x%02x", where, op), "an opcode outside the instruction set is not executable")
				continue
			}
			w := fmt.Sprintf("%s %s", where, sp.name)
			if !flag("valid") {
				c.fail("opcode", w, "instruction is not valid")
				continue
			}
			ex, gc, vs, ms := en["execute"], en["gasCost"], en["validateStack"], en["memorySize"]
			isFn := func(v *cval) bool { return v != nil && (v.k == 'f' || v.k == 'c') }
			if !isFn(ex) || !isFn(gc) || vs == nil || vs.k == 'n' {
				c.fail("opcode", w, "instruction lacks an implementation, gas function or stack check")
				continue
			}
			for _, f := range []struct {
				n    string
				want bool
			}{{"halts", sp.halts}, {"jumps", sp.jumps}, {"reverts", sp.reverts}, {"returns", sp.returns}} {
				c.check(flag(f.n) == f.want, "flag", w, fmt.Sprintf("flag %s is %v", f.n, f.want))
			}
			// declared stack bounds
			if vs.k != 'm' || len(vs.bind) != 2 || vs.bind[0].k != 'i' || vs.bind[1].k != 'i' {
				c.fail("stack", w, "undecided: stack bounds are not constants")
				continue
			}
			pop, push := int(vs.bind[0].i), int(vs.bind[1].i)
			c.check(pop == sp.pop && push == sp.push, "stack", w, fmt.Sprintf("declares %d operands and %d results (specified %d and %d)", pop, push, sp.pop, sp.push))
			// implementation's stack use
			ef := stackEffect(ex.fn, ex.bind)
			if ef.bad != "" {
				c.fail("stack", w, "undecided: "+ef.bad)
				continue
			}
			need := ef.need
			netOK := true
			for x := range ef.exits {
				if x[0] > need {
					need = x[0]
				}
				if x[1] != push-pop {
					netOK = false
				}
			}
			c.check(need <= pop, "stack", w, fmt.Sprintf("the implementation %s reads %d stack items, declared %d", c.w.fullName(ex.fn), need, pop))
			c.check(netOK && len(ef.exits) > 0, "stack", w, fmt.Sprintf("the implementation %s changes the stack height by %d on every success path", c.w.fullName(ex.fn), push-pop))
			// memory
			c.check(ef.memTouch == sp.mem || !ef.memTouch, "memory", w, "touches memory only if specified")
			if ef.memTouch {
				if ms == nil || ms.k != 'f' && ms.k != 'c' {
					c.fail("memory", w, "touches memory without a memory size function: growth is not paid")
				} else {
					got := map[memUse]bool{}
					if !memPairs(ms.fn, got) {
						c.fail("memory", w, "undecided: memory size function "+c.w.fullName(ms.fn))
					}
					var us []string
					for u := range ef.mem {
						us = append(us, u.off+"+"+u.size)
						c.check(got[u], "memory", w, fmt.Sprintf("memory range (offset %s, size %s) used by %s is accounted for by %s", u.off, u.size, c.w.fullName(ex.fn), c.w.fullName(ms.fn)))
					}
					sort.Strings(us)
					// gas function charges for it
					a := c.analysis(nil, nil)
					s := a.summary(gc.fn)
					okm := false
					if s != nil && s.cls['Z'] != nil {
						for _, f := range s.cls['Z'].facts {
							if f.Kind == 'c' && f.A.S == "memoryGasCost" && len(f.A.A) == 2 && f.A.A[1].key == "p5" {
								r := s.cls['Z'].results
								if len(r) > 0 && r[0] != nil && r[0].contains(func(t *Term) bool {
									return t.Op == "x" && t.S == "0" && t.A[0].Op == "call" && t.A[0].S == "memoryGasCost"
								}) {
									okm = true
								}
							}
						}
					}
					c.check(okm, "memgas", w, "gas charged by "+c.w.fullName(gc.fn)+" includes the memory growth")
				}
			}
			// gas constants
			if sp.gas >= 0 {
				g := int64(-1)
				if gc.k == 'c' && len(gc.bind) == 1 && gc.bind[0].k == 'i' {
					g = gc.bind[0].i
				}
				if g >= 0 {
					c.check(g == sp.gas, "gas", w, fmt.Sprintf("costs %d gas", sp.gas))
				}
			}
			gasFns[gc.fn] = true
			// state mutation
			mut := mutatesState(ex.fn, map[*ssa.Function]bool{})
			c.check((mut != "") == flag("writes") && flag("writes") == sp.writes, "writes", w, fmt.Sprintf("flagged as writing %v (implementation calls %q)", sp.writes, mut))
			// program counter
			for _, s := range ef.pcStores {
				c.checkPC(ex.fn, s, sp, w)
			}
			if sp.jumps {
				c.check(len(ef.pcStores) > 0, "jump", w, "a jump sets the program counter")
			}
		}
	}
	// overflow flags
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || f.Pkg == nil || c.w.fullName(f) == "" {
			return
		}
		if !strings.HasPrefix(c.w.fullName(f), "core/vm.") {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := cl.Call.StaticCallee()
				if cal == nil {
					continue
				}
				if overflowFns[cal.Name()] && cal.Signature.Results().Len() == 2 {
					ok := false
					for _, r := range *cl.Referrers() {
						if ex, isx := r.(*ssa.Extract); isx && ex.Index == 1 && reachesIf(ex, 0) {
							ok = true
						}
					}
					c.check(ok, "overflow", c.w.pos(cl.Pos())+" in "+c.w.fullName(f), "the overflow flag of "+cal.Name()+" is acted on")
				}
				visit(cal)
			}
		}
	}
	var gl []*ssa.Function
	for f := range gasFns {
		gl = append(gl, f)
	}
	sort.Slice(gl, func(i, j int) bool { return c.w.fullName(gl[i]) < c.w.fullName(gl[j]) })
	for _, f := range gl {
		visit(f)
	}
	if f := c.fn("core/vm.(*EVMInterpreter).Run", "overflow"); f != nil {
		visit(f)
	}
}

// checkPC: a store to the program counter is either relative (+ constant) or a validated destination.
func (c *Ctx) checkPC(fn *ssa.Function, s *ssa.Store, sp *opSpec, w string) {
	if b, ok := s.Val.(*ssa.BinOp); ok && b.Op == token.ADD {
		if ld, ok := b.X.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == s.Addr {
			if sp.jumps {
				k, ok := b.Y.(*ssa.Const)
				c.check(ok && k.Int64() == 1, "jump", w, "falling through advances by one")
			}
			return
		}
	}
	// absolute: must be dominated by validJumpdest(x) == true for the same value
	var src ssa.Value
	if cl, ok := s.Val.(*ssa.Call); ok && len(cl.Call.Args) == 1 {
		src = cl.Call.Args[0]
	}
	ok := false
	for _, b := range fn.Blocks {
		iff, isif := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !isif {
			continue
		}
		cond := iff.Cond
		want := 0
		if u, isu := cond.(*ssa.UnOp); isu && u.Op == token.NOT {
			cond, want = u.X, 1
		}
		cl, iscl := cond.(*ssa.Call)
		if !iscl || cl.Call.StaticCallee() == nil || cl.Call.StaticCallee().Name() != "validJumpdest" || cl.Call.Args[1] != src {
			continue
		}
		t := b.Succs[want]
		if len(t.Preds) == 1 && t.Dominates(s.Block()) {
			ok = true
		}
	}
	c.check(ok && sp.jumps, "jump", w, "an absolute jump goes to a destination found valid ("+c.w.pos(s.Pos())+")")
}
