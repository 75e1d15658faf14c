package main

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Must-locksets: for every instruction the mutexes held on every path to it, on every call chain
// from a root of the program. A mutex is identified by the struct (or package) variable it is
// stored in, not by instance.

type lockset map[string]byte // 1 = read lock, 2 = write lock

func (a lockset) meet(b lockset) lockset {
	r := lockset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if w < v {
				v = w
			}
			r[k] = v
		}
	}
	return r
}

func (a lockset) eq(b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (a lockset) clone() lockset {
	r := lockset{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

type locks struct {
	w       *World
	entry   map[*ssa.Function]lockset // nil: not yet known to be reached
	at      map[ssa.Instruction]lockset
	effects map[*ssa.Function]lockEffect
	sites   map[*ssa.Function][]lockSite
	root    map[*ssa.Function]string
}

type lockEffect struct {
	acquires lockset
	releases map[string]bool
}

type lockSite struct {
	in    ssa.Instruction
	kind  byte // 'c' call, 'd' defer
	fresh bool // the receiver is an object the caller has just made
}

func mutexOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if s := structName(x); s != "" {
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			return s + "." + st.Field(x.Field).Name()
		}
	case *ssa.UnOp:
		return mutexOf(x.X)
	case *ssa.Global:
		return strings.TrimPrefix(x.Pkg.Pkg.Path(), modPath+"/") + "." + x.Name()
	case *ssa.ChangeType:
		return mutexOf(x.X)
	case *ssa.MakeInterface:
		return mutexOf(x.X)
	}
	return ""
}

// mutexOp: the mutex and operation of a call: Lock, RLock, Unlock, RUnlock
func mutexOp(c *ssa.CallCommon) (id, op string) {
	f := c.StaticCallee()
	if f != nil && len(c.Args) > 0 {
		s := f.String()
		for _, p := range []string{"(*sync.Mutex).", "(*sync.RWMutex)."} {
			if strings.HasPrefix(s, p) {
				return mutexOf(c.Args[0]), s[len(p):]
			}
		}
		// promoted through an embedding struct
		if f.Synthetic != "" && (f.Name() == "Lock" || f.Name() == "Unlock" || f.Name() == "RLock" || f.Name() == "RUnlock") {
			return mutexOf(c.Args[0]), f.Name()
		}
	}
	if c.IsInvoke() && c.Value.Type().String() == "sync.Locker" {
		return mutexOf(c.Value), c.Method.Name()
	}
	return "", ""
}

func (l *locks) apply(in ssa.Instruction, h lockset) lockset {
	call, ok := in.(*ssa.Call)
	if !ok {
		return h
	}
	id, op := mutexOp(&call.Call)
	switch op {
	case "Lock":
		h = h.clone()
		h[id] = 2
		return h
	case "RLock":
		h = h.clone()
		if h[id] < 1 {
			h[id] = 1
		}
		return h
	case "Unlock", "RUnlock":
		h = h.clone()
		delete(h, id)
		return h
	}
	if f := call.Call.StaticCallee(); f != nil && l.w.inRepo(f) {
		e := l.effect(f)
		if len(e.acquires)+len(e.releases) > 0 {
			h = h.clone()
			for k := range e.releases {
				delete(h, k)
			}
			for k, v := range e.acquires {
				h[k] = v
			}
		}
	}
	return h
}

// effect: what a call leaves locked or unlocks, for helpers that lock or unlock for their caller
func (l *locks) effect(f *ssa.Function) lockEffect {
	if e, ok := l.effects[f]; ok {
		return e
	}
	l.effects[f] = lockEffect{}
	e := lockEffect{releases: map[string]bool{}}
	deferred := map[string]bool{}
	touched := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if id, op := mutexOp(&d.Call); op == "Unlock" || op == "RUnlock" {
					deferred[id] = true
				}
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					for k := range l.effect(mc.Fn.(*ssa.Function)).releases {
						deferred[k] = true
					}
				}
			}
			if c, ok := in.(*ssa.Call); ok {
				if _, op := mutexOp(&c.Call); op != "" {
					touched = true
				} else if g := c.Call.StaticCallee(); g != nil && l.w.inRepo(g) {
					ge := l.effect(g)
					if len(ge.acquires)+len(ge.releases) > 0 {
						touched = true
					}
				}
			}
		}
	}
	if !touched {
		return e
	}
	// locks held at every return, starting from none; locks released somewhere without being taken here
	var atRet lockset
	out := l.flow(f, lockset{}, func(in ssa.Instruction, h lockset) {
		if c, ok := in.(*ssa.Call); ok {
			if id, op := mutexOp(&c.Call); op == "Unlock" || op == "RUnlock" {
				if _, held := h[id]; !held {
					e.releases[id] = true
				}
			}
		}
		if _, ok := in.(*ssa.Return); ok {
			if atRet == nil {
				atRet = h.clone()
			} else {
				atRet = atRet.meet(h)
			}
		}
	})
	_ = out
	for k := range deferred {
		delete(atRet, k)
	}
	e.acquires = atRet
	for k := range atRet {
		delete(e.releases, k)
	}
	l.effects[f] = e
	return e
}

// flow runs the lockset dataflow through f from the entry set and shows each instruction the
// set held before it.
func (l *locks) flow(f *ssa.Function, entry lockset, visit func(ssa.Instruction, lockset)) map[*ssa.BasicBlock]lockset {
	if len(f.Blocks) == 0 {
		return nil
	}
	in := map[*ssa.BasicBlock]lockset{f.Blocks[0]: entry}
	order := rpo(f)
	for changed := true; changed; {
		changed = false
		for _, b := range order {
			h, ok := in[b]
			if !ok {
				continue
			}
			for _, x := range b.Instrs {
				h = l.apply(x, h)
			}
			for _, s := range b.Succs {
				o, ok := in[s]
				n := h
				if ok {
					n = o.meet(h)
				}
				if !ok || !n.eq(o) {
					in[s] = n
					changed = true
				}
			}
		}
	}
	for _, b := range order {
		h, ok := in[b]
		if !ok {
			continue
		}
		for _, x := range b.Instrs {
			visit(x, h)
			h = l.apply(x, h)
		}
	}
	return in
}

func (w *World) locksets() *locks {
	l := &locks{w: w, entry: map[*ssa.Function]lockset{}, at: map[ssa.Instruction]lockset{}, effects: map[*ssa.Function]lockEffect{}, sites: map[*ssa.Function][]lockSite{}, root: map[*ssa.Function]string{}}
	l.collect()
	work := append([]*ssa.Function{}, w.all...)
	// start from "everything held" (absent) and lower
	inq := map[*ssa.Function]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	for g, ss := range l.sites {
		for _, s := range ss {
			callees[s.in.Parent()] = append(callees[s.in.Parent()], g)
		}
	}
	compute := func(f *ssa.Function) (lockset, bool) {
		if _, ok := l.root[f]; ok {
			return lockset{}, true
		}
		var r lockset
		for _, s := range l.sites[f] {
			if s.fresh {
				continue
			}
			h, ok := l.at[s.in]
			if !ok {
				continue
			}
			if s.kind == 'd' {
				h = l.deferHeld(s.in.(*ssa.Defer), h)
			}
			if r == nil {
				r = h.clone()
			} else {
				r = r.meet(h)
			}
		}
		return r, r != nil
	}
	for _, f := range work {
		inq[f] = true
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		inq[f] = false
		e, ok := compute(f)
		if !ok {
			continue
		}
		if o, had := l.entry[f]; had && o.eq(e) {
			continue
		}
		l.entry[f] = e
		l.flow(f, e, func(in ssa.Instruction, h lockset) { l.at[in] = h })
		for _, g := range callees[f] {
			if !inq[g] {
				inq[g] = true
				work = append(work, g)
			}
		}
	}
	return l
}

// deferHeld: what is still held when a deferred call runs: locks held by the callers of the
// function or whose release was deferred earlier.
func (l *locks) deferHeld(d *ssa.Defer, h lockset) lockset {
	r := lockset{}
	f := d.Parent()
	for k, v := range h {
		if _, ok := l.entry[f][k]; ok {
			r[k] = v
		}
	}
	for _, b := range f.Blocks {
		if b != d.Block() && !b.Dominates(d.Block()) {
			continue
		}
		for _, in := range b.Instrs {
			if in == ssa.Instruction(d) {
				break
			}
			if x, ok := in.(*ssa.Defer); ok {
				if id, op := mutexOp(&x.Call); op == "Unlock" || op == "RUnlock" {
					if v, ok := h[id]; ok {
						r[id] = v
					}
				}
			}
		}
	}
	return r
}

// syncCallers: library functions that call their function argument before returning
var syncCallers = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "sort.Search": true, "(*sync.Once).Do": true, "sort.Sort": true, "(*sync.Map).Range": true, "strings.Map": true, "sort.SliceIsSorted": true}

// collect finds the call sites of every function and the functions that may be entered from
// outside with nothing held.
func (l *locks) collect() {
	w := l.w
	for _, f := range w.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					kind := byte('c')
					switch in.(type) {
					case *ssa.Go:
						kind = 'g'
					case *ssa.Defer:
						kind = 'd'
					}
					for _, g := range w.callees(c) {
						l.addSite(g, in, kind, c)
					}
					if mc, ok := c.Value.(*ssa.MakeClosure); ok && !c.IsInvoke() {
						l.addSite(mc.Fn.(*ssa.Function), in, kind, nil)
					}
				}
				// function values
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Function:
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == x {
							continue
						}
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().Value == x {
							continue
						}
						l.funcValue(x, x, in)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for _, r := range *mc.Referrers() {
						if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().Value == mc {
							continue
						}
						l.funcValue(mc.Fn.(*ssa.Function), mc, r)
					}
				}
			}
		}
	}
	// a method value kept somewhere: the method may be called from anywhere
	bound := map[*ssa.Function]string{}
	for f, why := range l.root {
		if f.Synthetic == "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if ci, ok := x.(ssa.CallInstruction); ok {
					for _, t := range w.callees(ci.Common()) {
						bound[t] = why
					}
				}
			}
		}
	}
	for f, why := range bound {
		if l.root[f] == "" {
			l.root[f] = why
		}
	}
	for _, f := range w.all {
		if len(l.sites[f]) == 0 && (f.Parent() != nil || f.Synthetic != "" || ast.IsExported(f.Name()) || f.Name() == "main" || strings.HasPrefix(f.Name(), "init")) {
			l.root[f] = "no caller"
		}
	}
}

func (l *locks) addSite(g *ssa.Function, in ssa.Instruction, kind byte, c *ssa.CallCommon) {
	if kind == 'g' {
		l.root[g] = "goroutine"
		l.sites[g] = append(l.sites[g], lockSite{in: in, kind: kind, fresh: true})
		return
	}
	s := lockSite{in: in, kind: kind}
	if c != nil && !c.IsInvoke() && g.Signature.Recv() != nil && len(c.Args) > 0 {
		if _, ok := rootAlloc(c.Args[0]); ok {
			s.fresh = true
		}
	}
	l.sites[g] = append(l.sites[g], s)
	if g.Synthetic != "" { // wrapper: the method it stands for is called from there
		for _, b := range g.Blocks {
			for _, x := range b.Instrs {
				if ci, ok := x.(ssa.CallInstruction); ok {
					for _, t := range l.w.callees(ci.Common()) {
						if t != g {
							l.sites[t] = append(l.sites[t], lockSite{in: in, kind: kind})
						}
					}
				}
			}
		}
	}
}

// rootAlloc: the value is an object allocated in the same function
func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x, true
	case *ssa.UnOp: // variable holding the only object stored in it
		if a, ok := x.X.(*ssa.Alloc); ok && a.Referrers() != nil {
			var src ssa.Value
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					if src != nil {
						return nil, false
					}
					src = st.Val
				}
			}
			if b, ok := src.(*ssa.Alloc); ok {
				return b, true
			}
		}
	case *ssa.FieldAddr:
		return rootAlloc(x.X)
	}
	return nil, false
}

// funcValue: f's value is used by instruction r other than as the callee.
func (l *locks) funcValue(f *ssa.Function, v ssa.Value, r ssa.Instruction) {
	switch x := r.(type) {
	case ssa.CallInstruction:
		c := x.Common()
		if _, isgo := r.(*ssa.Go); isgo {
			l.root[f] = "goroutine"
			return
		}
		kind := byte('c')
		if _, d := r.(*ssa.Defer); d {
			kind = 'd'
		}
		g := c.StaticCallee()
		if g != nil && !l.w.inRepo(g) {
			if syncCallers[g.String()] {
				l.sites[f] = append(l.sites[f], lockSite{in: r, kind: kind})
			} else {
				l.root[f] = "passed to " + g.String()
			}
			return
		}
		gs := l.w.callees(c)
		if len(gs) == 0 {
			l.root[f] = "passed on"
			return
		}
		for _, g := range gs {
			for i, a := range c.Args {
				if a != v {
					continue
				}
				k := i
				if c.IsInvoke() {
					k++
				}
				if k >= len(g.Params) || !l.paramCalls(f, g.Params[k], map[*ssa.Parameter]bool{}) {
					l.root[f] = "kept by " + objFull(g)
				}
			}
		}
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
			for _, rr := range *a.Referrers() {
				switch y := rr.(type) {
				case *ssa.Store:
				case *ssa.UnOp:
					for _, u := range *y.Referrers() {
						if ci, ok := u.(ssa.CallInstruction); ok && ci.Common().Value == y {
							if _, isgo := u.(*ssa.Go); !isgo {
								k := byte('c')
								if _, d := u.(*ssa.Defer); d {
									k = 'd'
								}
								l.sites[f] = append(l.sites[f], lockSite{in: u, kind: k})
								continue
							}
						}
						l.root[f] = "kept in a variable"
					}
				case *ssa.MakeClosure: // recursive closure
					l.sites[f] = append(l.sites[f])
				default:
					l.root[f] = "kept in a variable"
				}
			}
			return
		}
		l.root[f] = "stored"
	case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
		for _, u := range *x.(ssa.Value).Referrers() {
			l.funcValue(f, x.(ssa.Value), u)
		}
	case *ssa.DebugRef:
	default:
		l.root[f] = "value"
	}
}

// paramCalls: the function parameter p is only called, here or in functions it is handed to;
// the calls count as call sites of f.
func (l *locks) paramCalls(f *ssa.Function, p *ssa.Parameter, seen map[*ssa.Parameter]bool) bool {
	if seen[p] {
		return true
	}
	seen[p] = true
	for _, r := range *p.Referrers() {
		ci, ok := r.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isgo := r.(*ssa.Go); isgo {
			return false
		}
		c := ci.Common()
		if c.Value == p {
			k := byte('c')
			if _, d := r.(*ssa.Defer); d {
				k = 'd'
			}
			l.sites[f] = append(l.sites[f], lockSite{in: r, kind: k})
			continue
		}
		g := c.StaticCallee()
		if g == nil || !l.w.inRepo(g) {
			return false
		}
		for i, a := range c.Args {
			if a == p && (i >= len(g.Params) || !l.paramCalls(f, g.Params[i], seen)) {
				return false
			}
		}
	}
	return true
}

// ---- accesses to fields

type fieldAccess struct {
	field string // pkg.Struct.field
	write bool
	in    ssa.Instruction
}

// accesses of struct fields in f, objects made in f excepted
func (w *World) fieldAccesses(f *ssa.Function, want func(string) bool, visit func(fieldAccess)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			s := structName(fa)
			if s == "" {
				continue
			}
			st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			name := s + "." + st.Field(fa.Field).Name()
			if !want(name) {
				continue
			}
			if _, fresh := rootAlloc(fa.X); fresh {
				continue
			}
			w.addrUses(fa, func(in ssa.Instruction, write bool) { visit(fieldAccess{name, write, in}) }, 0)
		}
	}
}

func (w *World) addrUses(addr ssa.Value, rep func(ssa.Instruction, bool), d int) {
	if addr.Referrers() == nil || d > 4 {
		return
	}
	for _, r := range *addr.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			rep(r, x.Addr == addr)
		case *ssa.UnOp:
			rep(r, false)
			w.contentUses(x, rep)
		case *ssa.FieldAddr, *ssa.IndexAddr:
			w.addrUses(x.(ssa.Value), rep, d+1)
		case *ssa.Call:
			rep(r, true) // method on the field's address
		}
	}
}

// contentUses: uses of the map or slice loaded from the field
func (w *World) contentUses(v ssa.Value, rep func(ssa.Instruction, bool)) {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	case *types.Pointer:
		for _, r := range *v.Referrers() {
			if x, ok := r.(*ssa.Call); ok && !x.Call.IsInvoke() && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
				if g := x.Call.StaticCallee(); g != nil && g.Signature.Recv() != nil {
					rep(r, w.mutates(g))
				}
			}
		}
		return
	default:
		return
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				rep(r, true)
			}
		case *ssa.Lookup:
			if x.X == v {
				rep(r, false)
			}
		case *ssa.Range:
			rep(r, false)
			for _, n := range *x.Referrers() {
				rep(n, false)
			}
		case *ssa.IndexAddr:
			for _, u := range *x.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == x {
					rep(u, true)
				} else {
					rep(u, false)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				rep(r, b.Name() == "delete")
			}
		}
	}
}

// mutates: the method changes the object it is called on (by its body; by its name for libraries)
func (w *World) mutates(g *ssa.Function) bool {
	if !w.inRepo(g) {
		for _, p := range []string{"Push", "Pop", "Put", "Add", "Remove", "Set", "Reset", "Delete", "Insert", "Clear"} {
			if strings.HasPrefix(g.Name(), p) {
				return true
			}
		}
		return false
	}
	if w.mutating == nil {
		w.mutating = map[*ssa.Function]int{}
	}
	if v, ok := w.mutating[g]; ok {
		return v == 1
	}
	w.mutating[g] = 0
	if len(g.Params) == 0 {
		return false
	}
	recv := ssa.Value(g.Params[0])
	of := func(v ssa.Value) bool {
		for i := 0; i < 6; i++ {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			default:
				return v == recv
			}
		}
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok {
				if _, op := mutexOp(&x.Call); (op == "Lock" || op == "RLock") && len(x.Call.Args) > 0 && of(x.Call.Args[0]) {
					return false // it guards itself
				}
			}
			hit := false
			switch x := in.(type) {
			case *ssa.Store:
				hit = of(x.Addr)
			case *ssa.MapUpdate:
				hit = of(x.Map)
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					hit = of(x.Call.Args[0])
				} else if h := x.Call.StaticCallee(); h != nil && h.Signature.Recv() != nil && h.Pkg != nil && h.Pkg.Pkg.Path() != "sync" && len(x.Call.Args) > 0 && of(x.Call.Args[0]) {
					hit = w.mutates(h)
				}
			}
			if hit {
				w.mutating[g] = 1
				return true
			}
		}
	}
	return false
}
