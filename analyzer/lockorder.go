package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A lock a function may take, named by a path from one of its parameters (p0.mu, p1.chain.mu),
// a free variable (fv_x.mu) or a package variable.
type lockPath struct {
	key   string // "p0.peers.lock"
	id    string // the mutex by type: cluster/master.peerSet.lock
	mode  byte
	via   string
	chain string
}

type orderAn struct {
	w   *World
	acq map[*ssa.Function]map[string]lockPath
	ids map[*ssa.Function]map[string]string // mutex id -> where, transitively
}

// valPath: the access path of a value, from a parameter, free variable or package variable
func valPath(v ssa.Value, d int) string {
	if d > 6 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("p%d", i)
			}
		}
	case *ssa.FreeVar:
		return "fv_" + x.Name()
	case *ssa.Global:
		return "g:" + x.Pkg.Pkg.Path() + "." + x.Name()
	case *ssa.FieldAddr:
		b := valPath(x.X, d+1)
		if b == "" {
			return ""
		}
		st, ok := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		return b + "." + st.Field(x.Field).Name()
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			// a parameter captured by a closure is kept in a cell
			var st *ssa.Store
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if st != nil {
						return ""
					}
					st = s
				}
			}
			if st != nil {
				return valPath(st.Val, d+1)
			}
			return ""
		}
		return valPath(x.X, d+1)
	case *ssa.Alloc:
		var st *ssa.Store
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				if st != nil {
					return "a:" + x.Parent().String() + "/" + x.Name()
				}
				st = s
			}
		}
		if st != nil {
			if p := valPath(st.Val, d+1); p != "" {
				return p
			}
		}
		return "a:" + x.Parent().String() + "/" + x.Name()
	case *ssa.ChangeType:
		return valPath(x.X, d+1)
	case *ssa.ChangeInterface:
		return valPath(x.X, d+1)
	case *ssa.MakeInterface:
		return valPath(x.X, d+1)
	case *ssa.Field:
		b := valPath(x.X, d+1)
		if b == "" {
			return ""
		}
		st, ok := x.X.Type().Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		return b + "." + st.Field(x.Field).Name()
	}
	return ""
}

// lockCall: path, id and operation of a call that is a mutex operation
func lockCall(c *ssa.CallCommon) (path, id, op string) {
	id, op = mutexOp(c)
	if op == "" {
		return
	}
	if c.IsInvoke() {
		return valPath(c.Value, 0), id, op
	}
	return valPath(c.Args[0], 0), id, op
}

// bind: the callee-side path roots of a call, as caller-side paths
func callBind(c *ssa.CallCommon, g *ssa.Function) map[string]string {
	m := map[string]string{}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	for i, a := range args {
		if p := valPath(a, 0); p != "" {
			m[fmt.Sprintf("p%d", i)] = p
		}
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			if i < len(g.FreeVars) {
				if p := valPath(b, 0); p != "" {
					m["fv_"+g.FreeVars[i].Name()] = p
				}
			}
		}
	}
	return m
}

func rebase(key string, m map[string]string) string {
	if strings.HasPrefix(key, "g:") {
		return key
	}
	i := strings.IndexByte(key, '.')
	root, rest := key, ""
	if i >= 0 {
		root, rest = key[:i], key[i:]
	}
	if r, ok := m[root]; ok {
		return r + rest
	}
	return ""
}

func (o *orderAn) callees(c *ssa.CallCommon) []*ssa.Function {
	if mc, ok := c.Value.(*ssa.MakeClosure); ok && !c.IsInvoke() {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}
	}
	return o.w.callees(c)
}

func (w *World) lockOrder() *orderAn {
	o := &orderAn{w: w, acq: map[*ssa.Function]map[string]lockPath{}, ids: map[*ssa.Function]map[string]string{}}
	callers := map[*ssa.Function][]*ssa.Function{}
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range w.all {
		if !w.inRepo(f) {
			continue
		}
		o.acq[f] = map[string]lockPath{}
		o.ids[f] = map[string]string{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := in.(*ssa.Go); ok {
					continue
				}
				p, id, op := lockCall(ci.Common())
				if op == "Lock" || op == "RLock" {
					mode := byte(1)
					if op == "Lock" {
						mode = 2
					}
					if p != "" && !strings.HasPrefix(p, "a:") && o.acq[f][p].mode < mode {
						o.acq[f][p] = lockPath{p, id, mode, w.pos(in.Pos()), ""}
					}
					if id != "" {
						o.ids[f][id] = w.pos(in.Pos())
					}
					continue
				}
				if op != "" {
					continue
				}
				calls[f] = append(calls[f], ci)
				for _, g := range o.callees(ci.Common()) {
					callers[g] = append(callers[g], f)
				}
			}
		}
	}
	work := append([]*ssa.Function{}, w.all...)
	in := map[*ssa.Function]bool{}
	for _, f := range work {
		in[f] = true
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		in[f] = false
		changed := false
		for _, ci := range calls[f] {
			for _, g := range o.callees(ci.Common()) {
				m := callBind(ci.Common(), g)
				for _, a := range o.acq[g] {
					k := rebase(a.key, m)
					if k == "" || strings.HasPrefix(k, "a:") || strings.Count(k, ".") > 5 {
						continue
					}
					if o.acq[f][k].mode < a.mode {
						o.acq[f][k] = lockPath{k, a.id, a.mode, a.via, objFull(g) + " > " + a.chain}
						changed = true
					}
				}
				for id, where := range o.ids[g] {
					if _, ok := o.ids[f][id]; !ok {
						o.ids[f][id] = where
						changed = true
					}
				}
			}
		}
		if changed {
			for _, c := range callers[f] {
				if !in[c] {
					in[c] = true
					work = append(work, c)
				}
			}
		}
	}
	return o
}

// heldPaths: at every call of f, the locks f itself has taken and not released on every path, by path
func (o *orderAn) heldPaths(f *ssa.Function, visit func(ci ssa.CallInstruction, held map[string]lockPath)) {
	type hs map[string]lockPath
	if len(f.Blocks) == 0 {
		return
	}
	ins := map[*ssa.BasicBlock]hs{f.Blocks[0]: {}}
	step := func(b *ssa.BasicBlock, h hs, v bool) hs {
		h2 := hs{}
		for k, x := range h {
			h2[k] = x
		}
		h = h2
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := in.(*ssa.Go); ok {
				continue
			}
			p, id, op := lockCall(ci.Common())
			if v {
				visit(ci, h)
			}
			if _, ok := in.(*ssa.Defer); ok || p == "" {
				continue
			}
			switch op {
			case "Lock":
				h[p] = lockPath{p, id, 2, o.w.pos(in.Pos()), ""}
			case "RLock":
				h[p] = lockPath{p, id, 1, o.w.pos(in.Pos()), ""}
			case "Unlock", "RUnlock":
				delete(h, p)
			}
		}
		return h
	}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		out := step(b, ins[b], false)
		for _, s := range b.Succs {
			old, ok := ins[s]
			if !ok {
				ins[s] = out
				work = append(work, s)
				continue
			}
			m := hs{}
			for k, x := range old {
				if y, ok := out[k]; ok {
					if y.mode < x.mode {
						x.mode = y.mode
					}
					m[k] = x
				}
			}
			if len(m) != len(old) {
				ins[s] = m
				work = append(work, s)
			}
		}
	}
	for _, b := range f.Blocks {
		if h, ok := ins[b]; ok {
			step(b, h, true)
		}
	}
}

func (c *Ctx) deadlocks() {
	w := c.w
	o := w.lockOrder()
	edges := map[string]map[string]string{}
	for _, f := range w.all {
		if !w.inRepo(f) || excludedPkg(f) {
			continue
		}
		o.heldPaths(f, func(ci ssa.CallInstruction, held map[string]lockPath) {
			if len(held) == 0 {
				return
			}
			cc := ci.Common()
			p, id, op := lockCall(cc)
			_, deferred := ci.(*ssa.Defer)
			if op == "Lock" || op == "RLock" {
				if h, ok := held[p]; ok && p != "" {
					c.fail("a mutex is not locked again by the function that holds it", fmt.Sprintf("%s (%s)", objFull(f), w.pos(ci.Pos())), fmt.Sprintf("%s is already held (taken at %s) when it is locked again", id, h.via))
				}
				for _, h := range held {
					addEdge(edges, h.id, id, w.pos(ci.Pos())+" in "+objFull(f))
				}
				return
			}
			if op != "" || deferred {
				return
			}
			for _, g := range o.callees(cc) {
				m := callBind(cc, g)
				bad := ""
				var keys []string
				for k := range o.acq[g] {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					a := o.acq[g][k]
					if h, ok := held[rebase(a.key, m)]; ok {
						bad = fmt.Sprintf("%s is held (taken at %s) and %s locks it again at %s (via %s)", h.id, h.via, objFull(g), a.via, a.chain)
						break
					}
				}
				if len(keys) > 0 || bad != "" {
					c.funcs[objFull(f)] = true
					c.nSites++
					c.check(bad == "", "no function called with a mutex held locks the same mutex of the same object", fmt.Sprintf("%s (%s)", objFull(f), w.pos(ci.Pos())), orStr(bad, "call of "+objFull(g)))
				}
				for b, where := range o.ids[g] {
					for _, h := range held {
						if h.id != b {
							addEdge(edges, h.id, b, w.pos(ci.Pos())+" in "+objFull(f)+" (taken at "+where+")")
						}
					}
				}
			}
		})
	}
	for _, f := range w.all {
		if w.inRepo(f) && !excludedPkg(f) {
			c.lockLeaks(f)
		}
	}
	// cycles
	reach := func(a, b string) bool {
		seen := map[string]bool{}
		st := []string{a}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == b {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			for y := range edges[x] {
				st = append(st, y)
			}
		}
		return false
	}
	var as []string
	for a := range edges {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		var bs []string
		for b := range edges[a] {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			c.check(!reach(b, a), "two mutexes are always taken in the same order", edges[a][b], fmt.Sprintf("%s is taken while %s is held", b, a))
		}
	}
}

func addEdge(e map[string]map[string]string, a, b, where string) {
	if a == "" || b == "" || a == b {
		return
	}
	if e[a] == nil {
		e[a] = map[string]string{}
	}
	if o, ok := e[a][b]; !ok || where < o {
		e[a][b] = where
	}
}

func orStr(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// excludedPkg: command line tools, tests and mocks
func excludedPkg(f *ssa.Function) bool {
	name := objFull(f)
	return strings.HasPrefix(name, "cmd/") || strings.HasPrefix(name, "tests/") || strings.HasPrefix(name, "tests.") || strings.Contains(name, "mock")
}

// lockLeaks: on no path may a function return with a mutex it has taken and will not release,
// unless it does so on every path (a function that locks for its caller).
func (c *Ctx) lockLeaks(f *ssa.Function) {
	type st struct {
		may, must, def map[string]bool
	}
	cp := func(m map[string]bool) map[string]bool {
		r := map[string]bool{}
		for k := range m {
			r[k] = true
		}
		return r
	}
	taken := map[string]string{}
	deferred := func(d *ssa.Defer) []string {
		if p, id, op := lockCall(d.Common()); op == "Unlock" || op == "RUnlock" {
			return []string{lockKey(p, id)}
		}
		var out []string
		if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
			g := mc.Fn.(*ssa.Function)
			m := callBind(d.Common(), g)
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Call); ok {
						if p, id, op := lockCall(x.Common()); op == "Unlock" || op == "RUnlock" {
							out = append(out, lockKey(rebase(p, m), id))
						}
					}
				}
			}
		}
		return out
	}
	n := 0
	step := func(b *ssa.BasicBlock, s st, ret func(*ssa.Return, st)) st {
		s = st{cp(s.may), cp(s.must), cp(s.def)}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				p, id, op := lockCall(x.Common())
				k := lockKey(p, id)
				switch op {
				case "Lock", "RLock":
					n++
					if !s.def[k] {
						s.may[k], s.must[k] = true, true
					}
					taken[k] = c.w.pos(x.Pos())
				case "Unlock", "RUnlock":
					delete(s.may, k)
					delete(s.must, k)
				}
			case *ssa.Defer:
				for _, k := range deferred(x) {
					s.def[k] = true
					delete(s.may, k)
					delete(s.must, k)
				}
			case *ssa.Return:
				if ret != nil {
					ret(x, s)
				}
			}
		}
		return s
	}
	if len(f.Blocks) == 0 {
		return
	}
	ins := map[*ssa.BasicBlock]st{f.Blocks[0]: {map[string]bool{}, map[string]bool{}, map[string]bool{}}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		out := step(b, ins[b], nil)
		for _, sc := range b.Succs {
			o, ok := ins[sc]
			if !ok {
				ins[sc] = out
				work = append(work, sc)
				continue
			}
			m := st{cp(o.may), map[string]bool{}, map[string]bool{}}
			for k := range out.may {
				m.may[k] = true
			}
			for k := range o.must {
				if out.must[k] {
					m.must[k] = true
				}
			}
			for k := range o.def {
				m.def[k] = true
			}
			for k := range out.def {
				m.def[k] = true
			}
			if len(m.may) != len(o.may) || len(m.must) != len(o.must) || len(m.def) != len(o.def) {
				ins[sc] = m
				work = append(work, sc)
			}
		}
	}
	if n == 0 {
		return
	}
	always := map[string]int{}
	rets := 0
	type leak struct {
		r *ssa.Return
		k string
	}
	var leaks []leak
	for _, b := range f.Blocks {
		s, ok := ins[b]
		if !ok {
			continue
		}
		step(b, s, func(r *ssa.Return, s st) {
			rets++
			for k := range s.may {
				if s.def[k] {
					continue
				}
				if s.must[k] {
					always[k]++
				}
				leaks = append(leaks, leak{r, k})
			}
		})
	}
	for _, l := range leaks {
		if always[l.k] == rets {
			continue // locks for its caller
		}
		c.fail("every path out of a function releases the mutexes it has taken", fmt.Sprintf("%s (%s)", objFull(f), c.w.pos(l.r.Pos())), fmt.Sprintf("%s, taken at %s, may still be held on return", l.k, taken[l.k]))
	}
	var ks []string
	for k := range taken {
		if always[k] == rets && rets > 0 {
			continue
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c.ok("every path out of a function releases the mutexes it has taken", objFull(f), k)
	}
	for k := range always {
		if always[k] == rets {
			c.check(c.releasedByCaller(f), "every path out of a function releases the mutexes it has taken", objFull(f), k+" is released by every caller of this function")
		}
	}
}

func lockKey(p, id string) string {
	if p != "" {
		return p
	}
	return id
}

// releasedByCaller: the callers of a function that locks for them unlock
func (c *Ctx) releasedByCaller(f *ssa.Function) bool {
	found := false
	for _, g := range c.w.all {
		calls, unlocks := false, false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if ci.Common().StaticCallee() == f {
					calls = true
				}
				if _, op := mutexOp(ci.Common()); op == "Unlock" || op == "RUnlock" {
					unlocks = true
				}
			}
		}
		if calls && !unlocks {
			return false
		}
		found = found || calls
	}
	return found
}
