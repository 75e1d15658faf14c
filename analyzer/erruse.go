package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A result that accompanies an error is nil when the error is not: every dereference of such a
// result must be reached only through a test that the error is nil or the result is not.

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

type errUse struct {
	fn    *ssa.Function
	call  *ssa.Call
	use   ssa.Instruction
	what  string
	where token.Pos
}

// valueAliases: v, everything that may carry it, and loads of the variables it is stored in
// (all of them for an error; for a result only variables assigned once).
func valueAliases(v ssa.Value, anyStore bool) map[ssa.Value]bool {
	m := map[ssa.Value]bool{v: true}
	for changed := true; changed; {
		changed = false
		add := func(x ssa.Value) {
			if !m[x] {
				m[x] = true
				changed = true
			}
		}
		for a := range m {
			if a.Referrers() == nil {
				continue
			}
			for _, r := range *a.Referrers() {
				switch x := r.(type) {
				case *ssa.Phi:
					if anyStore {
						add(x)
					}
				case *ssa.ChangeType:
					add(x)
				case *ssa.MakeInterface:
					add(x)
				case *ssa.ChangeInterface:
					add(x)
				case *ssa.Store:
					if x.Val != a || x.Addr.Referrers() == nil {
						continue
					}
					stores := 0
					for _, rr := range *x.Addr.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == x.Addr {
							if k, ok := st.Val.(*ssa.Const); ok && k.IsNil() {
								continue
							}
							stores++
						}
					}
					if !anyStore {
						if _, ok := x.Addr.(*ssa.Alloc); !ok || stores != 1 {
							continue
						}
					}
					for _, rr := range *x.Addr.Referrers() {
						if u, ok := rr.(*ssa.UnOp); ok && u.Op == token.MUL && (anyStore || x.Block().Dominates(u.Block())) {
							add(u)
						}
					}
				}
			}
		}
	}
	return m
}

// testedBlocks: blocks entered only when some value of vs was tested nil (wantNil) or non-nil,
// or after a function the value was passed to answered a condition.
func testedBlocks(vs map[ssa.Value]bool, wantNil bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	var branch func(v ssa.Value, truth bool, both bool)
	branch = func(v ssa.Value, truth, both bool) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				if x.Op == token.NOT {
					branch(x, !truth, both)
				}
			case *ssa.If:
				for i, s := range x.Block().Succs {
					if (both || (i == 0) == truth) && len(s.Preds) == 1 {
						out = append(out, s)
					}
				}
			}
		}
	}
	for v := range vs {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.BinOp:
				if x.Op == token.EQL || x.Op == token.NEQ {
					k, ok := x.Y.(*ssa.Const)
					if ok && k.IsNil() {
						branch(x, (x.Op == token.EQL) == wantNil, false)
					} else {
						branch(x, true, true)
					}
				}
			case *ssa.Call:
				branch(x, true, true)
				// the helper's own error or boolean stands for the test
				if x.Referrers() == nil {
					continue
				}
				for _, rr := range *x.Referrers() {
					if b, ok := rr.(*ssa.BinOp); ok {
						branch(b, true, true)
					}
					if e, ok := rr.(*ssa.Extract); ok && e.Referrers() != nil {
						branch(e, true, true)
						for _, r3 := range *e.Referrers() {
							if b, ok := r3.(*ssa.BinOp); ok {
								branch(b, true, true)
							}
						}
					}
				}
			case *ssa.TypeAssert:
				if x.CommaOk && x.Referrers() != nil {
					for _, rr := range *x.Referrers() {
						if e, ok := rr.(*ssa.Extract); ok && e.Index == 1 {
							branch(e, true, true)
						}
					}
				}
			}
		}
	}
	return out
}

// errUses: dereferences of a pointer result of a call in fn that also returns an error, not
// preceded on every path by a test. n counts the dereferences looked at.
func (w *World) errUses(fn *ssa.Function) (bad []errUse, n int) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			tup, ok := call.Type().(*types.Tuple)
			if !ok || tup.Len() < 2 || !isErrorType(tup.At(tup.Len()-1).Type()) {
				continue
			}
			var errv ssa.Value
			var res []*ssa.Extract
			for _, r := range *call.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					if e.Index == tup.Len()-1 {
						errv = e
					} else {
						res = append(res, e)
					}
				}
			}
			var okBlocks []*ssa.BasicBlock
			if errv != nil {
				okBlocks = testedBlocks(valueAliases(errv, true), true)
			}
			for _, e := range res {
				switch e.Type().Underlying().(type) {
				case *types.Pointer, *types.Interface:
				default:
					continue
				}
				al := valueAliases(e, false)
				okB := append(append([]*ssa.BasicBlock{}, okBlocks...), testedBlocks(al, false)...)
				for v := range al {
					if v.Referrers() == nil {
						continue
					}
					for _, r := range *v.Referrers() {
						d := derefs(w, r, v)
						if d == "" {
							continue
						}
						n++
						safe := false
						for _, ob := range okB {
							if ob.Dominates(r.Block()) {
								safe = true
							}
						}
						if !safe {
							bad = append(bad, errUse{fn, call, r, d, r.Pos()})
						}
					}
				}
			}
		}
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].where < bad[j].where })
	return
}

func derefs(w *World, r ssa.Instruction, v ssa.Value) string {
	switch x := r.(type) {
	case *ssa.FieldAddr:
		if x.X == v {
			return "field"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && x.X == v {
			return "load"
		}
	case *ssa.TypeAssert:
		if x.X == v && !x.CommaOk {
			return "type assertion"
		}
	case *ssa.Call:
		if x.Call.IsInvoke() && x.Call.Value == v {
			return "method " + x.Call.Method.Name()
		}
		if f := x.Call.StaticCallee(); f != nil {
			for i, arg := range x.Call.Args {
				if arg == v && i < len(f.Params) && derefsParam(f.Params[i]) {
					if i == 0 && f.Signature.Recv() != nil {
						return "method " + f.Name()
					}
					return "argument of " + f.Name()
				}
			}
		}
	}
	return ""
}

// derefsParam: the parameter is dereferenced in the entry block
func derefsParam(p *ssa.Parameter) bool {
	if len(p.Parent().Blocks) == 0 || p.Referrers() == nil {
		return false
	}
	for _, r := range *p.Referrers() {
		if r.Block() != p.Parent().Blocks[0] {
			continue
		}
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.X == p {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && x.X == p {
				return true
			}
		case *ssa.Call:
			if x.Call.IsInvoke() && x.Call.Value == p {
				return true
			}
		}
	}
	return false
}

// errUseAll runs errUses over the node's code (not its command-line tools and test programs).
func (c *Ctx) errUseAll() {
	for _, fn := range c.w.all {
		name := objFull(fn)
		if fn.Synthetic != "" || strings.HasPrefix(name, "cmd/") || strings.HasPrefix(name, "tests/") || strings.HasPrefix(name, "tests.") || strings.Contains(name, "mock") || strings.Contains(c.w.pos(fn.Pos()), "_test.go") {
			continue
		}
		bad, n := c.w.errUses(fn)
		if n == 0 {
			continue
		}
		c.funcs[name] = true
		c.nSites += n
		for i := len(bad); i < n; i++ {
			c.ok("err-use", name, "the result is dereferenced only where its error is known to be nil")
		}
		for _, b := range bad {
			c.fail("err-use", c.w.pos(b.where)+" in "+name, b.what+" of the result of "+cmName(&b.call.Call)+" where its error may not be nil")
		}
	}
}
