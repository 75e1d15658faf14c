package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// succs: every repository function f may transfer control to or hand out as a value: static and
// interface callees, deferred and spawned calls, and functions whose value it mentions.
func (w *World) succs(f *ssa.Function) []*ssa.Function {
	if r, ok := w.succMemo[f]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] {
			seen[g] = true
			r = append(r, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.callees(c.Common()) {
					add(g)
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				switch x := (*op).(type) {
				case *ssa.Function:
					add(x)
				case *ssa.MakeClosure:
					add(x.Fn.(*ssa.Function))
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		}
	}
	if w.succMemo == nil {
		w.succMemo = map[*ssa.Function][]*ssa.Function{}
	}
	// bound-method wrappers and thunks stand for the method they call
	for i := 0; i < len(r); i++ {
		if r[i].Synthetic != "" && len(r[i].Blocks) > 0 {
			for _, b := range r[i].Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, g := range w.callees(c.Common()) {
							add(g)
						}
					}
				}
			}
		}
	}
	w.succMemo[f] = r
	return r
}

// reach: functions reachable from the roots; stop (may be nil) prunes functions not to enter.
func (w *World) reach(roots []*ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var q []*ssa.Function
	for _, r := range roots {
		if r != nil {
			if _, ok := from[r]; !ok {
				from[r] = nil
				q = append(q, r)
			}
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, g := range w.succs(f) {
			if _, ok := from[g]; ok || stop != nil && stop(g) {
				continue
			}
			from[g] = f
			q = append(q, g)
		}
	}
	return from
}

// chain: the path from a root by which reach found f.
func (w *World) chain(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var p []string
	for g := f; g != nil; g = from[g] {
		p = append(p, objFull(g))
		if len(p) > 12 {
			break
		}
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return strings.Join(p, " -> ")
}

// live: functions a running program can reach: from the commands' mains, package initialisers,
// and the exported methods of the JSON-RPC services (called by reflection).
func (w *World) live() map[*ssa.Function]bool {
	if w.liveMemo != nil {
		return w.liveMemo
	}
	var roots []*ssa.Function
	for _, f := range w.all {
		p := pkgPathOf(f)
		if strings.HasPrefix(p, "mocks") || strings.HasPrefix(p, "tests") {
			continue
		}
		switch {
		case f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Name() == "main" && f.Signature.Recv() == nil:
			roots = append(roots, f)
		case f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() &&
			(p == "internal/qkcapi" || p == "cluster/service" || p == "cluster/slave/filters" || p == "internal/debug"):
			roots = append(roots, f)
		}
	}
	w.liveMemo = map[*ssa.Function]bool{}
	for f := range w.reach(roots, nil) {
		w.liveMemo[f] = true
	}
	return w.liveMemo
}
