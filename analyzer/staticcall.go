package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// staticCall: every instruction that changes state is flagged as writing, and every
// precompiled contract that changes state does so only in a frame not marked static.
func (c *Ctx) staticCall() {
	sub := &Ctx{w: c.w, prop: c.prop, tier: c.tier, funcs: c.funcs, analyses: c.analyses}
	sub.evmTable()
	for _, o := range sub.obs {
		if o.Rule == "writes" {
			c.obs = append(c.obs, o)
		}
	}
	for _, v := range sub.viols {
		if v.Rule == "writes" {
			c.viols = append(c.viols, v)
		}
	}
	var names []string
	for n := range c.w.funcs {
		if strings.HasPrefix(n, "core/vm.(") && strings.HasSuffix(n, ").Run") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	n := 0
	for _, name := range names {
		fn := c.w.funcs[name]
		if fn.Signature.Params().Len() != 3 || !ptrTo(fn.Signature.Params().At(1).Type(), "EVM") || !ptrTo(fn.Signature.Params().At(2).Type(), "Contract") {
			continue
		}
		n++
		c.funcs[name] = true
		inter := map[string]bool{"Call": true, "CallCode": true, "DelegateCall": true, "Create": true, "Create2": true, "create": true, "Transfer": true}
		for m := range stateMutators {
			inter[m] = true
		}
		a := c.analysis(nil, inter)
		s := a.summary(fn)
		if s == nil {
			c.fail("precompile", name, "cannot analyse")
			continue
		}
		seen := map[ssa.Instruction]bool{}
		k := 0
		for _, x := range s.sites {
			if !inter[x.Name] || x.lvl > 0 && x.Fn != fn && !strings.HasPrefix(objFull(x.Fn), "core/vm.") || seen[x.Instr] {
				continue
			}
			if x.lvl > 0 && !helperOf(x.Fn, fn) {
				continue
			}
			seen[x.Instr] = true
			k++
			ok := false
			for _, f := range x.Facts {
				if parsePat(c.w, fn, "p2.IsStaticCall == false").find([]*Fact{f}, env{}, func(env, []*Fact) bool { return true }) {
					ok = true
				}
			}
			c.check(ok, "precompile", c.w.pos(x.Pos)+" via "+name, name+" reaches the state change "+x.Name+" only in a frame not marked static")
		}
		if k == 0 {
			m := mutatesState(fn, map[*ssa.Function]bool{})
			c.check(m == "", "precompile", name, "the precompiled contract changes no state")
		}
	}
	// frames of calls nested in a static call
	marked := true
	for _, name := range []string{"core/vm.(*EVM).Call", "core/vm.(*EVM).CallCode", "core/vm.(*EVM).DelegateCall"} {
		fn := c.fn(name, "nested")
		if fn == nil {
			return
		}
		s := c.analysis(nil, map[string]bool{"run": true}).summary(fn)
		if s == nil {
			marked = false
			continue
		}
		for _, x := range s.sites {
			if x.Name == "run" && !parsePat(c.w, fn, "called(SetIsStaticCall(__))").find(x.Facts.list(), env{}, func(env, []*Fact) bool { return true }) {
				marked = false
			}
		}
	}
	c.check(marked, "nested", "core/vm/evm.go", "frames of calls made inside a static call are marked static for precompiled contracts")
	if n < 13 {
		c.fail("precompile", "core/vm", "fewer precompiled contracts than expected")
	}
}

// helperOf: f is a function of the same package other than an EVM entry point.
func helperOf(f, root *ssa.Function) bool {
	if f == root {
		return true
	}
	if f.Pkg != root.Pkg {
		return false
	}
	if r := f.Signature.Recv(); r != nil && ptrTo(r.Type(), "EVM") {
		return false
	}
	return true
}
