package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- key layout and value encoding of the database -------------------------

type keyLayout struct {
	prefix string
	segs   []int // byte lengths, -1 variable
}

func (k keyLayout) String() string {
	s := fmt.Sprintf("%q", k.prefix)
	for _, n := range k.segs {
		if n < 0 {
			s += "+bytes"
		} else {
			s += fmt.Sprintf("+%d", n)
		}
	}
	return s
}

func (k keyLayout) length() (int, bool) {
	n := len(k.prefix)
	for _, s := range k.segs {
		if s < 0 {
			return n, false
		}
		n += s
	}
	return n, true
}

// overlap: can the two layouts produce the same key?
func (k keyLayout) overlap(o keyLayout) bool {
	a, fa := k.length()
	b, fb := o.length()
	if fa && fb && a != b || fa && !fb && a < b || fb && !fa && b < a {
		return false
	}
	return strings.HasPrefix(k.prefix, o.prefix) || strings.HasPrefix(o.prefix, k.prefix)
}

// globalBytes: the constant bytes a package-level []byte is initialised with, if nothing else writes it.
func (w *World) globalBytes(pkg, name string) (string, bool) {
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Name() != pkg || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		g, ok := p.Members[name].(*ssa.Global)
		if !ok {
			continue
		}
		val, n := "", 0
		seen := map[*ssa.Function]bool{}
		for _, f := range w.all {
			if f.Pkg != p {
				continue
			}
			seen[f] = true
			n += storesTo(f, g, &val)
		}
		init := p.Func("init")
		if init != nil && !seen[init] {
			n += storesTo(init, g, &val)
		}
		return val, n == 1
	}
	return "", false
}

func storesTo(f *ssa.Function, g *ssa.Global, val *string) int {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(g) {
				continue
			}
			n++
			if cv, ok := st.Val.(*ssa.Convert); ok {
				if c, ok := cv.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					*val = constant.StringVal(c.Value)
				} else {
					n += 10
				}
			} else {
				n += 10
			}
		}
	}
	return n
}

func (c *Ctx) layoutOf(t *Term) (keyLayout, bool) {
	var k keyLayout
	ok := true
	var walk func(t *Term, first bool)
	walk = func(t *Term, first bool) {
		switch {
		case t.Op == "call" && t.S == "append" && len(t.A) == 2:
			walk(t.A[0], first)
			walk(t.A[1], false)
		case t.Op == "g" && first:
			i := strings.LastIndex(t.S, ".")
			v, good := c.w.globalBytes(t.S[:i], t.S[i+1:])
			if !good {
				ok = false
			}
			k.prefix = v
		case first:
			ok = false
		case t.Op == "call" && (t.S == "encodeBlockNumber"):
			k.segs = append(k.segs, 8)
		case t.Op == "call" && t.S == "encodeUint32":
			k.segs = append(k.segs, 4)
		case t.Op == "call" && t.S == "Bytes":
			k.segs = append(k.segs, 32)
		default:
			k.segs = append(k.segs, -1)
		}
	}
	walk(t, true)
	return k, ok
}

// withHelpers visits the calls of f and of the unexported functions of its package it calls,
// handing over how the helpers' parameters are bound.
func withHelpers(f *ssa.Function, visit func(ci ssa.CallInstruction, bound func(ssa.Value) ssa.Value)) {
	var rec func(f *ssa.Function, bind map[ssa.Value]ssa.Value, seen map[*ssa.Function]bool)
	rec = func(f *ssa.Function, bind map[ssa.Value]ssa.Value, seen map[*ssa.Function]bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		defer delete(seen, f)
		bound := func(v ssa.Value) ssa.Value {
			if x, ok := bind[v]; ok {
				return x
			}
			return v
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				visit(ci, bound)
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg != f.Pkg || len(g.Blocks) == 0 || g.Object() == nil || g.Object().Exported() {
					continue
				}
				nb := map[ssa.Value]ssa.Value{}
				for i, p := range g.Params {
					if i < len(ci.Common().Args) {
						nb[p] = bound(ci.Common().Args[i])
					}
				}
				rec(g, nb, seen)
			}
		}
	}
	rec(f, nil, map[*ssa.Function]bool{})
}

// codecType: the static type handed to the named codec function in f (through an interface).
func codecType(f *ssa.Function, names map[string]bool, arg func(c *ssa.CallCommon) ssa.Value) []string {
	var r []string
	withHelpers(f, func(ci ssa.CallInstruction, bound func(ssa.Value) ssa.Value) {
		g := ci.Common().StaticCallee()
		if g == nil || !names[g.Name()] {
			return
		}
		v := bound(arg(ci.Common()))
		if mi, ok := v.(*ssa.MakeInterface); ok {
			t := mi.X.Type()
			for {
				p, ok := t.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				t = p.Elem()
			}
			r = append(r, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
		} else {
			r = append(r, "?")
		}
	})
	return r
}

func (c *Ctx) schema() {
	type use struct {
		fn    *ssa.Function
		codec string
		pos   string
	}
	writers, readers := map[string][]use{}, map[string][]use{}
	layouts := map[string]keyLayout{}
	nsites, undecided := 0, 0
	inter := map[string]bool{"Put": true, "Get": true, "Has": true, "Delete": true}
	for _, f := range c.w.all {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/core/rawdb" || f.Synthetic != "" {
			continue
		}
		if strings.HasSuffix(c.w.fset.Position(f.Pos()).Filename, "_test.go") || !c.prodUsed(f) {
			continue
		}
		s := c.analysis(nil, inter).summary(f)
		if s == nil {
			continue
		}
		for _, x := range s.sites {
			ci, ok := x.Instr.(ssa.CallInstruction)
			if !ok || x.lvl > 0 || !inter[x.Name] || !ci.Common().IsInvoke() {
				continue
			}
			if pk := ci.Common().Method.Pkg(); pk == nil {
				continue
			}
			nsites++
			c.nSites++
			at := c.w.pos(x.Pos) + " in " + objFull(f)
			var ks []*Term
			if alt := altTerms(x.Args[1]); len(alt) > 0 {
				ks = alt
			}
			// a key chosen by a helper with several results: analyse the helper's exits
			if len(ks) == 1 && ks[0].Op == "call" && ks[0].S != "append" {
				ks = c.returnTerms(ci.Common().Args[0])
			}
			if len(ks) == 0 {
				undecided++
				continue
			}
			for _, kt := range ks {
				k, ok := c.layoutOf(kt)
				if !ok {
					undecided++
					continue
				}
				id := k.String()
				layouts[id] = k
				u := use{fn: f, pos: at}
				switch x.Name {
				case "Put":
					u.codec = putCodec(f, x.Args[2])
					writers[id] = append(writers[id], u)
				case "Get":
					u.codec = getCodec(f, ci)
					readers[id] = append(readers[id], u)
				case "Has":
					u.codec = "*"
					readers[id] = append(readers[id], u)
				}
			}
		}
	}
	var ids []string
	for id := range layouts {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	c.check(nsites >= 35 && len(ids) >= 14, "schema", "core/rawdb", fmt.Sprintf("%d database accesses with %d key layouts analysed, %d keys of unknown form left out", nsites, len(ids), undecided))
	for i, a := range ids {
		for _, b := range ids[i+1:] {
			c.check(!layouts[a].overlap(layouts[b]), "disjoint", "core/rawdb keys "+a+" and "+b, "no key of one kind of data is a key of another")
		}
		if n, fixed := layouts[a].length(); fixed {
			c.check(n != 32 || layouts[a].prefix == "", "disjoint", "core/rawdb key "+a, "the key cannot be that of a state trie node (a bare 32-byte hash)")
		}
		var ws, rs []string
		for _, u := range writers[a] {
			ws = append(ws, u.codec)
		}
		for _, u := range readers[a] {
			rs = append(rs, u.codec)
		}
		for _, u := range readers[a] {
			if u.codec == "*" {
				c.check(len(ws) > 0, "codec", u.pos, "data tested for under "+a+" is also written")
				continue
			}
			c.check(contains(ws, u.codec), "codec", u.pos, fmt.Sprintf("value under %s is read as %s, as it is written (%s)", a, u.codec, strings.Join(uniq(ws), ", ")))
		}
		for _, u := range writers[a] {
			if contains(rs, "*") && len(uniq(rs)) == 1 || len(rs) == 0 {
				c.ok("codec", u.pos, "value under "+a+" is written as "+u.codec)
				continue
			}
			c.check(contains(rs, u.codec), "codec", u.pos, fmt.Sprintf("value under %s is written as %s, as it is read (%s)", a, u.codec, strings.Join(uniq(rs), ", ")))
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func uniq(l []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range l {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

func altTerms(t *Term) []*Term { return []*Term{t} }

// returnTerms: the terms a key helper can return, one per return statement.
func (c *Ctx) returnTerms(v ssa.Value) []*Term {
	cl, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	g := cl.Call.StaticCallee()
	if g == nil || !c.w.inRepo(g) {
		return nil
	}
	a := newAnalysis(c.w, nil)
	fa := a.newFunc(g)
	fa.run()
	var r []*Term
	for _, rr := range fa.rets {
		if len(rr.res) == 1 {
			fa.cur = rr.st
			if phi, ok := rr.res[0].(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					r = append(r, fa.term(e))
				}
				continue
			}
			r = append(r, fa.term(rr.res[0]))
		}
	}
	return r
}

// prodUsed: f is called from non-test code.
func (c *Ctx) prodUsed(f *ssa.Function) bool {
	for _, ci := range c.w.callers[f] {
		if !strings.HasSuffix(c.w.fset.Position(ci.Pos()).Filename, "_test.go") && ci.Parent() != f {
			return true
		}
	}
	return false
}

func putCodec(f *ssa.Function, v *Term) string {
	t := v
	if t.Op == "x" {
		t = t.A[0]
	}
	first := func(c *ssa.CallCommon) ssa.Value { return c.Args[len(c.Args)-1] }
	if t.Op == "call" {
		switch t.S {
		case "SerializeToBytes":
			return "serialize:" + strings.Join(uniq(codecType(f, map[string]bool{"SerializeToBytes": true}, first)), "|")
		case "EncodeToBytes":
			return "rlp:" + strings.Join(uniq(codecType(f, map[string]bool{"EncodeToBytes": true}, first)), "|")
		case "Marshal":
			return "json:" + strings.Join(uniq(codecType(f, map[string]bool{"Marshal": true}, first)), "|")
		case "Bytes":
			return "hash"
		case "encodeBlockNumber":
			return "uint64"
		case "encodeUint32":
			return "uint32"
		}
	}
	return "raw"
}

func getCodec(f *ssa.Function, get ssa.CallInstruction) string {
	last := func(c *ssa.CallCommon) ssa.Value { return c.Args[len(c.Args)-1] }
	has := map[string]bool{}
	withHelpers(f, func(ci ssa.CallInstruction, _ func(ssa.Value) ssa.Value) {
		if g := ci.Common().StaticCallee(); g != nil {
			has[g.Name()] = true
		}
	})
	switch {
	case has["Deserialize"] || has["DeserializeFromBytes"]:
		return "serialize:" + strings.Join(uniq(codecType(f, map[string]bool{"Deserialize": true, "DeserializeFromBytes": true}, last)), "|")
	case has["DecodeBytes"]:
		return "rlp:" + strings.Join(uniq(codecType(f, map[string]bool{"DecodeBytes": true}, last)), "|")
	case has["Unmarshal"]:
		return "json:" + strings.Join(uniq(codecType(f, map[string]bool{"Unmarshal": true}, last)), "|")
	case has["BytesToHash"]:
		return "hash"
	case has["Uint64"]:
		return "uint64"
	case has["Uint32"]:
		return "uint32"
	}
	return "raw"
}
