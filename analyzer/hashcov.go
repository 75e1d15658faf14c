package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hashCoverage: what the hash functions cover, and that a cached hash is never older than the
// object it was computed from.
func (c *Ctx) hashCoverage() {
	c.sealExclusions()
	c.hashCaches()
}

// sealExclusions: the fields left out of each header hash.
func (c *Ctx) sealExclusions() {
	want := map[string]string{
		"core/types.(*RootBlockHeader).Hash":      "",
		"core/types.(*RootBlockHeader).SealHash":  "MixDigest Nonce Signature",
		"core/types.(*MinorBlockHeader).Hash":     "",
		"core/types.(*MinorBlockHeader).SealHash": "MixDigest Nonce",
		"core/types.(*MinorBlockMeta).Hash":       "",
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := c.fn(n, "C18.exclusions")
		if f == nil {
			continue
		}
		c.funcs[n] = true
		found := 0
		var visit func(g *ssa.Function, bind map[*ssa.Parameter]ssa.Value, depth int)
		visit = func(g *ssa.Function, bind map[*ssa.Parameter]ssa.Value, depth int) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					h := ci.Common().StaticCallee()
					if h == nil || !c.w.inRepo(h) {
						continue
					}
					if h.Name() == "SerializeStructWithout" {
						found++
						keys, ok := c.mapKeys(resolveParam(ci.Common().Args[2], bind), bind, 0)
						sort.Strings(keys)
						got := strings.Join(keys, " ")
						c.check(ok && got == want[n], "C18.exclusions", c.w.pos(in.Pos())+" in "+objFull(g),
							fmt.Sprintf("%s leaves out exactly {%s} (found {%s})", n, want[n], got))
						continue
					}
					if depth < 4 && pkgPathOf(h) == "core/types" {
						nb := map[*ssa.Parameter]ssa.Value{}
						for i, p := range h.Params {
							nb[p] = resolveParam(ci.Common().Args[i], bind)
						}
						visit(h, nb, depth+1)
					}
				}
			}
		}
		visit(f, nil, 0)
		c.check(found == 1, "C18.exclusions", n, fmt.Sprintf("%s serializes the struct once (found %d)", n, found))
	}
}

func resolveParam(v ssa.Value, bind map[*ssa.Parameter]ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Parameter:
			if w, ok := bind[x]; ok && w != v {
				v = w
				continue
			}
		}
		return v
	}
}

// mapKeys: the constant keys of a map literal, a package-level map or one a function returns.
func (c *Ctx) mapKeys(v ssa.Value, bind map[*ssa.Parameter]ssa.Value, depth int) ([]string, bool) {
	if depth > 5 {
		return nil, false
	}
	collect := func(refs []ssa.Instruction, self ssa.Value) ([]string, bool) {
		var out []string
		for _, r := range refs {
			mu, ok := r.(*ssa.MapUpdate)
			if !ok || mu.Map != self {
				continue
			}
			k, ok := mu.Key.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				return nil, false
			}
			out = append(out, constant.StringVal(k.Value))
		}
		return out, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil, x.IsNil()
	case *ssa.MakeMap:
		return collect(*x.Referrers(), x)
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		if !ok || x.Op != token.MUL {
			return nil, false
		}
		// written once, by the package initialiser
		var val ssa.Value
		for _, f := range c.w.all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						if val != nil {
							return nil, false
						}
						val = st.Val
					}
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == g {
							return nil, false
						}
					}
				}
			}
		}
		if ini := g.Pkg.Func("init"); val == nil && ini != nil {
			for _, b := range ini.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == g {
						val = st.Val
					}
				}
			}
		}
		if val == nil {
			return nil, false
		}
		return c.mapKeys(val, nil, depth+1)
	case *ssa.Call:
		h := x.Call.StaticCallee()
		if h == nil {
			return nil, false
		}
		var out []string
		n := 0
		for _, b := range h.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				ks, ok := c.mapKeys(r.Results[0], nil, depth+1)
				if !ok {
					return nil, false
				}
				out, n = ks, n+1
			}
		}
		return out, n == 1
	}
	return nil, false
}

// ---- cached hashes

type hashCache struct {
	typ     *types.Named // MinorBlock
	field   string       // hash
	covered map[string]bool
	data    map[string]bool // named struct types reached through a covered pointer field
	dirty   string          // boolean field that marks the cache stale ("updated")
}

func isAtomicValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic"
}

// hashCacheTypes: struct types of the repository with a Hash method that returns a value kept in
// an atomic.Value of the receiver.
func (c *Ctx) hashCacheTypes() map[*types.Named]*hashCache {
	out := map[*types.Named]*hashCache{}
	for _, f := range c.w.all {
		if f.Name() != "Hash" || len(f.Params) != 1 || f.Signature.Recv() == nil || f.Blocks == nil {
			continue
		}
		pt, ok := f.Params[0].Type().(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := pt.Elem().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		hc := &hashCache{typ: n, covered: map[string]bool{}, data: map[string]bool{}}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.X != f.Params[0] {
					continue
				}
				fld := st.Field(fa.Field)
				if isAtomicValue(fld.Type()) {
					hc.field = fld.Name()
				} else if fld.Type() == types.Typ[types.Bool] {
					hc.dirty = fld.Name()
				}
			}
		}
		if hc.field == "" {
			continue
		}
		// everything else but caches is what the hash is computed from; a field that the encoding
		// does not contain is not covered, and the content fields enter through their roots
		for i := 0; i < st.NumFields(); i++ {
			fld := st.Field(i)
			switch fld.Name() {
			case "header", "data", "TxType", "EvmTx":
				hc.covered[fld.Name()] = true
				t := fld.Type()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				if dn, ok := t.(*types.Named); ok {
					if _, isS := dn.Underlying().(*types.Struct); isS {
						hc.data[dn.Obj().Name()] = true
					}
				}
			}
		}
		out[n] = hc
	}
	return out
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

type objOrigin struct {
	kind string // fresh, param, cached, shared
	idx  int
	own  ssa.Value // the caching object
	fld  string
}

// originOf: where the object an address points into comes from. The path ends at a covered field
// of a caching object, at a parameter, at an allocation, or at something shared.
func (c *Ctx) originOf(v ssa.Value, caches map[*types.Named]*hashCache, seen map[ssa.Value]bool) []objOrigin {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		// a variable holding a pointer: what is stored into it
		if _, isPtr := x.Type().(*types.Pointer).Elem().Underlying().(*types.Pointer); isPtr || types.IsInterface(x.Type().(*types.Pointer).Elem()) {
			var out []objOrigin
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					out = append(out, c.originOf(st.Val, caches, seen)...)
				}
			}
			return out
		}
		return []objOrigin{{kind: "fresh", own: x}}
	case *ssa.FieldAddr:
		n := namedOf(x.X.Type())
		if n != nil && caches[n] != nil {
			fld := n.Underlying().(*types.Struct).Field(x.Field).Name()
			if !caches[n].covered[fld] {
				return nil
			}
			base := c.originOf(x.X, caches, seen)
			var out []objOrigin
			for _, o := range base {
				if o.kind == "fresh" {
					out = append(out, o)
				} else {
					out = append(out, objOrigin{kind: "cached", own: x.X, fld: fld, idx: o.idx})
				}
			}
			return out
		}
		return c.originOf(x.X, caches, seen)
	case *ssa.IndexAddr:
		return c.originOf(x.X, caches, seen)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return []objOrigin{{kind: "shared"}}
		}
		return c.originOf(x.X, caches, seen)
	case *ssa.Phi:
		var out []objOrigin
		for _, e := range x.Edges {
			out = append(out, c.originOf(e, caches, seen)...)
		}
		return out
	case *ssa.ChangeType:
		return c.originOf(x.X, caches, seen)
	case *ssa.ChangeInterface:
		return c.originOf(x.X, caches, seen)
	case *ssa.MakeInterface:
		return c.originOf(x.X, caches, seen)
	case *ssa.TypeAssert:
		return c.originOf(x.X, caches, seen)
	case *ssa.Slice:
		return c.originOf(x.X, caches, seen)
	case *ssa.Const:
		return nil
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return []objOrigin{{kind: "param", idx: i, own: x}}
			}
		}
	case *ssa.Extract:
		return c.originOf(x.Tuple, caches, seen)
	case *ssa.Call:
		var out []objOrigin
		for _, h := range c.w.callees(&x.Call) {
			if h == nil || h.Blocks == nil || !c.w.inRepo(h) {
				continue
			}
			for _, b := range h.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for _, res := range r.Results {
					if _, ok := res.Type().Underlying().(*types.Pointer); !ok && !types.IsInterface(res.Type()) {
						continue
					}
					if len(seen) > 400 {
						return []objOrigin{{kind: "shared"}}
					}
					for _, o := range c.originOf(res, caches, seen) {
						if o.kind == "param" || o.kind == "cached" {
							// what was passed in
							args := x.Call.Args
							if x.Call.IsInvoke() {
								args = append([]ssa.Value{x.Call.Value}, args...)
							}
							if o.kind == "cached" {
								out = append(out, objOrigin{kind: "cached", own: nil, fld: o.fld})
								continue
							}
							if o.idx < len(args) {
								out = append(out, c.originOf(args[o.idx], caches, seen)...)
							}
							continue
						}
						out = append(out, o)
					}
				}
			}
		}
		return out
	}
	return []objOrigin{{kind: "shared"}}
}

// hashCaches: every write to what a cached hash covers happens on an object that is still being
// built, or is followed on every path by storing a new hash or marking the old one stale.
func (c *Ctx) hashCaches() {
	const rule = "C18.cache"
	caches := c.hashCacheTypes()
	c.check(len(caches) >= 4, rule, "core/types", fmt.Sprintf("types with a cached hash found (%d)", len(caches)))
	data := map[string]bool{}
	for _, hc := range caches {
		for d := range hc.data {
			data[d] = true
		}
		data[hc.typ.Obj().Name()] = true
	}
	// writes, propagated through parameters to the callers
	type mut struct {
		in  ssa.Instruction
		adr ssa.Value
		why string
	}
	muts := map[*ssa.Function][]mut{}
	for _, f := range c.w.all {
		if strings.HasSuffix(c.w.fset.Position(f.Pos()).Filename, "_test.go") || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var adr ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					adr = x.Addr
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
						if sl, ok := x.Call.Args[0].(*ssa.Slice); ok {
							adr = sl.X
							if u, ok := adr.(*ssa.UnOp); ok {
								adr = u.X
							}
						}
					}
				}
				if adr == nil {
					continue
				}
				n, fld := writtenStruct(adr)
				if n == nil || !data[n.Obj().Name()] || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
					continue
				}
				if hc := caches[n]; hc != nil && !hc.covered[fld] {
					continue
				}
				if n.Obj().Name() == "EvmTransaction" && caches[n] == nil {
					continue
				}
				muts[f] = append(muts[f], mut{in, adr, "writes " + n.Obj().Name() + "." + fld})
			}
		}
	}
	type key struct {
		f   *ssa.Function
		idx int
	}
	done := map[key]bool{}
	n := 0
	var work []*ssa.Function
	for f := range muts {
		work = append(work, f)
	}
	sort.Slice(work, func(i, j int) bool { return objFull(work[i]) < objFull(work[j]) })
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		ms := muts[f]
		muts[f] = nil
		for _, m := range ms {
			where := c.w.pos(m.in.Pos()) + " in " + objFull(f)
			for _, o := range c.originOf(m.adr, caches, map[ssa.Value]bool{}) {
				n++
				c.nSites++
				switch o.kind {
				case "fresh":
					c.ok(rule, where, m.why+" of an object under construction")
				case "param":
					pn := namedOf(f.Params[o.idx].Type())
					if pn != nil && caches[pn] != nil {
						if nm := f.Name(); nm == "Deserialize" || nm == "DecodeRLP" || nm == "UnmarshalJSON" {
							c.ok(rule, where, m.why+" of an object being decoded into")
							continue
						}
						c.check(refreshed(m.in, f.Params[o.idx], caches[pn]), rule, where, m.why+" and renews or invalidates the cached hash of "+pn.Obj().Name())
						continue
					}
					k := key{f, o.idx}
					if done[k] {
						continue
					}
					done[k] = true
					for _, cs := range c.w.callers[f] {
						args := cs.Common().Args
						if cs.Common().IsInvoke() {
							args = append([]ssa.Value{cs.Common().Value}, args...)
						}
						g := cs.Parent()
						if o.idx >= len(args) || strings.HasSuffix(c.w.fset.Position(g.Pos()).Filename, "_test.go") {
							continue
						}
						muts[g] = append(muts[g], mut{cs, args[o.idx], m.why + " through " + objFull(f)})
						work = append(work, g)
					}
				case "cached":
					if _, isP := o.own.(*ssa.Parameter); isP {
						if nm := f.Name(); nm == "Deserialize" || nm == "DecodeRLP" || nm == "UnmarshalJSON" {
							c.ok(rule, where, m.why+" of an object being decoded into")
							continue
						}
					}
					var hc *hashCache
					if o.own != nil {
						hc = caches[namedOf(o.own.Type())]
					}
					c.check(hc != nil && refreshed(m.in, o.own, hc), rule, where, m.why+" and renews or invalidates the cached hash of its owner")
				default:
					c.fail(rule, where, m.why+" of an object that others may hold (its hash may be cached)")
				}
			}
		}
	}
	// the caches themselves: filled only with the hash of their own object, never copied along
	for _, f := range c.w.all {
		if strings.HasSuffix(c.w.fset.Position(f.Pos()).Filename, "_test.go") || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				where := c.w.pos(in.Pos()) + " in " + objFull(f)
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if hc := caches[namedOf(fa.X.Type())]; hc != nil && fieldNameOf(fa) == hc.field {
							c.fail(rule, where, "the cached hash of "+hc.typ.Obj().Name()+" is copied from another object")
						}
					}
					if hc := caches[namedOf(x.Val.Type())]; hc != nil {
						if _, isPtr := x.Val.Type().Underlying().(*types.Pointer); isPtr {
							continue
						}
						if u, ok := x.Val.(*ssa.UnOp); ok {
							if a, ok := u.X.(*ssa.Alloc); !ok || !neverStored(a, hc) {
								c.fail(rule, where, "copying a "+hc.typ.Obj().Name()+" copies its cached hash")
							}
						}
					}
				case *ssa.Call:
					h := x.Call.StaticCallee()
					if h == nil || h.Name() != "Store" || len(x.Call.Args) != 2 {
						continue
					}
					fa, ok := x.Call.Args[0].(*ssa.FieldAddr)
					if !ok {
						continue
					}
					hc := caches[namedOf(fa.X.Type())]
					if hc == nil || fieldNameOf(fa) != hc.field {
						continue
					}
					v := x.Call.Args[1]
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					ok = false
					switch y := v.(type) {
					case *ssa.Call:
						if g := y.Call.StaticCallee(); g != nil && len(y.Call.Args) > 0 {
							for _, a := range y.Call.Args {
								if derivesFrom(a, fa.X) {
									ok = true
								}
							}
						}
					case *ssa.UnOp:
						// a digest computed in the Hash method of the type itself
						ok = f.Name() == "Hash" && namedOf(f.Params[0].Type()) == hc.typ
					}
					c.check(ok, rule, where, "the cached hash of "+hc.typ.Obj().Name()+" is computed from that object")
				}
			}
		}
	}
	c.check(n >= 30, rule, "core/types", fmt.Sprintf("writes examined (%d)", n))
}

// writtenStruct: the innermost named struct whose field a store changes.
func writtenStruct(a ssa.Value) (*types.Named, string) {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			n := namedOf(x.X.Type())
			if n == nil {
				return nil, ""
			}
			return n, n.Underlying().(*types.Struct).Field(x.Field).Name()
		case *ssa.IndexAddr:
			a = x.X
			if _, ok := a.Type().Underlying().(*types.Slice); ok {
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					a = u.X
				}
			}
			continue
		}
		return nil, ""
	}
}

// refreshed: on every path from the write to a return, the object's cache is stored to or its
// stale mark set.
func refreshed(at ssa.Instruction, own ssa.Value, hc *hashCache) bool {
	is := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Call:
			h := x.Call.StaticCallee()
			if h != nil && h.Name() == "Store" && len(x.Call.Args) == 2 {
				fa, ok := x.Call.Args[0].(*ssa.FieldAddr)
				return ok && sameObj(fa.X, own) && fieldNameOf(fa) == hc.field
			}
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if ok && hc.dirty != "" && sameObj(fa.X, own) && fieldNameOf(fa) == hc.dirty {
				k, ok := x.Val.(*ssa.Const)
				return ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value)
			}
		}
		return false
	}
	// the stale mark may also precede the write
	b := at.Block()
	pos := 0
	for i, in := range b.Instrs {
		if in == at {
			pos = i
		}
	}
	for _, in := range b.Instrs[:pos] {
		if _, isStore := in.(*ssa.Store); isStore && is(in) {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if is(in) {
				return true
			}
			switch in.(type) {
			case *ssa.Return:
				return false
			case *ssa.Panic:
				return true
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	return walk(b, pos+1)
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

func sameObj(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL {
		fa, ok1 := ua.X.(*ssa.FieldAddr)
		fb, ok2 := ub.X.(*ssa.FieldAddr)
		if ok1 && ok2 {
			return fa.Field == fb.Field && sameObj(fa.X, fb.X)
		}
		return ua.X == ub.X
	}
	return false
}

// neverStored: the local object's cache field is not touched in its function.
func neverStored(a *ssa.Alloc, hc *hashCache) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if fieldNameOf(x) == hc.field {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr == a {
				if _, isLoad := x.Val.(*ssa.UnOp); isLoad {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// derivesFrom: v is obj, or loaded from a field of it.
func derivesFrom(v, obj ssa.Value) bool {
	for i := 0; i < 8; i++ {
		if sameObj(v, obj) {
			return true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return false
		}
	}
	return false
}
