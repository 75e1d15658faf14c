package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- wire shapes: what the serialize package writes for a type, field names left out

func (w *World) shape(t types.Type) string { return w.shapeT(t, 1, false, map[string]bool{}) }

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (w *World) shapeT(t types.Type, sz int, opt bool, busy map[string]bool) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s := w.shapeT(p.Elem(), sz, false, busy)
		if opt {
			return "optional(" + s + ")"
		}
		return s
	}
	if n, ok := t.(*types.Named); ok {
		name := n.Obj().Name()
		if n.Obj().Pkg() != nil {
			name = relPkg(n.Obj().Pkg().Path()) + "." + name
		}
		if name == "math/big.Int" {
			return "bigint"
		}
		if hasMethod(t, "Serialize") && hasMethod(t, "Deserialize") {
			return "custom(" + name + ")"
		}
		if busy[name] {
			return "rec(" + name + ")"
		}
		busy[name] = true
		defer delete(busy, name)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "string4"
		}
		return u.Name()
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return fmt.Sprintf("bytes/%d", sz)
		}
		return fmt.Sprintf("list/%d(%s)", sz, w.shapeT(u.Elem(), 1, false, busy))
	case *types.Array:
		return fmt.Sprintf("%dx(%s)", u.Len(), w.shapeT(u.Elem(), 1, false, busy))
	case *types.Struct:
		var parts []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			tag := reflect.StructTag(u.Tag(i))
			o := false
			skip := false
			for _, x := range strings.Split(tag.Get("ser"), ",") {
				switch strings.TrimSpace(x) {
				case "-":
					skip = true
				case "nil":
					o = true
				}
			}
			if skip {
				continue
			}
			n := 1
			if _, ok := f.Type().Underlying().(*types.Slice); ok {
				if s := strings.TrimSpace(tag.Get("bytesizeofslicelen")); s != "" {
					fmt.Sscanf(s, "%d", &n)
				}
			}
			parts = append(parts, w.shapeT(f.Type(), n, o, busy))
		}
		return strings.Join(parts, " ") // a struct is its fields one after another, without framing
	}
	return "?" + t.String()
}

// ---- tracing of encoded bytes and operation codes through calls

type tctx struct {
	call ssa.CallInstruction
	up   *tctx
	n    int
}

type origin struct {
	kind string // "type" "const" "param" "rpcres" "reqdata" "nil" "?"
	typ  types.Type
	i    int64
	call ssa.CallInstruction
	ctx  *tctx
	fn   *ssa.Function
}

type tracer struct {
	w    *World
	busy map[ssa.Value]bool
}

func (t *tracer) bytes(v ssa.Value, cx *tctx, want string) []origin {
	return t.trace(v, cx, 0)
}

// trace: where does a value come from.
func (t *tracer) trace(v ssa.Value, cx *tctx, d int) []origin {
	unk := []origin{{kind: "?"}}
	if d > 25 || t.busy[v] {
		return nil
	}
	t.busy[v] = true
	defer delete(t.busy, v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return []origin{{kind: "nil"}}
		}
		if x.Value.Kind() == constant.Int {
			if i, ok := constant.Int64Val(x.Value); ok {
				return []origin{{kind: "const", i: i}}
			}
		}
		return unk
	case *ssa.Convert:
		return t.trace(x.X, cx, d+1)
	case *ssa.ChangeType:
		return t.trace(x.X, cx, d+1)
	case *ssa.Phi:
		var r []origin
		for _, e := range x.Edges {
			r = append(r, t.trace(e, cx, d+1)...)
		}
		return r
	case *ssa.Slice:
		return t.trace(x.X, cx, d+1)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return t.callResult(c, x.Index, cx, d)
		}
	case *ssa.Call:
		return t.callResult(x, 0, cx, d)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		if cx != nil {
			args := callArgs(cx.call)
			if idx < len(args) {
				return t.trace(args[idx], cx.up, d+1)
			}
			return unk
		}
		return []origin{{kind: "param", i: int64(idx), fn: f}}
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			return t.load(x.X, cx, d)
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return t.trace(b, cx, d+1)
		}
	case *ssa.Field:
		return t.fieldOf(x.X, x.Field, cx, d)
	}
	return unk
}

func freeVarBinding(x *ssa.FreeVar) ssa.Value {
	f := x.Parent()
	idx := -1
	for i, fv := range f.FreeVars {
		if fv == x {
			idx = i
		}
	}
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

func callArgs(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

// load: values stored at an address.
func (t *tracer) load(addr ssa.Value, cx *tctx, d int) []origin {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return t.stores(a, cx, d)
	case *ssa.FreeVar:
		if b := freeVarBinding(a); b != nil {
			if al, ok := b.(*ssa.Alloc); ok {
				return t.stores(al, cx, d)
			}
		}
	case *ssa.FieldAddr:
		return t.fieldOf(a.X, a.Field, cx, d)
	}
	return []origin{{kind: "?"}}
}

func (t *tracer) stores(a ssa.Value, cx *tctx, d int) []origin {
	var r []origin
	for _, ref := range *a.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
			r = append(r, t.trace(s.Val, cx, d+1)...)
		}
	}
	if r == nil {
		r = []origin{{kind: "nil"}}
	}
	return r
}

// fieldOf: values of field i of the struct (or pointer to struct) v.
func (t *tracer) fieldOf(v ssa.Value, i int, cx *tctx, d int) []origin {
	unk := []origin{{kind: "?"}}
	if d > 25 {
		return unk
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		var r []origin
		for _, ref := range *x.Referrers() {
			switch s := ref.(type) {
			case *ssa.FieldAddr:
				if s.Field == i {
					for _, r2 := range *s.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == s {
							r = append(r, t.trace(st.Val, cx, d+1)...)
						}
					}
				}
			case *ssa.Store:
				if s.Addr == x { // whole-struct store, or store of a pointer to it
					r = append(r, t.fieldOf(s.Val, i, cx, d+1)...)
				}
			}
		}
		if r == nil {
			r = []origin{{kind: "nil"}}
		}
		return r
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			return t.fieldOf(x.X, i, cx, d+1)
		}
	case *ssa.FreeVar:
		if b := freeVarBinding(x); b != nil {
			return t.fieldOf(b, i, cx, d+1)
		}
	case *ssa.Phi:
		var r []origin
		for _, e := range x.Edges {
			r = append(r, t.fieldOf(e, i, cx, d+1)...)
		}
		return r
	case *ssa.MakeInterface:
		return t.fieldOf(x.X, i, cx, d+1)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return t.callField(c, x.Index, i, cx, d)
		}
	case *ssa.Call:
		return t.callField(x, 0, i, cx, d)
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for k, p := range f.Params {
			if p == x {
				idx = k
			}
		}
		if cx != nil {
			args := callArgs(cx.call)
			if idx < len(args) {
				return t.fieldOf(args[idx], i, cx.up, d+1)
			}
			return unk
		}
		fv := fieldVar(x.Type(), i)
		if fv != nil {
			return []origin{{kind: "reqdata", i: int64(idx), fn: f, typ: fv.Type()}}
		}
	}
	return unk
}

func isRPCCall(c *ssa.CallCommon) bool {
	if !c.IsInvoke() || c.Method.Name() != "Call" || len(c.Args) != 2 {
		return false
	}
	return ptrTo(c.Args[1].Type(), "Request")
}

func (t *tracer) callField(c *ssa.Call, idx, fld int, cx *tctx, d int) []origin {
	unk := []origin{{kind: "?"}}
	if isRPCCall(&c.Call) {
		return []origin{{kind: "rpcres", call: c, ctx: cx}}
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !t.w.inRepo(f) || depthOf(cx) > 4 {
		return unk
	}
	var r []origin
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			if isNilConst(ret.Results[idx]) {
				continue
			}
			r = append(r, t.fieldOf(ret.Results[idx], fld, &tctx{call: c, up: cx, n: depthOf(cx) + 1}, d+1)...)
		}
	}
	return r
}

func depthOf(c *tctx) int {
	if c == nil {
		return 0
	}
	return c.n
}

func (t *tracer) callResult(c *ssa.Call, idx int, cx *tctx, d int) []origin {
	unk := []origin{{kind: "?"}}
	f := c.Call.StaticCallee()
	if f == nil {
		return unk
	}
	if f.Name() == "SerializeToBytes" && pkgPathOf(f) == "serialize" {
		return t.argType(c.Call.Args[0], cx, d)
	}
	if f.Blocks == nil || !t.w.inRepo(f) || depthOf(cx) > 4 {
		return unk
	}
	var r []origin
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			if isNilConst(ret.Results[idx]) {
				continue
			}
			r = append(r, t.trace(ret.Results[idx], &tctx{call: c, up: cx, n: depthOf(cx) + 1}, d+1)...)
		}
	}
	return r
}

// argType: dynamic type of an interface-typed argument.
func (t *tracer) argType(v ssa.Value, cx *tctx, d int) []origin {
	if d > 25 {
		return []origin{{kind: "?"}}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []origin{{kind: "type", typ: x.X.Type()}}
	case *ssa.ChangeInterface:
		return t.argType(x.X, cx, d+1)
	case *ssa.Phi:
		var r []origin
		for _, e := range x.Edges {
			r = append(r, t.argType(e, cx, d+1)...)
		}
		return r
	case *ssa.Parameter:
		if cx != nil {
			args := callArgs(cx.call)
			for i, p := range x.Parent().Params {
				if p == x && i < len(args) {
					return t.argType(args[i], cx.up, d+1)
				}
			}
		}
		for i, p := range x.Parent().Params {
			if p == x {
				return []origin{{kind: "param", i: int64(i), fn: x.Parent()}}
			}
		}
	}
	return []origin{{kind: "?"}}
}

func hasParam(os []origin, f *ssa.Function) bool {
	for _, o := range os {
		if (o.kind == "param" || o.kind == "reqdata") && o.fn == f {
			return true
		}
	}
	return false
}

// inContexts: evaluate k in the function itself and, while the result depends on its
// parameters, in each of its callers.
func (w *World) inContexts(f *ssa.Function, k func(cx *tctx) bool) {
	var rec func(f *ssa.Function, chain []ssa.CallInstruction)
	rec = func(g *ssa.Function, chain []ssa.CallInstruction) {
		var cx *tctx
		for i := len(chain) - 1; i >= 0; i-- {
			n := 0
			if cx != nil {
				n = cx.n + 1
			}
			cx = &tctx{call: chain[i], up: cx, n: n}
		}
		if !k(cx) || len(chain) >= 4 {
			return
		}
		for _, c := range w.callers[g] {
			if c.Parent() == g || c.Common().StaticCallee() != g {
				continue
			}
			rec(c.Parent(), append(append([]ssa.CallInstruction{}, chain...), c))
		}
	}
	rec(f, nil)
}

type rpcOp struct {
	sent, decoded map[string]string // wire shape -> where (client request, client response)
	sites         []string
	master        bool
}

// opTables: operation code -> method name, for the two servers.
func (w *World) opTables() map[string]map[int64]string {
	res := map[string]map[int64]string{}
	for _, f := range w.all {
		if pkgPathOf(f) != "cluster/rpc" || f.Name() != "init" {
			continue
		}
		// global = map; mapupdates of that map
		maps := map[ssa.Value]string{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						maps[st.Val] = g.Name()
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || maps[mu.Map] == "" {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
					continue
				}
				op, _ := constant.Int64Val(k.Value)
				nm := ""
				if ld, ok := mu.Value.(*ssa.UnOp); ok {
					if al, ok := ld.X.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if fa, ok := r.(*ssa.FieldAddr); ok {
								for _, r2 := range *fa.Referrers() {
									if st, ok := r2.(*ssa.Store); ok {
										if cst, ok := st.Val.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.String {
											nm = constant.StringVal(cst.Value)
										}
									}
								}
							}
						}
					}
				}
				if res[maps[mu.Map]] == nil {
					res[maps[mu.Map]] = map[int64]string{}
				}
				res[maps[mu.Map]][op] = nm
			}
		}
	}
	return res
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// rpcCodec: both ends of every cluster call agree on operation, request and response encoding.
func (c *Ctx) rpcCodec() {
	w := c.w
	tables := w.opTables()
	var mtab, stab map[int64]string
	for n, t := range tables {
		if strings.Contains(strings.ToLower(n), "master") {
			mtab = t
		} else if strings.Contains(strings.ToLower(n), "slave") {
			stab = t
		}
	}
	if len(mtab) == 0 || len(stab) == 0 {
		c.fail("optable", "cluster/rpc", "operation tables of the two servers not found")
		return
	}
	ops := map[string]*rpcOp{} // server/op
	get := func(k string) *rpcOp {
		if ops[k] == nil {
			ops[k] = &rpcOp{sent: map[string]string{}, decoded: map[string]string{}}
		}
		return ops[k]
	}
	serverOf := func(f *ssa.Function) string {
		// connections to the master live in the slave's ConnManager, all others lead to slaves
		return ""
	}
	_ = serverOf
	opOf := func(call ssa.CallInstruction, cx *tctx) []origin {
		t := &tracer{w: w, busy: map[ssa.Value]bool{}}
		return t.fieldOf(call.Common().Args[1], reqField(call.Common().Args[1].Type(), "Op"), cx, 0)
	}
	nsites := 0
	live := w.live()
	for _, f := range w.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !isRPCCall(&call.Call) || !live[f] {
					continue
				}
				where := c.w.pos(call.Pos()) + " in " + objFull(f)
				c.funcs[objFull(f)] = true
				w.inContexts(f, func(cx *tctx) bool {
					o := opOf(call, cx)
					t := &tracer{w: w, busy: map[ssa.Value]bool{}}
					data := t.fieldOf(call.Call.Args[1], reqField(call.Call.Args[1].Type(), "Data"), cx, 0)
					if len(o) != 1 || o[0].kind != "const" {
						return paramDep(o)
					}
					op := o[0].i
					target := w.clientServer(call.Call.Value, cx)
					for _, srv := range target {
						tab := stab
						if srv == "master" {
							tab = mtab
						}
						nm, okn := tab[op]
						nsites++
						c.check(okn && nm != "", "optable", where, fmt.Sprintf("operation %d is in the %s's operation table", op, srv))
						if !okn {
							continue
						}
						if want, ok := rpcClientOps[objFull(f)]; ok {
							hit := false
							for _, x := range strings.Split(want, " ") {
								hit = hit || x == srv+"/"+nm
							}
							c.check(hit, "optable", where, fmt.Sprintf("invokes %s on the server (got %s/%s)", want, srv, nm))
						}
						r := get(srv + "/" + nm)
						r.sites = append(r.sites, where)
						for _, x := range data {
							if x.kind == "type" {
								r.sent[w.shape(derefT(x.typ))] = where + " (" + derefT(x.typ).String() + ")"
							}
						}
					}
					return paramDep(data)
				})
			}
		}
	}
	// client decodes
	for _, f := range w.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := call.Call.StaticCallee()
				data := decodeSource(call, cal)
				if data == nil {
					continue
				}
				w.inContexts(f, func(cx *tctx) bool {
					t := &tracer{w: w, busy: map[ssa.Value]bool{}}
					src := t.trace(data, cx, 0)
					t = &tracer{w: w, busy: map[ssa.Value]bool{}}
					dst := t.argType(call.Call.Args[1], cx, 0)
					for _, s := range src {
						if s.kind != "rpcres" {
							continue
						}
						o := opOf(s.call, s.ctx)
						if len(o) != 1 || o[0].kind != "const" {
							continue
						}
						for _, srv := range w.clientServer(s.call.Common().Value, s.ctx) {
							tab := stab
							if srv == "master" {
								tab = mtab
							}
							if tab[o[0].i] == "" {
								continue
							}
							for _, d := range dst {
								if d.kind == "type" {
									get(srv + "/" + tab[o[0].i]).decoded[w.shape(derefT(d.typ))] = c.w.pos(call.Pos()) + " in " + objFull(f) + " (" + derefT(d.typ).String() + ")"
								}
							}
						}
					}
					return paramDep(src) || paramDep(dst)
				})
			}
		}
	}
	// servers
	var keys []string
	for k := range ops {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r := ops[k]
		srv, nm := k[:strings.IndexByte(k, '/')], k[strings.IndexByte(k, '/')+1:]
		pkg, typ := "cluster/slave", "SlaveServerSideOp"
		if srv == "master" {
			pkg, typ = "cluster/master", "MasterServerSideOp"
		}
		h := w.funcs[pkg+".(*"+typ+")."+nm]
		if h == nil {
			for n, f := range w.funcs { // the handler type may have been renamed
				if strings.HasPrefix(n, pkg+".(") && strings.HasSuffix(n, ")."+nm) && f.Signature.Params().Len() == 2 && ptrTo(f.Signature.Params().At(1).Type(), "Request") {
					h = f
				}
			}
		}
		cl := w.funcs["cluster/rpc.(*"+lowerFirst(typ)+"Client)."+nm]
		c.check(cl != nil, "optable", k, fmt.Sprintf("the method %s named by the operation table exists on the generated client", nm))
		if h == nil {
			c.fail("optable", k, "no handler for the operation called at "+strings.Join(r.sites, ", "))
			continue
		}
		c.ok("optable", objFull(h), "the operation called at "+r.sites[0]+" has a handler")
		c.funcs[objFull(h)] = true
		dec, enc := w.handlerCodec(h)
		if len(dec) == 0 || len(enc) == 0 || len(r.decoded) == 0 {
			c.notes = append(c.notes, fmt.Sprintf("%s: handler decodes %d and encodes %d types, client sends %d and decodes %d", k, len(dec), len(enc), len(r.sent), len(r.decoded)))
		}
		for sh, at := range dec {
			for s2, at2 := range r.sent {
				c.check(sh == s2, "codec", objFull(h), fmt.Sprintf("request %s: client sends %s, handler decodes %s", nm, tail(at2), tail(at)))
			}
			if len(r.sent) == 0 {
				c.notes = append(c.notes, "request type of "+k+" not traced at the client")
			}
		}
		for sh, at := range enc {
			for s2, at2 := range r.decoded {
				c.check(sh == s2, "codec", objFull(h), fmt.Sprintf("response %s: handler encodes %s, client decodes %s", nm, tail(at), tail(at2)))
			}
		}
	}
	c.check(nsites >= 25, "codec", "cluster", fmt.Sprintf("%d client calls traced to an operation", nsites))
}

func tail(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

func lowerFirst(s string) string { return strings.ToLower(s[:1]) + s[1:] }

func paramDep(os []origin) bool {
	for _, o := range os {
		if o.kind == "param" || o.kind == "reqdata" {
			return true
		}
	}
	return false
}

func reqField(t types.Type, name string) int {
	st, ok := derefT(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// clientServer: which server the client field was created for, by the constant given to
// NewClient wherever that field is assigned.
func (w *World) clientServer(v ssa.Value, cx *tctx) []string {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	if fv == nil {
		return nil
	}
	set := map[string]bool{}
	for _, f := range w.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa2, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa2.X.Type(), fa2.Field) != fv {
					continue
				}
				w.newClientArgs(st.Val, set, 0)
			}
		}
	}
	var r []string
	for s := range set {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

func (w *World) newClientArgs(v ssa.Value, set map[string]bool, d int) {
	if d > 5 {
		return
	}
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f != nil && f.Name() == "NewClient" && len(x.Call.Args) == 1 {
			if k, ok := x.Call.Args[0].(*ssa.Const); ok {
				if i, _ := constant.Int64Val(k.Value); i == 1 {
					set["master"] = true
				} else {
					set["slave"] = true
				}
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					w.newClientArgs(st.Val, set, d+1)
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.newClientArgs(e, set, d+1)
		}
	case *ssa.MakeInterface:
		w.newClientArgs(x.X, set, d+1)
	}
}

// handlerCodec: types a server method decodes from its request and encodes into its response.
func (w *World) handlerCodec(h *ssa.Function) (dec, enc map[string]string) {
	dec, enc = map[string]string{}, map[string]string{}
	// decodes: any DeserializeFromBytes whose source traces to the handler's request parameter
	for _, f := range w.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				cal := call.Call.StaticCallee()
				data := decodeSource(call, cal)
				if data == nil {
					continue
				}
				w.inContexts(f, func(cx *tctx) bool {
					t := &tracer{w: w, busy: map[ssa.Value]bool{}}
					src := t.trace(data, cx, 0)
					t = &tracer{w: w, busy: map[ssa.Value]bool{}}
					for _, s := range src {
						if s.kind == "reqdata" && s.fn == h {
							for _, d := range t.argType(call.Call.Args[1], cx, 0) {
								if d.kind == "type" {
									dec[w.shape(derefT(d.typ))] = w.pos(call.Pos()) + " (" + derefT(d.typ).String() + ")"
								}
							}
							return false
						}
					}
					return paramDep(src) && h != f
				})
			}
		}
	}
	for _, b := range h.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 2 || isNilConst(ret.Results[0]) {
			continue
		}
		t := &tracer{w: w, busy: map[ssa.Value]bool{}}
		for _, o := range t.fieldOf(ret.Results[0], reqField(ret.Results[0].Type(), "Data"), nil, 0) {
			if o.kind == "type" {
				enc[w.shape(derefT(o.typ))] = w.pos(ret.Pos()) + " (" + derefT(o.typ).String() + ")"
			}
		}
	}
	return
}

// decodeSource: the bytes a decoding call reads (Args[1] is what it fills), or nil.
func decodeSource(call *ssa.Call, cal *ssa.Function) ssa.Value {
	if cal == nil || pkgPathOf(cal) != "serialize" || len(call.Call.Args) != 2 {
		return nil
	}
	switch cal.Name() {
	case "DeserializeFromBytes":
		return call.Call.Args[0]
	case "Deserialize":
		if nb, ok := call.Call.Args[0].(*ssa.Call); ok {
			if g := nb.Call.StaticCallee(); g != nil && g.Name() == "NewByteBuffer" && len(nb.Call.Args) == 1 {
				return nb.Call.Args[0]
			}
		}
	}
	return nil
}

// rpcClientOps: the remote procedure each client method stands for.
var rpcClientOps = map[string]string{
	"cluster/master.(*SlaveConnection).AddBlockListForSync":             "slave/AddMinorBlockListForSync",
	"cluster/master.(*SlaveConnection).AddRootBlock":                    "slave/AddRootBlock",
	"cluster/master.(*SlaveConnection).AddTransaction":                  "slave/AddTransaction",
	"cluster/master.(*SlaveConnection).AddTransactions":                 "slave/AddTransactions",
	"cluster/master.(*SlaveConnection).CheckMinorBlocksInRoot":          "slave/CheckMinorBlocksInRoot",
	"cluster/master.(*SlaveConnection).EstimateGas":                     "slave/EstimateGas",
	"cluster/master.(*SlaveConnection).ExecuteTransaction":              "slave/ExecuteTransaction",
	"cluster/master.(*SlaveConnection).GasPrice":                        "slave/GasPrice",
	"cluster/master.(*SlaveConnection).GenTx":                           "slave/GenTx",
	"cluster/master.(*SlaveConnection).GetAccountData":                  "slave/GetAccountData",
	"cluster/master.(*SlaveConnection).GetAllTx":                        "slave/GetAllTx",
	"cluster/master.(*SlaveConnection).GetCode":                         "slave/GetCode",
	"cluster/master.(*SlaveConnection).GetLogs":                         "slave/GetLogs",
	"cluster/master.(*SlaveConnection).GetMinorBlockHeaderList":         "slave/GetMinorBlockHeaderList",
	"cluster/master.(*SlaveConnection).GetMinorBlockHeaderListWithSkip": "slave/GetMinorBlockHeaderListWithSkip",
	"cluster/master.(*SlaveConnection).GetMinorBlocks":                  "slave/GetMinorBlockList",
	"cluster/master.(*SlaveConnection).GetRootChainStakes":              "slave/GetRootChainStakes",
	"cluster/master.(*SlaveConnection).GetStorageAt":                    "slave/GetStorageAt",
	"cluster/master.(*SlaveConnection).GetTransactionByHash":            "slave/GetTransaction",
	"cluster/master.(*SlaveConnection).GetTransactionReceipt":           "slave/GetTransactionReceipt",
	"cluster/master.(*SlaveConnection).GetTransactionsByAddress":        "slave/GetTransactionListByAddress",
	"cluster/master.(*SlaveConnection).GetUnconfirmedHeaders":           "slave/GetUnconfirmedHeaderList",
	"cluster/master.(*SlaveConnection).GetWork":                         "slave/GetWork",
	"cluster/master.(*SlaveConnection).HandleNewMinorBlock":             "slave/HandleNewMinorBlock",
	"cluster/master.(*SlaveConnection).HandleNewTip":                    "slave/HandleNewTip",
	"cluster/master.(*SlaveConnection).HeartBeat":                       "slave/HeartBeat",
	"cluster/master.(*SlaveConnection).MasterInfo":                      "slave/MasterInfo",
	"cluster/master.(*SlaveConnection).SendPing":                        "slave/Ping",
	"cluster/master.(*SlaveConnection).SetMining":                       "slave/SetMining",
	"cluster/master.(*SlaveConnection).SubmitWork":                      "slave/SubmitWork",
	"cluster/master.(*SlaveConnection).getMinorBlock":                   "slave/GetMinorBlock",
	"cluster/slave.(*ConnManager).BroadcastMinorBlock":                  "master/BroadcastNewMinorBlock",
	"cluster/slave.(*ConnManager).BroadcastNewTip":                      "master/BroadcastNewTip",
	"cluster/slave.(*ConnManager).BroadcastTransactions":                "master/BroadcastTransactions",
	"cluster/slave.(*ConnManager).GetMinorBlockHeaderList":              "master/GetMinorBlockHeaderList master/GetMinorBlockHeaderListWithSkip",
	"cluster/slave.(*ConnManager).GetMinorBlocks":                       "master/GetMinorBlockList",
	"cluster/slave.(*ConnManager).SendMinorBlockHeaderListToMaster":     "master/AddMinorBlockHeaderList",
	"cluster/slave.(*ConnManager).SendMinorBlockHeaderToMaster":         "master/AddMinorBlockHeader",
	"cluster/slave.(*SlaveConn).AddXshardTxList":                        "slave/AddXshardTxList",
	"cluster/slave.(*SlaveConn).BatchAddXshardTxList":                   "slave/BatchAddXshardTxList",
	"cluster/slave.(*SlaveConn).SendPing":                               "slave/Ping",
}
