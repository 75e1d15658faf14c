package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// execution and validation: the result must be a function of the block and the parent state
var consensusRoots = []string{
	"core.(*MinorBlockChain).runBlock",
	"core.(*MinorBlockValidator).ValidateBlock",
	"core.(*MinorBlockValidator).ValidateState",
	"core.(*MinorBlockValidator).ValidateSeal",
	"core.(*RootBlockValidator).ValidateBlock",
	"core.(*RootBlockValidator).ValidateSeal",
	"core/state.(*StateDB).Commit",
	"core.(*MinorBlockChain).WriteBlockWithState",
	"core.(*MinorBlockChain).AddRootBlock",
	"core.(*MinorBlockChain).updateTip",
	"core.(*RootBlockChain).WriteBlockWithState",
}

// commuting: operations whose effect does not depend on the order they are applied in for different keys.
var commuting = map[string]string{
	"AddBalance": "adds to the balance of one token", "TryUpdate": "trie entry of the key", "TryDelete": "trie entry of the key",
	"Update": "trie entry of the key", "Delete": "trie entry of the key", "setError": "keeps the first failure, which fails the commit",
	"updateStateObject": "trie entry of the account", "deleteStateObject": "trie entry of the account", "CommitTrie": "storage of the account",
	"InsertBlob": "content-addressed", "deepCopy": "fresh copy", "updateRoot": "storage of the account", "SetValue": "entry of the token",
	"Put": "database entry of the key", "PutMinorBlockCoinbase": "entry of the header", "WriteMinorBlockCnt": "entry of the shard",
}

var pureStd = map[string]bool{"fmt": true, "errors": true, "bytes": true, "strings": true, "math/bits": true, "encoding/binary": true,
	"strconv": true, "sort": true, "math": true, "github.com/pkg/errors": true, "encoding/hex": true, "unicode": true}

type detEngine struct {
	c    *Ctx
	w    *World
	pure map[*ssa.Function]int
}

// localBase: the memory an address designates was allocated in this function (by one of within, if not nil).
func localBase(v ssa.Value, within map[*ssa.BasicBlock]bool, d int) bool {
	if d > 20 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return within == nil || within[x.Block()]
	case *ssa.MakeMap:
		return within == nil || within[x.Block()]
	case *ssa.MakeSlice:
		return within == nil || within[x.Block()]
	case *ssa.FieldAddr:
		return localBase(x.X, within, d+1)
	case *ssa.IndexAddr:
		return localBase(x.X, within, d+1)
	case *ssa.Slice:
		return localBase(x.X, within, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok { // a variable: whatever is stored in it
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a && !localBase(st.Val, within, d+1) {
						return false
					}
				}
				return within == nil || within[a.Block()]
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok && localBase(ia.X, within, d+1) { // element of a fresh slice
				if rs := ia.X.Referrers(); rs != nil {
					n := 0
					for _, r := range *rs {
						if ib, ok := r.(*ssa.IndexAddr); ok {
							for _, q := range *ib.Referrers() {
								if st, ok := q.(*ssa.Store); ok && st.Addr == ib {
									if !localBase(st.Val, within, d+1) {
										return false
									}
									n++
								}
							}
						}
					}
					return n > 0
				}
			}
		}
	case *ssa.ChangeType:
		return localBase(x.X, within, d+1)
	case *ssa.MakeInterface:
		return localBase(x.X, within, d+1)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "math/big" {
			if g.Name() == "NewInt" || g.Name() == "NewRat" {
				return within == nil || within[x.Block()]
			}
			if g.Signature.Recv() != nil && g.Signature.Results().Len() > 0 && len(x.Call.Args) > 0 && types.Identical(g.Signature.Results().At(0).Type(), x.Call.Args[0].Type()) {
				return localBase(x.Call.Args[0], within, d+1)
			}
		}
	case *ssa.Extract:
		return localBase(x.Tuple, within, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !localBase(e, within, d+5) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return true
	}
	return false
}

// callEffect: "" when the call has no effect outside the memory of within, else what it is.
func (e *detEngine) callEffect(ci ssa.CallInstruction, within map[*ssa.BasicBlock]bool, d int) string {
	cm := ci.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "copy":
			if !localBase(cm.Args[0], within, 0) {
				return b.Name()
			}
		case "close":
			return b.Name()
		}
		return ""
	}
	name := ""
	if cm.IsInvoke() {
		name = cm.Method.Name()
	} else if g := cm.StaticCallee(); g != nil {
		name = g.Name()
		if g.Pkg != nil {
			p := g.Pkg.Pkg.Path()
			if pureStd[p] || strings.HasSuffix(p, "/log") && name != "Crit" {
				return ""
			}
			if p == "math/big" {
				if sig := g.Signature; sig.Recv() != nil {
					switch name {
					case "Cmp", "CmpAbs", "Sign", "Bytes", "Uint64", "Int64", "IsUint64", "IsInt64", "BitLen", "String", "Bit", "Text", "Num", "Denom":
						return ""
					}
					if localBase(cm.Args[0], within, 0) {
						return ""
					}
					return "in-place " + name
				}
				return ""
			}
		}
	}
	cs := e.w.callees(cm)
	if len(cs) == 0 {
		if g := cm.StaticCallee(); g != nil && !e.w.inRepo(g) {
			switch name {
			case "EncodeToBytes", "BytesToHash", "Keccak256", "Hash", "String", "Hex", "Big", "Bytes", "Cmp", "Less", "Sprintf", "Now", "Since", "PutUint64", "PutUint32", "Uint64", "Uint32":
				return ""
			}
		}
		return "unknown call " + name
	}
	for _, g := range cs {
		if !e.isPure(g, d+1) {
			return "call " + name
		}
	}
	return ""
}

// isPure: the function writes no memory it did not allocate.
func (e *detEngine) isPure(f *ssa.Function, d int) bool {
	switch e.pure[f] {
	case 1:
		return true
	case 2:
		return false
	}
	if d > 8 || len(f.Blocks) == 0 {
		return false
	}
	e.pure[f] = 1 // recursion: assume, then correct
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				ok = ok && localBase(x.Addr, nil, 0)
			case *ssa.MapUpdate:
				ok = ok && localBase(x.Map, nil, 0)
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				ok = false
			case *ssa.Call:
				ok = ok && e.callEffect(x, nil, d) == ""
			}
			if !ok {
				e.pure[f] = 2
				return false
			}
		}
	}
	return true
}

func derives(v ssa.Value, from map[ssa.Value]bool, d int) bool {
	if v == nil || d > 12 {
		return false
	}
	if from[v] {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := v.(*ssa.Phi); ok && d > 4 {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && derives(*op, from, d+1) {
			return true
		}
	}
	return false
}

// mapRange: why the outcome of a loop over a map may depend on the iteration order ("" if it does not).
func (e *detEngine) mapRange(rg *ssa.Range) string {
	f := rg.Parent()
	var next *ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	hdr := next.Block()
	reachHdr := map[*ssa.BasicBlock]bool{hdr: true}
	for q := []*ssa.BasicBlock{hdr}; len(q) > 0; q = q[1:] {
		for _, p := range q[0].Preds {
			if !reachHdr[p] && hdr.Dominates(p) {
				reachHdr[p] = true
				q = append(q, p)
			}
		}
	}
	loop := reachHdr
	var bodyEntry, done *ssa.BasicBlock
	if iff, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If); ok {
		bodyEntry, done = hdr.Succs[0], hdr.Succs[1]
		_ = iff
	} else {
		return "unrecognised loop"
	}
	// early exits: blocks of the body side that leave the loop
	exits := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if !loop[b] && bodyEntry.Dominates(b) {
			exits[b] = true
		}
	}
	kv := map[ssa.Value]bool{}
	var key ssa.Value
	for _, r := range *next.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index >= 1 {
			kv[x] = true
			if x.Index == 1 {
				key = x
			}
		}
	}
	isKey := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.UnOp:
				if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL { // spilled key
					n, m := 0, false
					for _, r := range *a.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == a {
							n++
							m = st.Val == key
						}
					}
					return n == 1 && m
				}
			}
			return v == key && key != nil
		}
	}
	// a break that jumps straight behind the loop: selects an element
	for b := range loop {
		if b == hdr {
			continue
		}
		for _, s := range b.Succs {
			if s == done || !loop[s] && !exits[s] {
				if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.EQL && (isKey(bo.X) || isKey(bo.Y)) {
						continue // at most one key matches
					}
				}
				if !e.exitNeutral(done, b, kv) {
					return "leaves the loop at the first element that qualifies"
				}
			}
		}
	}
	body := map[*ssa.BasicBlock]bool{}
	for b := range loop {
		body[b] = true
	}
	for b := range exits {
		body[b] = true
	}
	for _, b := range f.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b != hdr {
					continue
				}
				if r := e.accumulator(x, loop, isKey); r != "" {
					return r
				}
			case *ssa.Store:
				if localBase(x.Addr, body, 0) {
					continue
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok { // a variable outside the loop
					if usedOnlyAfter(a, x, body) {
						continue // the loop variable itself
					}
					if c, ok := x.Val.(*ssa.Const); ok && c != nil {
						continue // every iteration stores the same constant or none
					}
					if ap, ok := x.Val.(*ssa.Call); ok {
						if bi, ok := ap.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							if r := e.sortedLater(a, f, ap, isKey); r != "" {
								return r
							}
							continue
						}
					}
					if bo, ok := x.Val.(*ssa.BinOp); ok && commutes(bo.Op, bo.Type()) {
						continue
					}
					if isNamedResult(f, a) && errorLike(a.Type().Underlying().(*types.Pointer).Elem()) {
						continue
					}
					return "overwrites a variable in every iteration"
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && derives(fa.X, kv, 0) {
					continue // a field of the element itself
				}
				if c, ok := x.Val.(*ssa.Const); ok && c != nil {
					continue
				}
				return "writes memory outside the element"
			case *ssa.MapUpdate:
				if localBase(x.Map, body, 0) || isKey(x.Key) || e.sameValue(x.Value, kv) {
					continue
				}
				if bo, ok := x.Value.(*ssa.BinOp); ok && commutes(bo.Op, bo.Type()) {
					continue
				}
				return "fills a map under keys other than the ranged one"
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "starts work or sends in iteration order"
			case *ssa.Return:
				for _, r := range x.Results {
					if derives(r, kv, 0) && !errorLike(r.Type()) && !e.keyTested(b, loop, isKey) {
						return "returns the first element that qualifies"
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && (isKey(x.Call.Args[1]) || len(x.Call.Args) == 2 && derivesLoad(x.Call.Args[1], isKey)) {
					continue
				}
				eff := e.callEffect(x, body, 0)
				if eff == "" {
					continue
				}
				n := cmName(x.Common())
				if _, ok := commuting[n]; ok {
					keyed := false
					args := x.Call.Args
					if x.Call.IsInvoke() {
						args = append([]ssa.Value{x.Call.Value}, args...)
					}
					for _, a := range args {
						keyed = keyed || derives(a, kv, 0)
					}
					if keyed {
						continue
					}
				}
				if strings.HasPrefix(eff, "in-place") && len(x.Call.Args) > 0 && (eff == "in-place Add" || eff == "in-place Sub") && sameRecvArg(x) {
					continue // accumulates
				}
				if snk := e.orderedSink(x, kv); snk != "" {
					return "effect in iteration order: " + snk
				}
			}
		}
	}
	return ""
}

// orderedSink: the effect of a call records the order the elements are visited in ("" if it does not:
// it is keyed by the element, or the same for every element).
func (e *detEngine) orderedSink(x *ssa.Call, kv map[ssa.Value]bool) string {
	keyed := false
	ops := append([]ssa.Value{}, x.Call.Args...)
	if x.Call.IsInvoke() {
		ops = append(ops, x.Call.Value)
	}
	for _, a := range ops {
		keyed = keyed || derives(a, kv, 0)
	}
	if !keyed {
		return ""
	}
	if s := sinkCall(&x.Call); s != "" {
		return s
	}
	seen := map[*ssa.Function]bool{}
	var q []*ssa.Function
	push := func(cm *ssa.CallCommon) {
		if _, ok := commuting[cmName(cm)]; ok {
			return
		}
		for _, g := range e.w.callees(cm) {
			if !seen[g] && e.w.inRepo(g) && g.Name() != "Copy" && !strings.Contains(objFull(g), "log.") && !strings.Contains(pkgPathOf(g), "ethdb") && !hashOf(g) {
				seen[g] = true
				q = append(q, g)
			}
		}
	}
	push(&x.Call)
	for len(q) > 0 && len(seen) < 400 {
		g := q[0]
		q = q[1:]
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Send:
					return "call " + cmName(&x.Call) + ", which sends on a channel in " + objFull(g)
				case *ssa.Go:
					return "call " + cmName(&x.Call) + ", which starts a goroutine in " + objFull(g)
				case *ssa.Store:
					if localBase(y.Addr, nil, 0) {
						continue
					}
					if c, ok := y.Val.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							return "call " + cmName(&x.Call) + ", which appends to a shared list in " + objFull(g)
						}
					}
				case *ssa.Call:
					if s := sinkCall(&y.Call); s != "" && !freshWriter(&y.Call) {
						return "call " + cmName(&x.Call) + ", which does " + s + " in " + objFull(g)
					}
					push(&y.Call)
				}
			}
		}
	}
	return ""
}

// hashOf: the (cached) hash of one object.
func hashOf(g *ssa.Function) bool {
	r := g.Signature.Results()
	return r.Len() == 1 && strings.HasSuffix(r.At(0).Type().String(), "common.Hash") && strings.Contains(strings.ToLower(g.Name()), "hash")
}

// freshWriter: the hash or buffer written to was made in this function.
func freshWriter(cm *ssa.CallCommon) bool {
	v := cm.Value
	if !cm.IsInvoke() {
		if len(cm.Args) == 0 {
			return false
		}
		v = cm.Args[0]
	}
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Call:
			return true
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// sinkCall: hashing, encoding, executing or journaling one element after the other.
func sinkCall(cm *ssa.CallCommon) string {
	switch n := cmName(cm); n {
	case "Write", "WriteString", "WriteByte", "Encode", "Serialize", "AddLog", "ApplyTransaction", "ApplyCrossShardDeposit", "Snapshot", "Push", "PushBytes", "Send":
		return n
	}
	return ""
}

func derivesLoad(v ssa.Value, isKey func(ssa.Value) bool) bool { return isKey(v) }

func sameRecvArg(x *ssa.Call) bool {
	return len(x.Call.Args) == 3 && (x.Call.Args[0] == x.Call.Args[1] || x.Call.Args[0] == x.Call.Args[2])
}

func cmName(cm *ssa.CallCommon) string {
	if cm.IsInvoke() {
		return cm.Method.Name()
	}
	if g := cm.StaticCallee(); g != nil {
		return g.Name()
	}
	return ""
}

// usedOnlyAfter: every use of the variable lies in the loop body behind the store of this iteration.
func usedOnlyAfter(a *ssa.Alloc, st *ssa.Store, body map[*ssa.BasicBlock]bool) bool {
	for _, r := range *a.Referrers() {
		if r == ssa.Instruction(st) {
			continue
		}
		if !body[r.Block()] {
			return false
		}
		if r.Block() == st.Block() {
			for _, in := range st.Block().Instrs {
				if in == r {
					return false
				}
				if in == ssa.Instruction(st) {
					break
				}
			}
		} else if !st.Block().Dominates(r.Block()) {
			return false
		}
	}
	return true
}

func commutes(op token.Token, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch op {
	case token.ADD, token.MUL:
		return b.Info()&types.IsInteger != 0
	case token.OR, token.AND, token.XOR, token.LOR, token.LAND:
		return true
	}
	return false
}

func errorLike(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func isNamedResult(f *ssa.Function, a *ssa.Alloc) bool { return !a.Heap || a.Comment != "" }

// sameValue: the value does not depend on the element.
func (e *detEngine) sameValue(v ssa.Value, kv map[ssa.Value]bool) bool {
	if c, ok := v.(*ssa.Const); ok {
		return c.Value == nil || c.Value.Kind() != constant.Unknown
	}
	return false
}

// exitNeutral: leaving the loop early cannot be told from finishing it, except through values
// that are the same for every element (phis in the exit block with constant edges).
func (e *detEngine) exitNeutral(done, from *ssa.BasicBlock, kv map[ssa.Value]bool) bool {
	for _, in := range done.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range done.Preds {
			if pr == from {
				if _, ok := p.Edges[i].(*ssa.Const); !ok && !errorLike(p.Type()) {
					return false
				}
			}
		}
	}
	return true
}

// keyTested: the exit block is taken for one particular key only.
func (e *detEngine) keyTested(b *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, isKey func(ssa.Value) bool) bool {
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			return false
		}
		if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (isKey(bo.X) || isKey(bo.Y)) {
				if bo.Op == token.EQL && p.Succs[0] == d || bo.Op == token.NEQ && p.Succs[1] == d {
					return true
				}
			}
		}
	}
	return false
}

// accumulator: a value carried from iteration to iteration must combine elements commutatively.
func (e *detEngine) accumulator(p *ssa.Phi, loop map[*ssa.BasicBlock]bool, isKey func(ssa.Value) bool) string {
	for i, pr := range p.Block().Preds {
		if !loop[pr] {
			continue
		}
		if r := e.accEdge(p.Edges[i], p, loop, isKey, 0); r != "" {
			return r
		}
	}
	return ""
}

func (e *detEngine) accEdge(v ssa.Value, acc *ssa.Phi, loop map[*ssa.BasicBlock]bool, isKey func(ssa.Value) bool, d int) string {
	if v == acc {
		return ""
	}
	if d > 6 {
		return "combines elements in iteration order"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Phi:
		if loop[x.Block()] {
			for _, ed := range x.Edges {
				if r := e.accEdge(ed, acc, loop, isKey, d+1); r != "" {
					return r
				}
			}
			return ""
		}
	case *ssa.BinOp:
		if commutes(x.Op, x.Type()) {
			if x.X == acc || x.Y == acc {
				return ""
			}
			return e.accEdge(x.X, acc, loop, isKey, d+1)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if r := e.accEdge(x.Call.Args[0], acc, loop, isKey, d+1); r != "" {
				return r
			}
			return e.sortedLater(acc, acc.Parent(), x, isKey)
		}
		if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "math/big" && g.Name() == "Add" {
			return ""
		}
	}
	if in, ok := v.(ssa.Instruction); ok && !loop[in.Block()] {
		return ""
	}
	return "keeps the element of the last matching iteration"
}

// sortedLater: the slice (a variable or loop-carried value) is passed to a sort function whose
// order is total on what the loop appends: it compares the map key without losing bits of it.
func (e *detEngine) sortedLater(v ssa.Value, f *ssa.Function, ap *ssa.Call, isKey func(ssa.Value) bool) string {
	set := map[ssa.Value]bool{v: true}
	for i := 0; i < 4; i++ {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if set[x.X] {
						set[x] = true
					}
				case *ssa.MakeInterface:
					if set[x.X] {
						set[x] = true
					}
				case *ssa.ChangeType:
					if set[x.X] {
						set[x] = true
					}
				case *ssa.Phi:
					for _, ed := range x.Edges {
						if set[ed] {
							set[x] = true
						}
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices") {
					for _, a := range c.Call.Args {
						if set[a] {
							return e.orderTotal(c, g, ap, isKey)
						}
					}
				}
			}
		}
	}
	return "appends elements in iteration order to a slice that is not sorted"
}

// orderTotal: the comparison a sort call uses tells apart any two elements the loop appends.
func (e *detEngine) orderTotal(c *ssa.Call, g *ssa.Function, ap *ssa.Call, isKey func(ssa.Value) bool) string {
	var less *ssa.Function
	switch {
	case len(c.Call.Args) > 1 && g.Name() != "SortStable":
		switch x := c.Call.Args[1].(type) {
		case *ssa.MakeClosure:
			less, _ = x.Fn.(*ssa.Function)
		case *ssa.Function:
			less = x
		case *ssa.ChangeType:
			less, _ = x.X.(*ssa.Function)
		}
	case g.Name() == "Sort" || g.Name() == "Stable":
		if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
			ms := f2prog(c).MethodSets.MethodSet(mi.X.Type())
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "Less" {
					less = f2prog(c).MethodValue(ms.At(i))
				}
			}
		}
	}
	if less == nil || less.Blocks == nil {
		return "" // sort.Strings and the like order whole elements
	}
	// where the key sits in an appended element: the element itself (""), or one of its fields
	keyField, known := "", false
	if len(ap.Call.Args) > 1 {
		if sl, ok := ap.Call.Args[1].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, rr := range *ia.Referrers() {
						st, ok := rr.(*ssa.Store)
						if !ok || st.Addr != ia {
							continue
						}
						el := st.Val
						if isKey(el) {
							known = true
							continue
						}
						if u, ok := el.(*ssa.UnOp); ok && u.Op == token.MUL {
							el = u.X
						}
						if ea, ok := el.(*ssa.Alloc); ok {
							for _, fr := range *ea.Referrers() {
								if fa, ok := fr.(*ssa.FieldAddr); ok {
									for _, sr := range *fa.Referrers() {
										if s2, ok := sr.(*ssa.Store); ok && s2.Addr == fa && isKey(s2.Val) {
											known = true
											if fv, _ := fieldOf(fa); fv != nil {
												keyField = fv.Name()
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	found, lossy := false, false
	var walk func(v ssa.Value, d int) (field string, loss bool)
	walk = func(v ssa.Value, d int) (string, bool) {
		if d > 12 {
			return "", true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			f, l := walk(x.X, d+1)
			a, ok1 := x.X.Type().Underlying().(*types.Basic)
			b, ok2 := x.Type().Underlying().(*types.Basic)
			if ok1 && ok2 && a.Info()&types.IsNumeric != 0 && (b.Info()&types.IsInteger == 0 || intSize(b) < intSize(a)) {
				l = true
			}
			return f, l
		case *ssa.ChangeType:
			return walk(x.X, d+1)
		case *ssa.UnOp:
			return walk(x.X, d+1)
		case *ssa.Field:
			return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name(), false
		case *ssa.FieldAddr:
			fv, _ := fieldOf(x)
			if fv != nil {
				return fv.Name(), false
			}
			return "", false
		case *ssa.IndexAddr, *ssa.Index, *ssa.Parameter, *ssa.Lookup, *ssa.FreeVar:
			return "", false
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					return walk(st.Val, d+1)
				}
			}
			return "", false
		case *ssa.Slice:
			f, l := walk(x.X, d+1)
			return f, l || x.High != nil || x.Low != nil
		case *ssa.Call:
			var rv ssa.Value
			if x.Call.IsInvoke() {
				rv = x.Call.Value
			} else if len(x.Call.Args) > 0 {
				rv = x.Call.Args[0]
			}
			n := cmName(&x.Call)
			if rv == nil || n == "len" || n == "Uint64" || n == "Int64" || n == "BitLen" || n == "Sign" {
				return "", true
			}
			return walk(rv, d+1)
		case *ssa.BinOp:
			return "", true
		}
		return "", false
	}
	try := func(a, b ssa.Value) {
		fa, la := walk(a, 0)
		fb, lb := walk(b, 0)
		if fa != fb {
			return
		}
		if la || lb {
			lossy = true
			return
		}
		if known && fa != keyField {
			return
		}
		found = true
	}
	for _, b := range less.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ {
					if _, k := x.Y.(*ssa.Const); !k {
						try(x.X, x.Y)
					}
				}
			case *ssa.Call:
				if n := cmName(&x.Call); n == "Cmp" || n == "Compare" || n == "Less" || n == "Big" {
					args := x.Call.Args
					if x.Call.IsInvoke() {
						args = append([]ssa.Value{x.Call.Value}, args...)
					}
					if len(args) == 2 {
						try(args[0], args[1])
					}
				}
			}
		}
	}
	if found {
		return ""
	}
	if lossy {
		return "appends elements in iteration order to a slice sorted by part of the key only"
	}
	return "appends elements in iteration order to a slice whose sorting does not compare the key"
}

func f2prog(c *ssa.Call) *ssa.Program { return c.Parent().Prog }

// timeSinks: what a reading of the clock ends up in.
func timeSinks(v ssa.Value, seen map[ssa.Value]bool, out map[string]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Convert:
			timeSinks(x, seen, out)
		case *ssa.ChangeType:
			timeSinks(x, seen, out)
		case *ssa.Phi:
			timeSinks(x, seen, out)
		case *ssa.UnOp:
			timeSinks(x, seen, out)
		case *ssa.MakeInterface:
			out["message"] = true
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					timeSinks(x.Fn.(*ssa.Function).FreeVars[i], seen, out)
				}
			}
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok {
				timeSinks(a, seen, out)
			} else if a, ok := x.Addr.(*ssa.FieldAddr); ok {
				out["field "+a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field).Name()] = true
			} else {
				out["store"] = true
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.SUB, token.MUL, token.QUO:
				timeSinks(x, seen, out)
			default:
				o := x.X
				if o == v {
					o = x.Y
				}
				out["compare "+originName(o, 0)] = true
			}
		case ssa.CallInstruction:
			n := cmName(x.Common())
			g := x.Common().StaticCallee()
			if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "time" {
				if val := x.Value(); val != nil {
					timeSinks(val, seen, out)
				}
				continue
			}
			out["call "+n] = true
		default:
			out[fmt.Sprintf("%T", r)] = true
		}
	}
}

func originName(v ssa.Value, d int) string {
	switch x := v.(type) {
	case *ssa.Call:
		return cmName(x.Common())
	case *ssa.Convert:
		return originName(x.X, d+1)
	case *ssa.BinOp:
		if _, ok := x.Y.(*ssa.Const); ok {
			return originName(x.X, d+1)
		}
		return originName(x.Y, d+1)
	case *ssa.Const:
		return "constant"
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
		}
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	}
	return fmt.Sprintf("%T", v)
}

// clockAllowed: sinks a reading of the clock may have, with the functions (or "" for all) it is allowed in.
var clockAllowed = map[string][]string{
	"message":           nil,
	"call CaptureEnd":   nil,
	"call UpdateSince":  nil,
	"call report":       nil,
	"field startTime":   nil,
	"compare Time":      {"core.(*MinorBlockValidator).ValidateBlock", "core.(*MinorBlockChain).addFutureBlock", "core.(*RootBlockChain).addFutureBlock"},
	"call SetTimeStamp": {"core.(*MinorBlockChain).StateAt"},
}

// mapOrderAllowed: loops whose order shows only outside consensus, with the reason.
var mapOrderAllowed = map[string]string{
	"cluster/config.(*QuarkChainConfig).GetInitializedShardIdsBeforeRootHeight": "callers use the list as a set",
	"core.(*RootBlockChain).PutRootBlockIndex":                                  "stored list is read back into a map by GetBlockCount",
	"core.(*RootBlockChain).SetLatestMinorBlockHeaders":                         "stored list is read back into a map",
}

func (c *Ctx) determinism() {
	var roots []*ssa.Function
	for _, r := range consensusRoots {
		if f := c.fn(r, "root"); f != nil {
			roots = append(roots, f)
		}
	}
	// encoders the codec and RLP libraries call by reflection
	for _, f := range c.w.all {
		if f.Signature.Recv() == nil || f.Synthetic != "" || !c.w.inRepo(f) {
			continue
		}
		switch f.Name() {
		case "EncodeRLP", "DecodeRLP", "Serialize", "Deserialize":
			if p := pkgPathOf(f); p == "core/types" || p == "core/state" || p == "account" || p == "serialize" {
				roots = append(roots, f)
			}
		}
	}
	from := c.w.reach(roots, func(f *ssa.Function) bool {
		// an io.Writer an encoder is handed: what becomes of the bytes is its caller's business
		return strings.HasPrefix(objFull(f), "consensus.(*FakeEngine)") || f.Name() == "Write" && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 2
	})
	var fs []*ssa.Function
	for f := range from {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return objFull(fs[i]) < objFull(fs[j]) })
	e := &detEngine{c, c.w, map[*ssa.Function]int{}}
	n := 0
	for _, f := range fs {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Object() == nil {
			continue
		}
		n++
		c.funcs[objFull(f)] = true
		clean := true
		bad := func(in ssa.Instruction, what string) {
			clean = false
			c.fail("determinism", c.w.pos(in.Pos())+" in "+objFull(f), what+"; consensus code: "+c.w.chain(from, f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						if why := e.mapRange(x); why != "" {
							if !under(from, f, func(n string) bool { return mapOrderAllowed[n] != "" }) {
								bad(in, "the outcome depends on map iteration order: "+why)
							}
						} else {
							c.ok("determinism", c.w.pos(in.Pos())+" in "+objFull(f), "the loop over a map has the same outcome in every order")
						}
					}
				case *ssa.Go:
					if !e.onlySends(x) {
						bad(in, "starts a goroutine")
					}
				case *ssa.Select:
					if len(x.States) > 1 {
						bad(in, "chooses between channels")
					}
				case *ssa.BinOp:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 && !isStorageSize(x.X.Type()) && !floatMessageOnly(x, map[ssa.Value]bool{}) {
						bad(in, "computes with floating point")
					}
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil || g.Pkg == nil {
						continue
					}
					switch p := g.Pkg.Pkg.Path(); p {
					case "math/rand", "crypto/rand", "os", "runtime", "math/rand/v2":
						if p == "os" && g.Name() == "Exit" {
							continue
						}
						bad(in, "depends on "+p+"."+g.Name())
					case "time":
						if g.Name() == "Now" {
							sinks := map[string]bool{}
							if v := x.Value(); v != nil {
								timeSinks(v, map[ssa.Value]bool{}, sinks)
							}
							ss := []string{}
							for s := range sinks {
								fns, ok := clockAllowed[s]
								if ok && fns != nil {
									ok = false
									for _, n := range fns {
										ok = ok || under(from, f, func(m string) bool { return m == n })
									}
								}
								if !ok {
									ss = append(ss, s)
								}
							}
							sort.Strings(ss)
							if len(ss) > 0 {
								bad(in, "the local clock flows into "+strings.Join(ss, ", "))
							} else {
								c.ok("determinism", c.w.pos(in.Pos())+" in "+objFull(f), "the local clock is only reported, or rejects blocks from the future")
							}
						}
					}
				}
			}
		}
		if clean {
			c.ok("determinism", objFull(f), "no order, clock, randomness, scheduling or floating-point dependence")
		}
	}
	c.globals(from, fs)
	c.check(n > 600, "determinism", "reach", "consensus functions were found")
}

// under: the function, or one it was reached through, is one of the named ones.
func under(from map[*ssa.Function]*ssa.Function, f *ssa.Function, name func(string) bool) bool {
	for g := f; g != nil; g = from[g] {
		if name(objFull(g)) {
			return true
		}
	}
	return false
}

// isStorageSize: sizes of caches, which are local to the node.
func isStorageSize(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "StorageSize"
}

// onlySends: the goroutine only publishes events.
func (e *detEngine) onlySends(g *ssa.Go) bool {
	f := g.Call.StaticCallee()
	if f == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store, *ssa.MapUpdate:
				if st, ok := in.(*ssa.Store); ok && localBase(st.Addr, nil, 0) {
					continue
				}
				return false
			case *ssa.Call:
				if n := cmName(x.Common()); n != "Send" && x.Call.Value.Name() != "len" {
					return false
				}
			}
		}
	}
	return true
}

// floatMessageOnly: the number is only shown.
func floatMessageOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.MakeInterface:
		case *ssa.BinOp:
			if !floatMessageOnly(x, seen) {
				return false
			}
		case *ssa.Convert:
			if !floatMessageOnly(x, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// localGlobals: package-level state consensus code reads that may change while the node runs, with the reason it does not matter.
var localGlobals = map[string]string{
	"serialize.typeCache":   "memoises what is computed from the type",
	"serialize.fieldsCache": "memoises what is computed from the type",
}

// globals: the package-level variables consensus code reads are fixed once the program is initialised.
func (c *Ctx) globals(from map[*ssa.Function]*ssa.Function, fs []*ssa.Function) {
	read := map[*ssa.Global]*ssa.Function{}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && read[g] == nil {
						read[g] = f
					}
				}
			}
		}
	}
	written := map[*ssa.Global][]string{}
	note := func(g *ssa.Global, f *ssa.Function, in ssa.Instruction) {
		if g == nil || read[g] == nil || isInit(f) {
			return
		}
		written[g] = append(written[g], c.w.pos(in.Pos())+" in "+objFull(f))
	}
	for _, f := range c.w.all {
		if f.Pkg == nil || !c.w.inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					note(globalBase(x.Addr, 0), f, in)
				case *ssa.MapUpdate:
					note(globalBase(x.Map, 0), f, in)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy") {
						note(globalBase(x.Call.Args[0], 0), f, in)
					}
					if g := x.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "math/big" && g.Signature.Recv() != nil && len(x.Call.Args) > 0 {
						if r := g.Signature.Results(); r.Len() > 0 && types.Identical(r.At(0).Type(), x.Call.Args[0].Type()) {
							note(globalBase(x.Call.Args[0], 0), f, in)
						}
					}
				}
			}
		}
	}
	var gs []*ssa.Global
	for g := range read {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		name := strings.TrimPrefix(g.String(), modPath+"/")
		where := c.w.pos(g.Pos()) + " variable " + name
		if ws := written[g]; len(ws) > 0 && localGlobals[name] == "" {
			c.fail("globals", where, "package variable read by consensus code ("+c.w.chain(from, read[g])+") is changed after initialisation at "+ws[0])
			continue
		}
		c.ok("globals", where, "package variable read by consensus code is not changed after initialisation")
	}
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// globalBase: the package variable whose memory (or the memory it points to) an address designates.
func globalBase(v ssa.Value, d int) *ssa.Global {
	if d > 12 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalBase(x.X, d+1)
	case *ssa.IndexAddr:
		return globalBase(x.X, d+1)
	case *ssa.UnOp:
		return globalBase(x.X, d+1)
	case *ssa.Lookup:
		return globalBase(x.X, d+1)
	case *ssa.Slice:
		return globalBase(x.X, d+1)
	case *ssa.ChangeType:
		return globalBase(x.X, d+1)
	}
	return nil
}
