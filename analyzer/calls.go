package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// zero-argument accessors of blocks and headers, interface or concrete, are
// read as the header field they expose (their bodies are checked separately).
var getterAlias = map[string]string{
	"NumberU64": "Number", "Number": "Number", "GetVersion": "Version", "Version": "Version",
	"GetParentHash": "ParentHash", "ParentHash": "ParentHash", "GetCoinbase": "Coinbase", "Coinbase": "Coinbase",
	"GetTime": "Time", "Time": "Time", "GetCoinbaseAmount": "CoinbaseAmount", "CoinbaseAmount": "CoinbaseAmount",
	"GetDifficulty": "Difficulty", "Difficulty": "Difficulty", "GetTotalDifficulty": "ToTalDifficulty", "TotalDifficulty": "ToTalDifficulty",
	"GetNonce": "Nonce", "Nonce": "Nonce", "GetExtra": "Extra", "Extra": "Extra", "GetMixDigest": "MixDigest", "MixDigest": "MixDigest",
	"GetPrevRootBlockHash": "PrevRootBlockHash", "PrevRootBlockHash": "PrevRootBlockHash",
	"GetBranch": "Branch", "Branch": "Branch", "GetMetaHash": "MetaHash", "MetaHash": "MetaHash",
	"Header": "", "IHeader": "", "Meta": "meta", "GetMetaData": "meta",
	"TrackingData": "trackingdata", "GetTrackingData": "trackingdata",
	"Transactions": "transactions", "GetTransactions": "transactions", "MinorBlockHeaders": "minorBlockHeaders",
	"Signature": "Signature", "GetBloom": "Bloom", "Bloom": "Bloom",
}

var blockTypes = map[string]bool{"MinorBlock": true, "RootBlock": true, "MinorBlockHeader": true, "RootBlockHeader": true, "IBlock": true, "IHeader": true}

var getterFieldType = map[string]bool{"Number": true, "Time": true, "Difficulty": true, "ToTalDifficulty": true, "Nonce": true, "Version": true}

var identityCalls = map[string]bool{
	"github.com/ethereum/go-ethereum/common.CopyBytes": true,
	modPath + "/core/types.CopyRootBlockHeader":        true,
	modPath + "/core/types.CopyMinorBlockHeader":       true,
	modPath + "/core/types.CopyMinorBlockMeta":         true,
	"(*" + modPath + "/core/types.TokenBalances).Copy": true,
	"golang.org/x/tools/ssa.wrapnilchk":                true,
}

// results of these are always kept as call terms
var keepCall = map[string]bool{"Hash": true, "SealHash": true, "GetHeader": true, "DeriveSha": true, "CreateBloom": true, "IntermediateRoot": true, "CalculateMerkleRoot": true}

var noReturn = map[string]bool{"github.com/ethereum/go-ethereum/log.Crit": true, "os.Exit": true, modPath + "/cmd/utils.Fatalf": true, "log.Fatal": true, "log.Fatalf": true, "(*log.Logger).Fatal": true, "log.Panic": true, "log.Panicf": true}

var bigMut = map[string]string{"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Quo": "/", "Mod": "%", "Rem": "%", "Lsh": "<<", "Rsh": ">>", "And": "&", "Or": "|", "Xor": "^"}
var bigMutOther = map[string]bool{"Exp": true, "Neg": true, "Abs": true, "Not": true, "SetBit": true, "SetBytes": true, "SetString": true, "Sqrt": true, "AndNot": true, "DivMod": true, "QuoRem": true, "GCD": true, "ModInverse": true, "Rand": true, "Binomial": true, "MulRange": true, "FillBytes": false}

func (fa *funcAn) event(short, full string, args []*Term, ins ssa.Instruction, mode string) {
	t := mkCall(short, full, args...)
	f := (&Fact{Kind: 'c', A: t}).fin()
	if _, ok := fa.cur.facts[f.key]; !ok {
		fa.cur.facts[f.key] = f
	}
	if fa.final && fa.a.interesting[short] {
		fa.site(short, full, args, ins, mode)
	}
}

func (fa *funcAn) site(short, full string, args []*Term, ins ssa.Instruction, mode string) {
	fa.sites = append(fa.sites, &Site{Name: short, Full: full, Args: args, Facts: fa.cur.facts.clone(), Pos: ins.Pos(), Fn: fa.fn, Instr: ins, Mode: mode})
}

func (fa *funcAn) setVal(ins ssa.CallInstruction, t *Term) {
	if v := ins.Value(); v != nil {
		fa.val[v] = typed(t, v.Type())
	}
}

func (fa *funcAn) call(ins ssa.CallInstruction, c *ssa.CallCommon, mode string) {
	st := fa.cur
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		fa.builtin(ins, c, bi, mode)
		return
	}
	var callee *ssa.Function
	var raw, vals []*Term
	var short, full string
	var clo *ssa.MakeClosure
	if c.IsInvoke() {
		short = c.Method.Name()
		full = "iface:" + typeName(c.Value.Type()) + "." + short
		raw = append(raw, fa.term(c.Value))
		vals = append(vals, fa.arg(c.Value))
	} else if f := c.StaticCallee(); f != nil {
		callee = f
		short = f.Name()
		full = f.RelString(nil)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			clo = mc
		}
		if o := f.Origin(); o != nil {
			short = o.Name()
		}
	} else {
		ft := fa.term(c.Value)
		if mc, ok := fa.clos[ft.key]; ok {
			clo = mc
			callee = mc.Fn.(*ssa.Function)
			short, full = callee.Name(), objFull(callee)
		} else {
			short, full = "dyn", "dyn"
			if ft.Op == "f" {
				short = ft.S
			}
			raw = append(raw, ft)
			vals = append(vals, ft)
		}
	}
	for _, x := range c.Args {
		raw = append(raw, fa.term(x))
		vals = append(vals, fa.arg(x))
	}
	if callee != nil && strings.HasSuffix(short, "$bound") || strings.HasSuffix(short, "$thunk") {
		callee = nil
	}
	if mode == "" && callee != nil {
		if noReturn[full] {
			fa.event(short, full, vals, ins, mode)
			st.dead = true
			return
		}
		if fa.special(ins, c, callee, full, raw, vals) {
			return
		}
	}
	if c.IsInvoke() && short == "Crit" {
		st.dead = true
		return
	}
	// accessors
	if mode == "" && len(c.Args) == boolInt(!c.IsInvoke()) && len(vals) == 1 {
		rt := recvTypeName(c, callee)
		if alias, ok := getterAlias[short]; ok && blockTypes[rt] {
			b := vals[0]
			if alias != "" {
				b = mkField(b, alias)
			}
			fa.setVal(ins, b)
			return
		}
		if short == "IsNil" && strings.HasPrefix(full, "(reflect.Value)") && vals[0].Op == "call" && vals[0].S == "ValueOf" {
			fa.setVal(ins, mkBin("==", vals[0].A[0], tNil))
			return
		}
	}
	if short == "IsNil" && len(vals) == 1 && strings.HasPrefix(full, modPath) {
		fa.setVal(ins, mkBin("==", vals[0], tNil))
		return
	}
	// pointers to basic values stand for themselves in the call's name
	cvals := append([]*Term(nil), vals...)
	for i, x := range c.Args {
		j := i + len(raw) - len(c.Args)
		if pt, ok := x.Type().Underlying().(*types.Pointer); ok && raw[j].Op == "new" {
			if _, ok := pt.Elem().Underlying().(*types.Basic); ok {
				cvals[j] = raw[j]
			}
		}
	}
	t := mkCall(short, full, cvals...)
	evals := vals
	vals = cvals
	// record
	fa.event(short, full, vals, ins, mode)
	var sum *Summary
	var info *callInfo
	if callee != nil {
		sum = fa.a.summary(callee)
	}
	if sum != nil {
		info = &callInfo{sum: sum, priv: fa.a.w.private(sum.fn), val: map[string]*Term{}, raw: map[string]*Term{}, term: t, tag: fmt.Sprintf("@%s", insID(ins))}
		for i, p := range callee.Params {
			n := fmt.Sprintf("p%d", i)
			if callee.Signature.Recv() != nil {
				if i == 0 {
					n = "recv"
				} else {
					n = fmt.Sprintf("p%d", i-1)
				}
			}
			_ = p
			if i < len(vals) {
				info.val[n], info.raw[n] = evals[i], raw[i]
				if vals[i] != evals[i] {
					if info.ptr == nil {
						info.ptr = map[string]*Term{}
					}
					info.ptr[n] = vals[i]
				}
			}
		}
		if clo != nil {
			fa.bindFree(info, callee, clo)
		}
		for _, ce := range st.cells {
			if ce.loc.Op == "f" && paramRooted(ce.loc) {
				if info.cells == nil {
					info.cells = map[string]*Term{}
				}
				info.cells[ce.loc.key] = ce.val
			}
		}
		if (len(fa.given) > 0 || fa.outer != nil) && fa.a.w.helper(callee, fa.fn) {
			if s := fa.specialise(callee, info, ins); s != nil {
				sum = s
				info.sum = s
			}
		}
		fa.infos[t.key] = info
		if fa.final {
			fa.importSites(info, ins, mode)
		}
	}
	// closures handed to errgroup.Go / similar runners
	for _, x := range c.Args {
		if mc, ok := x.(*ssa.MakeClosure); ok {
			fn := mc.Fn.(*ssa.Function)
			if s := fa.a.summary(fn); s != nil {
				ci := &callInfo{sum: s, priv: fa.a.w.private(s.fn), val: map[string]*Term{}, raw: map[string]*Term{}, tag: "@" + insID(ins)}
				fa.bindFree(ci, fn, mc)
				if fa.final {
					fa.importSites(ci, ins, "go")
				}
				if short == "Go" && strings.Contains(full, "errgroup") {
					fa.importClass(st, ci, 'Z', 0)
				}
			}
		}
	}
	if mode == "go" {
		return
	}
	// effects
	fa.invalidate(ins, c, callee, raw, vals, full)
	if info != nil {
		cs := sum.cls['a']
		if cs == nil {
			if mode == "" {
				st.dead = true
			}
			return
		}
		if mode == "" {
			fa.importClass(st, info, 'a', 0)
			for _, ce := range sortedCells(cs.cells) {
				loc := info.substRaw(ce.loc)
				val := info.substVal(ce.val)
				fa.setCell(loc, val, ce.fv)
			}
		} else {
			fa.importClass(st, info, 'a', 0)
		}
	}
	if ins.Value() == nil {
		return
	}
	res := callee != nil && sum != nil && sum.cls['a'] != nil
	sig := c.Signature()
	n := sig.Results().Len()
	inline := func(i int) *Term {
		if !res || keepCall[short] {
			return nil
		}
		r := sum.cls['a'].results
		if i < len(r) && r[i] == nil && n > 1 && i < n-1 && fa.a.w.helper(callee, fa.fn) {
			// a helper's value is only used where it reported success
			k := byte('Z')
			if isBool(sig.Results().At(n - 1).Type()) {
				k = 'N'
			}
			if z := sum.cls[k]; z != nil && (k == 'N' || isErr(sig.Results().At(n-1).Type())) {
				r = z.results
			}
		}
		if i >= len(r) || r[i] == nil {
			return nil
		}
		if r[i].Op == "new" && !fa.a.w.mentioned(callee) {
			if m := copiedMap(callee, sum.cls['a'].facts, r[i]); m != nil {
				return info.substVal(m)
			}
		}
		if r[i].Op == "new" && fa.a.w.helper(callee, fa.fn) {
			if _, ok := sig.Results().At(i).Type().Underlying().(*types.Map); ok {
				return info.substVal(r[i])
			}
		}
		if rc := r[i]; fa.a.w.mentioned(callee) {
			if rc.Op == "x" {
				rc = rc.A[0]
			}
			if rc.Op == "call" && strings.Contains(rc.Full, modPath) && !fa.a.w.namesAny(rc.S) && !keepCall[rc.S] {
				return nil // the rules know the result by this function's name, not by its helper's
			}
		}
		if r[i].opq && len(r[i].A) > 0 && r[i].depth < 12 && fa.inLoop[ins.Block()] == nil && fa.a.w.helper(callee, fa.fn) && onlyOutPhis(r[i]) {
			return info.substVal(r[i])
		}
		if r[i].opq && r[i].Op == "call" && n == 1 && fa.a.w.helper(callee, fa.fn) && r[i].contains(func(x *Term) bool { return x.Op == "clo" }) && !r[i].contains(func(x *Term) bool {
			return x.opq && x.Op != "new" && x.Op != "call" && x.Op != "clo" && len(x.A) == 0
		}) {
			return info.substVal(r[i])
		}
		if r[i].opq || r[i].depth > 9 && (r[i].depth > 14 || !fa.a.w.helper(callee, fa.fn)) {
			return nil
		}
		v := info.substVal(r[i])
		if _, isPtr := sig.Results().At(i).Type().Underlying().(*types.Pointer); isPtr && v.Op == "lit" && v.S != "[]" && !isBig(sig.Results().At(i).Type()) {
			// a fresh object made by the callee
			o := finish(&Term{Op: "new", S: fa.name + "/" + insID(ins) + fmt.Sprintf(".r%d", i)})
			for k, ce := range fa.cur.cells {
				if ce.loc.contains(func(x *Term) bool { return x.key == o.key }) {
					delete(fa.cur.cells, k)
				}
			}
			fa.cur.cells[o.key] = cell{o, tZero, nil}
			var st *types.Struct
			if p, ok := sig.Results().At(i).Type().Underlying().(*types.Pointer); ok {
				st, _ = p.Elem().Underlying().(*types.Struct)
			}
			for _, kv := range v.A {
				if kv.S == "*" {
					fa.cur.cells[o.key] = cell{o, kv.A[0], nil}
					continue
				}
				l := mkFieldRaw(o, kv.S)
				var fv *types.Var
				if st != nil {
					for j := 0; j < st.NumFields(); j++ {
						if st.Field(j).Name() == kv.S {
							fv = st.Field(j)
						}
					}
				}
				fa.cur.cells[l.key] = cell{l, kv.A[0], fv}
			}
			return o
		}
		return v
	}
	if n == 1 {
		if v := inline(0); v != nil && (v.Op == "c" || !isErr(sig.Results().At(0).Type())) {
			fa.setVal(ins, v)
			if v.key != t.key {
				return
			}
		}
		fa.setVal(ins, t)
	} else if n > 1 {
		var parts []*Term
		any := false
		for i := 0; i < n; i++ {
			v := typed(mkX(t, fmt.Sprint(i)), sig.Results().At(i).Type())
			if x := inline(i); x != nil && (i < n-1 || x.Op == "c") {
				v = x
				any = true
			}
			parts = append(parts, v)
		}
		if any {
			fa.setVal(ins, mkOp("tup", "", parts...))
		} else {
			fa.setVal(ins, t)
		}
	}
}

func sortedCells(m map[string]cell) []cell {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	var r []cell
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func recvTypeName(c *ssa.CallCommon, callee *ssa.Function) string {
	var ty types.Type
	if c.IsInvoke() {
		ty = c.Value.Type()
	} else if callee != nil && callee.Signature.Recv() != nil {
		ty = callee.Signature.Recv().Type()
	} else {
		return ""
	}
	n := typeName(elemOf(ty))
	if nt, ok := types.Unalias(elemOf(ty)).(*types.Named); ok {
		if nt.Obj().Pkg() == nil || !strings.HasSuffix(nt.Obj().Pkg().Path(), "goquarkchain/core/types") {
			return ""
		}
	}
	return n
}

func insID(ins ssa.Instruction) string {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return fmt.Sprintf("%s/%d.%d", ins.Parent().Name(), b.Index, i)
		}
	}
	return "?"
}

func (fa *funcAn) bindFree(info *callInfo, fn *ssa.Function, mc *ssa.MakeClosure) {
	for i, fv := range fn.FreeVars {
		if i < len(mc.Bindings) {
			loc := fa.term(mc.Bindings[i])
			v := loc
			if _, ok := mc.Bindings[i].Type().Underlying().(*types.Pointer); ok {
				v = fa.load(loc, elemOf(mc.Bindings[i].Type()))
				if v.Op == "new" {
					v = fa.content(v, elemOf(mc.Bindings[i].Type()))
				}
			}
			info.val["fv_"+fv.Name()] = v
			info.raw["fv_"+fv.Name()] = loc
		}
	}
}

func (ci *callInfo) sub(m map[string]*Term) func(*Term) *Term {
	return func(t *Term) *Term {
		switch t.Op {
		case "p":
			if v, ok := m[t.S]; ok {
				return v
			}
		case "f":
			if len(ci.cells) == 0 {
				return nil
			}
			if ci.memo == nil {
				ci.memo = map[string]*Term{}
			}
			if len(m) > 0 && len(ci.val) > 0 && !ci.rawMode {
				if v, ok := ci.memo[t.key]; ok {
					return v
				}
				b := subst(t.A[0], ci.sub(m), map[string]*Term{})
				r := mkField(b, t.S)
				if c, ok := ci.cells[r.key]; ok {
					r = c
				}
				ci.memo[t.key] = r
				return r
			}
		case "call":
			if len(ci.ptr) == 0 || ci.rawMode {
				return nil
			}
			hit := false
			for _, a := range t.A {
				if a.Op == "p" && ci.ptr[a.S] != nil {
					hit = true
				}
			}
			if !hit {
				return nil
			}
			na := make([]*Term, len(t.A))
			for i, a := range t.A {
				if a.Op == "p" && ci.ptr[a.S] != nil {
					na[i] = ci.ptr[a.S]
				} else {
					na[i] = subst(a, ci.sub(m), map[string]*Term{})
				}
			}
			return rebuild(t, na)
		case "phi", "?", "it", "new", "mk":
			if t.S == "" || t.S == "2" || strings.Count(t.S, "@") > 3 {
				return nil
			}
			n := *t
			n.S = t.S + ci.tag
			if len(t.A) > 0 {
				n.A = make([]*Term, len(t.A))
				for i, a := range t.A {
					n.A[i] = subst(a, ci.sub(m), map[string]*Term{})
				}
			}
			return finish(&n)
		}
		return nil
	}
}

func (ci *callInfo) substVal(t *Term) *Term { return subst(t, ci.sub(ci.val), map[string]*Term{}) }
func (ci *callInfo) substRaw(t *Term) *Term {
	ci.rawMode = true
	defer func() { ci.rawMode = false }()
	return subst(t, ci.sub(ci.raw), map[string]*Term{})
}

func (ci *callInfo) substFact(f *Fact, memo map[string]*Term) *Fact {
	g := &Fact{Kind: f.Kind, Mask: f.Mask, Num: f.Num, K: f.K, Lvl: f.Lvl + 1}
	if ci.priv {
		g.Lvl = f.Lvl
	}
	if f.Kind == 's' {
		g.A = ci.substRaw(f.A)
	} else {
		g.A = subst(f.A, ci.sub(ci.val), memo)
	}
	if f.B != nil {
		g.B = subst(f.B, ci.sub(ci.val), memo)
	}
	for _, l := range f.Forall {
		g.Forall = append(g.Forall, subst(l, ci.sub(ci.val), memo))
	}
	if f.Kind == 'p' {
		b := g.B
		if f.Num {
			b = mkAdd(g.B, mkNumC(f.K.String()))
		}
		n := openBool(mkPair(g.A, b, f.Mask, f.Num))
		n.Forall, n.Lvl = g.Forall, g.Lvl
		return n.fin()
	}
	return g.fin()
}

// openBool: a comparison whose outcome is compared with true is that comparison.
func openBool(f *Fact) *Fact {
	for f.B.key == "true" && (f.Mask == EQ || f.Mask == NE) {
		t, want := f.A, f.Mask == EQ
		if t.Op == "u" && t.S == "!" {
			m := uint8(EQ)
			if want {
				m = NE
			}
			f = mkPair(t.A[0], tTrue, m, false)
			continue
		}
		m := map[string]uint8{"==": EQ, "!=": NE, "<": LT, "<=": LE, ">": GT, ">=": GE}[t.S]
		if t.Op != "b" || m == 0 {
			return f
		}
		if !want {
			m = ANY ^ m
		}
		g := mkPair(t.A[0], t.A[1], m, t.A[0].Num || t.A[1].Num)
		if g.B.key == "true" && t.A[0].key != "true" && t.A[1].key != "true" {
			return g
		}
		f = g
	}
	return f
}

func (fa *funcAn) importClass(st *State, ci *callInfo, cls byte, depth int) bool {
	cs := ci.sum.cls[cls]
	if cs == nil {
		return false
	}
	memo := map[string]*Term{}
	for _, f := range cs.facts.list() {
		if f.Lvl >= fa.a.maxLvl || f.A.depth > 14 {
			continue
		}
		g := ci.substFact(f, memo)
		if g.Kind == 'p' && g.Mask == 0 {
			continue
		}
		if g.Kind == 'p' {
			if fa.violatesAssume(g) && len(g.Forall) == 0 {
				return false
			}
		}
		if o, ok := st.facts[g.key]; ok && o.Lvl < g.Lvl {
			g.Lvl = o.Lvl
		}
		if !st.facts.add(g) {
			st.facts[g.key] = g
		}
	}
	return true
}

// private: an unexported function with a single calling function of its own package counts as
// part of that caller, so extracting or inlining a helper changes no call level.
func (w *World) private(f *ssa.Function) bool {
	if v, ok := w.privMemo[f]; ok {
		return v
	}
	v := false
	if f.Parent() != nil {
		v = true
	} else if o := f.Object(); o != nil && !o.Exported() {
		var from *ssa.Function
		v = true
		n := 0
		for _, ci := range w.callers[f] {
			if strings.HasSuffix(w.fset.Position(ci.Pos()).Filename, "_test.go") {
				continue
			}
			p := ci.Parent()
			for p.Parent() != nil {
				p = p.Parent()
			}
			n++
			if from != nil && from != p || p == f || p.Pkg != f.Pkg {
				v = false
			}
			from = p
		}
		if n == 0 {
			v = false
		}
	}
	w.privMemo[f] = v
	return v
}

func (fa *funcAn) importSites(ci *callInfo, ins ssa.Instruction, mode string) {
	step := 1
	if fa.a.w.private(ci.sum.fn) {
		step = 0
	}
	for _, s := range ci.sum.sites {
		if s.lvl >= 4 {
			continue
		}
		memo := map[string]*Term{}
		dead := false
		n := &Site{Name: s.Name, Full: s.Full, Pos: s.Pos, Fn: s.Fn, Instr: s.Instr, Mode: s.Mode, lvl: s.lvl + step,
			Chain: append([]string{fmt.Sprintf("%s at %s", objFull(ci.sum.fn), fa.a.w.pos(ins.Pos()))}, s.Chain...)}
		if mode != "" {
			n.Mode = mode
		}
		for _, x := range s.Args {
			n.Args = append(n.Args, subst(x, ci.sub(ci.val), memo))
		}
		n.Facts = fa.cur.facts.clone()
		for _, f := range s.Facts.list() {
			if f.Lvl >= fa.a.maxLvl {
				continue
			}
			g := ci.substFact(f, memo)
			if g.Kind == 'p' && len(g.Forall) == 0 && fa.violatesAssume(g) {
				dead = true
				break
			}
			if !n.Facts.add(g) {
				n.Facts[g.key] = g
				n.Dead = true
			}
		}
		if dead {
			continue
		}
		n.Dead = n.Dead || s.Dead
		fa.sites = append(fa.sites, n)
	}
}

func (fa *funcAn) invalidate(ins ssa.CallInstruction, c *ssa.CallCommon, callee *ssa.Function, raw, vals []*Term, full string) {
	w := fa.a.w
	var mods []map[*types.Var]bool
	if callee != nil && w.inRepo(callee) {
		mods = append(mods, w.mods[callee])
	} else if c.IsInvoke() {
		for _, f := range w.callees(c) {
			mods = append(mods, w.mods[f])
		}
	} else if callee == nil {
		// dynamic call: unknown target, assume the repo's own closures of this signature
	}
	for k, ce := range fa.cur.cells {
		if ce.fv == nil {
			continue
		}
		hit := false
		for _, m := range mods {
			if m[ce.fv] {
				hit = true
			}
		}
		if hit {
			root := ce.loc
			for root.Op == "f" || root.Op == "[]" {
				root = root.A[0]
			}
			if root.Op == "new" {
				esc := false
				for _, r := range raw {
					if r.contains(func(t *Term) bool { return t.key == root.key }) {
						esc = true
					}
				}
				if !esc {
					continue
				}
			}
			fa.cur.cells[k] = cell{ce.loc, typed(finish(&Term{Op: "phi", S: "mod:" + fa.name + "/" + insID(ins) + ":" + k, Num: ce.val.Num, Uns: ce.val.Uns}), nil), ce.fv}
		}
	}
	fa.havocArrays(ins, c.Args, raw[len(raw)-len(c.Args):])
	fa.havocScalars(ins, c.Args, raw[len(raw)-len(c.Args):], full, callee, callee == nil || !w.inRepo(callee))
	// decoders fill the object they are handed
	if decoders[lastName(full)] {
		for i, r := range raw {
			if r.Op == "new" || (r.Op == "f" && r.A[0].Op == "new") {
				for k, ce := range fa.cur.cells {
					if k != r.key && ce.loc.contains(func(t *Term) bool { return t.key == r.key }) {
						delete(fa.cur.cells, k)
					}
				}
				var src *Term = tNil
				if len(raw) > 0 {
					si := (i + len(raw) - 1) % len(raw)
					if i == 0 && len(raw) > 1 {
						si = 1
					}
					src = raw[si]
					// a byte buffer stands for the bytes it was made from
					if si < len(vals) && vals[si].Op == "lit" && vals[si].S == "ByteBuffer" {
						src = mkField(vals[si], "data")
					}
				}
				fa.cur.cells[r.key] = cell{r, mkCall("decoded", "decoded", src, mkC(typeNameOf(c, i))), nil}
			}
		}
	}
}

// havocArrays: a callee may fill any local array it is handed a slice of.
func (fa *funcAn) havocArrays(ins ssa.CallInstruction, args []ssa.Value, raw []*Term) {
	for i, r := range raw {
		switch args[i].Type().Underlying().(type) {
		case *types.Slice, *types.Pointer:
		default:
			continue
		}
		for r.Op == "slice" {
			r = r.A[0]
		}
		if r.Op != "new" {
			continue
		}
		if p, ok := args[i].Type().Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Array); !ok {
				continue
			}
		}
		for k, ce := range fa.cur.cells {
			if ce.loc.contains(func(t *Term) bool { return t.key == r.key }) {
				delete(fa.cur.cells, k)
			}
		}
		fa.cur.cells[r.key] = cell{r, finish(&Term{Op: "?", S: fa.name + "/arr" + insID(ins)}), nil}
	}
}

// havocScalars: a callee may set any local number, string or flag whose address it is handed;
// what binary.Read sets is the decoding of what it reads.
func (fa *funcAn) havocScalars(ins ssa.CallInstruction, args []ssa.Value, raw []*Term, full string, callee *ssa.Function, foreign bool) {
	for i, r := range raw {
		v := args[i]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		p, ok := v.Type().Underlying().(*types.Pointer)
		if !ok || r.Op != "new" {
			continue
		}
		if _, ok := p.Elem().Underlying().(*types.Basic); !ok {
			// an object without contents handed to foreign code is there to be filled
			_, isStruct := p.Elem().Underlying().(*types.Struct)
			ce, ok := fa.cur.cells[r.key]
			own := i == 0 && callee != nil && callee.Signature.Recv() != nil
			if !foreign || own || !isStruct || isBig(v.Type()) || !ok || ce.val != tZero || fa.hasSub(r) {
				continue
			}
		}
		val := finish(&Term{Op: "?", S: fa.name + "/set" + insID(ins)})
		if full == "encoding/binary.Read" {
			val = mkCall("decoded", "decoded", raw[0], mkC(typeName(p.Elem())))
		}
		fa.cur.cells[r.key] = cell{r, val, nil}
	}
}

func typeNameOf(c *ssa.CallCommon, i int) string {
	if c.IsInvoke() {
		i--
	}
	if i < 0 || i >= len(c.Args) {
		return "?"
	}
	v := c.Args[i]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return typeName(elemOf(mi.X.Type()))
	}
	return typeName(elemOf(v.Type()))
}

var decoders = map[string]bool{"DeserializeFromBytes": true, "Deserialize": true, "DeserializeWithTags": true, "Unmarshal": true, "DecodeBytes": true, "Decode": true, "ReadFull": true, "UnmarshalJSON": true}

func lastName(s string) string {
	if i := strings.LastIndexAny(s, ".)"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (fa *funcAn) fresh(ins ssa.CallInstruction, val *Term) *Term {
	n := finish(&Term{Op: "new", S: fa.name + "/" + insID(ins)})
	fa.cur.cells[n.key] = cell{n, val, nil}
	return n
}

func (fa *funcAn) special(ins ssa.CallInstruction, c *ssa.CallCommon, callee *ssa.Function, full string, raw, vals []*Term) bool {
	if identityCalls[full] && len(vals) > 0 {
		fa.setVal(ins, vals[0])
		return true
	}
	if strings.HasPrefix(full, "(*math/big.Int).") {
		m := callee.Name()
		z := raw[0]
		var r *Term
		switch {
		case m == "Set" || m == "SetUint64" || m == "SetInt64":
			r = vals[1]
		case m == "Add":
			r = mkAdd(vals[1], vals[2])
		case m == "Sub":
			r = mkSub(vals[1], vals[2])
		case bigMut[m] != "" && len(vals) >= 3:
			r = mkBin(bigMut[m], vals[1], vals[2])
		case bigMutOther[m]:
			r = mkCall(m, full, vals[1:]...)
			r.Num = true
		case m == "Uint64" || m == "Int64":
			fa.setVal(ins, mkOp("cv", strings.ToLower(m), vals[0]))
			return true
		default:
			fa.setVal(ins, mkCall(m, full, vals...))
			return true
		}
		if !r.Num {
			cp := *r
			cp.Num = true
			r = &cp
		}
		if fa.final && fa.a.interesting["big"+m] {
			fa.site("big"+m, full, vals[1:], ins, "")
		}
		fa.setCell(z, r, nil)
		if z.Op != "new" {
			fa.addSet(z, r)
			if fa.final && fa.a.interesting["bigmut"] {
				fa.site("bigmut", full, []*Term{z, r}, ins, "")
			}
		}
		if m == "SetString" {
			fa.setVal(ins, mkOp("tup", "", z, mkCall("SetStringOK", full, vals[1:]...)))
		} else {
			fa.setVal(ins, z)
		}
		return true
	}
	switch full {
	case "math/big.NewInt":
		v := vals[0]
		cp := *v
		cp.Num = true
		fa.setVal(ins, fa.fresh(ins, &cp))
		return true
	}
	return false
}

func (fa *funcAn) builtin(ins ssa.CallInstruction, c *ssa.CallCommon, bi *ssa.Builtin, mode string) {
	var vals []*Term
	for _, x := range c.Args {
		vals = append(vals, fa.arg(x))
	}
	switch bi.Name() {
	case "len":
		t := vals[0]
		if t.Op == "new" && len(t.A) == 2 {
			fa.setVal(ins, t.A[0])
		} else if t.Op == "lit" && t.S == "[]" {
			fa.setVal(ins, mkNumC(fmt.Sprint(len(t.A))))
		} else {
			fa.setVal(ins, mkLen(t))
		}
	case "cap":
		fa.setVal(ins, mkOp("cap", "", vals[0]))
	case "append":
		fa.event("append", "append", vals, ins, mode)
		fa.setVal(ins, mkCall("append", "append", vals...))
	case "delete", "close", "copy", "panic", "print", "println":
		fa.event(bi.Name(), bi.Name(), vals, ins, mode)
		if bi.Name() == "copy" {
			var raw []*Term
			for _, x := range c.Args {
				raw = append(raw, fa.term(x))
			}
			fa.havocArrays(ins, c.Args[:1], raw[:1])
			fa.setVal(ins, mkCall("copy", "copy", vals...))
		}
		if bi.Name() == "delete" {
			delete(fa.cur.cells, mkIndex(vals[0], vals[1]).key)
		}
	default:
		fa.setVal(ins, mkCall(bi.Name(), bi.Name(), vals...))
	}
}

// ---- constraints --------------------------------------------------------

func opMask(op token.Token) (uint8, bool) {
	switch op {
	case token.EQL:
		return EQ, true
	case token.NEQ:
		return NE, true
	case token.LSS:
		return LT, true
	case token.LEQ:
		return LE, true
	case token.GTR:
		return GT, true
	case token.GEQ:
		return GE, true
	}
	return 0, false
}

func (fa *funcAn) constrainBool(st *State, v ssa.Value, want bool, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x) == mkBool(want)
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return fa.constrainBool(st, x.X, !want, depth)
		}
	case *ssa.BinOp:
		if m, ok := opMask(x.Op); ok {
			if !want {
				m = ANY ^ m
			}
			return fa.constrainCmp(st, x.X, x.Y, m, depth)
		}
	case *ssa.Phi:
		t := fa.term(x)
		if t.Op == "phi" && depth < 5 {
			return fa.alternatives(st, x, func(s *State, e ssa.Value) bool { return fa.constrainBool(s, e, want, depth+1) })
		}
	}
	if !fa.ssaFact(st, v, tTrue, want) {
		return false
	}
	return fa.constrainTermBool(st, fa.term(v), want)
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (fa *funcAn) ssaFact(st *State, v ssa.Value, c *Term, eq bool) bool {
	if _, ok := v.(ssa.Instruction); !ok {
		if _, ok := v.(*ssa.Parameter); !ok {
			return true
		}
	}
	m := NE
	if eq {
		m = EQ
	}
	v = canonValue(v)
	f := mkPair(finish(&Term{Op: "ssa", S: v.Name()}), c, m, false)
	return st.facts.add(f)
}

// canonValue: the value a load of a local variable yields, when a single store reaches it.
func canonValue(v ssa.Value) ssa.Value {
	for i := 0; i < 5; i++ {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return v
		}
		al, ok := ld.X.(*ssa.Alloc)
		if !ok {
			return v
		}
		sv := lastStore(ld, al)
		if sv == nil {
			return v
		}
		if _, ok := sv.(ssa.Instruction); !ok {
			return v
		}
		v = sv
	}
	return v
}

func (fa *funcAn) alternatives(st *State, phi *ssa.Phi, k func(*State, ssa.Value) bool) bool {
	b := phi.Block()
	if fa.altBusy[phi] || len(fa.altBusy) > 6 {
		return true // a value defined in terms of itself: nothing more is known
	}
	if fa.altBusy == nil {
		fa.altBusy = map[*ssa.Phi]bool{}
	}
	fa.altBusy[phi] = true
	defer delete(fa.altBusy, phi)
	var acc Facts
	n := 0
	for i, e := range phi.Edges {
		p := b.Preds[i]
		s := fa.edgeState(p, b, i)
		if s == nil {
			continue
		}
		if !k(s, e) {
			continue
		}
		n++
		if acc == nil {
			acc = s.facts
		} else {
			acc = joinFacts(acc, s.facts)
		}
	}
	if n == 0 {
		return false
	}
	if fa.loops[b] != nil { // values of other iterations: do not carry path facts
		return true
	}
	for _, f := range acc.list() {
		if !st.facts.add(f) {
			st.facts[f.key] = f
		}
	}
	return true
}

func (fa *funcAn) contentIn(st *State, v ssa.Value) *Term {
	old := fa.cur
	fa.cur = st
	t := fa.arg(v)
	fa.cur = old
	return t
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && constTerm(c) == tNil
}

func (fa *funcAn) constrainCmp(st *State, x, y ssa.Value, m uint8, depth int) bool {
	if isNilConst(x) {
		x, y = y, x
	}
	if isNilConst(y) {
		return fa.constrainNil(st, x, m == EQ, depth)
	}
	if c, ok := y.(*ssa.Const); ok {
		if t := constTerm(c); t == tTrue || t == tFalse {
			want := (t == tTrue) == (m == EQ)
			return fa.constrainBool(st, x, want, depth)
		}
	}
	if c, ok := x.(*ssa.Const); ok {
		if t := constTerm(c); t == tTrue || t == tFalse {
			want := (t == tTrue) == (m == EQ)
			return fa.constrainBool(st, y, want, depth)
		}
	}
	num, _ := numKind(x.Type())
	if isBig(x.Type()) {
		num = false // pointer identity
	}
	// enumerated value merged from constants: expand
	if phi, ok := x.(*ssa.Phi); ok && depth < 4 && fa.term(x).Op == "phi" {
		if _, ok := y.(*ssa.Const); ok {
			return fa.alternatives(st, phi, func(s *State, e ssa.Value) bool { return fa.constrainCmp(s, e, y, m, depth+1) }) &&
				fa.constrainTermCmp(st, fa.contentIn(st, x), fa.contentIn(st, y), m, num)
		}
	}
	return fa.constrainTermCmp(st, fa.contentIn(st, x), fa.contentIn(st, y), m, num)
}

func isCmpCall(t *Term) (a, b *Term, ok bool) {
	if t.Op != "call" {
		return
	}
	switch {
	case t.S == "Cmp" && len(t.A) == 2:
		return t.A[0], t.A[1], true
	case t.Full == "bytes.Compare":
		return t.A[0], t.A[1], true
	case t.S == "Sign" && len(t.A) == 1:
		return t.A[0], mkNumC("0"), true
	}
	return
}

// bitLen: the comparison of x.BitLen() with 0 says whether x is 0.
func bitLen(a *Term) *Term {
	if a.Op == "call" && a.S == "BitLen" && len(a.A) == 1 && strings.Contains(a.Full, "big") {
		return a.A[0]
	}
	return nil
}

func (fa *funcAn) constrainTermCmp(st *State, a, b *Term, m uint8, num bool) bool {
	if _, _, ok := isCmpCall(b); ok {
		a, b, m = b, a, flip(m)
	}
	if x := bitLen(b); x != nil {
		a, b, m = b, a, flip(m)
	}
	if x := bitLen(a); x != nil {
		if v, ok := isIntConst(b); ok && v.Sign() == 0 {
			switch m {
			case EQ, LT | EQ:
				return fa.addPair(st, mkPair(x, mkNumC("0"), EQ, true))
			case GT, LT | GT:
				return fa.addPair(st, mkPair(x, mkNumC("0"), LT|GT, true))
			}
		}
	}
	if x, y, ok := isCmpCall(a); ok {
		if v, ok := isIntConst(b); ok {
			var mm uint8
			for i, bit := range []uint8{LT, EQ, GT} {
				r := int64(i - 1)
				c := v.Int64()
				if (r < c && m&LT != 0) || (r == c && m&EQ != 0) || (r > c && m&GT != 0) {
					mm |= bit
				}
			}
			if mm == 0 {
				return false
			}
			isNum := a.Full != "bytes.Compare"
			return fa.addPair(st, mkPair(x, y, mm, isNum))
		}
	}
	return fa.addPair(st, mkPair(a, b, m, num))
}

func (fa *funcAn) constrainNil(st *State, v ssa.Value, isNil bool, depth int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return isNilConst(x) == isNil
	case *ssa.MakeInterface:
		return !isNil
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr:
		return !isNil
	case *ssa.ChangeInterface:
		return fa.constrainNil(st, x.X, isNil, depth)
	case *ssa.ChangeType:
		return fa.constrainNil(st, x.X, isNil, depth)
	case *ssa.Phi:
		t := fa.term(x)
		if t.Op == "phi" && depth < 5 {
			if !fa.alternatives(st, x, func(s *State, e ssa.Value) bool { return fa.constrainNil(s, e, isNil, depth+1) }) {
				return false
			}
			// fall through to record the fact on the phi itself
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && isErr(x.Type()) && strings.HasPrefix(strings.ToLower(g.Name()), "err") {
				return !isNil
			}
			if al, ok := x.X.(*ssa.Alloc); ok && depth < 5 {
				if sv := lastStore(x, al); sv != nil {
					return fa.constrainNil(st, sv, isNil, depth+1)
				}
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && isErr(x.Type()) {
			switch f.RelString(nil) {
			case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
				return !isNil
			}
		}
	}
	if !fa.ssaFact(st, v, tNil, isNil) {
		return false
	}
	m := NE
	if isNil {
		m = EQ
	}
	return fa.addPair(st, mkPair(fa.term(v), tNil, m, false))
}

// lastStore: the value stored to the local variable al that reaches the load ld along
// the only path to it, when no closure assigns the variable.
func lastStore(ld *ssa.UnOp, al *ssa.Alloc) ssa.Value {
	var sv ssa.Value
	before := ssa.Instruction(ld)
	for b, n := ld.Block(), 0; b != nil && n < 50 && sv == nil; n++ {
		for _, in := range b.Instrs {
			if in == before {
				break
			}
			if s, ok := in.(*ssa.Store); ok && s.Addr == al {
				sv = s.Val
			}
		}
		if len(b.Preds) != 1 {
			break
		}
		b, before = b.Preds[0], nil
	}
	if sv == nil {
		return nil
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == al {
				return nil
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == al {
					fv := r.Fn.(*ssa.Function).FreeVars[i]
					for _, q := range *fv.Referrers() {
						if _, ok := q.(*ssa.UnOp); !ok {
							return nil
						}
					}
				}
			}
		default:
			return nil
		}
	}
	return sv
}

func isErr(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func (fa *funcAn) constrainTermBool(st *State, t *Term, want bool) bool {
	switch {
	case t.Op == "c":
		return t.key == mkBool(want).key
	case t.Op == "u" && t.S == "!":
		return fa.constrainTermBool(st, t.A[0], !want)
	case t.Op == "b":
		var m uint8
		switch t.S {
		case "==":
			m = EQ
		case "!=":
			m = NE
		case "<":
			m = LT
		case "<=":
			m = LE
		case ">":
			m = GT
		case ">=":
			m = GE
		}
		if m != 0 {
			if !want {
				m = ANY ^ m
			}
			for i := 0; i < 2; i++ {
				if t.A[i].key == "true" || t.A[i].key == "false" {
					return fa.constrainTermBool(st, t.A[1-i], (t.A[i].key == "true") == (m == EQ))
				}
			}
			return fa.constrainTermCmp(st, t.A[0], t.A[1], m, t.A[0].Num || t.A[1].Num)
		}
	case t.Op == "call" && (t.Full == "bytes.Equal" || t.Full == "reflect.DeepEqual" || t.Full == "crypto/hmac.Equal") && len(t.A) == 2:
		m := NE
		if want {
			m = EQ
		}
		return fa.addPair(st, mkPair(t.A[0], t.A[1], m, false))
	}
	m := NE
	if want {
		m = EQ
	}
	return fa.addPair(st, mkPair(t, tTrue, m, false))
}

func hasCall(f *Fact, loops bool) bool {
	p := func(t *Term) bool { return t.Op == "call" || t.Op == "phi" && loops || t.Op == "?" }
	return f.A.contains(p) || f.B.contains(p)
}

func (fa *funcAn) violatesAssume(f *Fact) bool {
	for _, p := range fa.given {
		if ok, m := p.pairMatch(f); ok && m == 0 {
			return true
		}
	}
	for _, p := range fa.a.assume {
		if ok, m := p.pairMatch(f); ok && m == 0 {
			return true
		}
	}
	return fa.outer != nil && fa.outer(f)
}

// specialise: the summary of a helper under the case assumptions of its caller.
func (fa *funcAn) specialise(callee *ssa.Function, ci *callInfo, ins ssa.CallInstruction) *Summary {
	a := fa.a
	if a.inprog[callee] || a.spDepth > 3 || len(callee.Blocks) > 200 {
		return nil
	}
	key := fmt.Sprintf("%p", ins)
	var ks []string
	for n, v := range ci.val {
		ks = append(ks, n+"="+v.key)
	}
	for n, v := range ci.cells {
		ks = append(ks, n+":"+v.key)
	}
	sort.Strings(ks)
	key += strings.Join(ks, ";")
	if s, ok := fa.special_[key]; ok {
		return s
	}
	if fa.special_ == nil {
		fa.special_ = map[string]*Summary{}
	}
	a.inprog[callee] = true
	a.spDepth++
	f0 := a.newFunc(callee)
	f0.run()
	f1 := a.newFunc(callee)
	f1.fixedPhi = f0.phiVal
	me := *ci
	me.memo = nil
	f1.outer = func(f *Fact) bool {
		if f.Kind != 'p' || len(f.Forall) > 0 {
			return false
		}
		return fa.violatesAssume(me.substFact(f, map[string]*Term{}))
	}
	f1.run()
	s := f1.summarize()
	a.spDepth--
	delete(a.inprog, callee)
	fa.special_[key] = s
	return s
}

var mentionedNames map[string]map[string]bool

// helper: a function of the caller's package that no rule names, so its body counts as part of the caller.
func (w *World) helper(f, from *ssa.Function) bool {
	if f == nil || f.Blocks == nil || !w.inRepo(f) || pkgPathOf(f) != pkgPathOf(from) {
		return false
	}
	return !w.mentioned(f) && !keepCall[f.Name()]
}

// namesAny: does some rule speak about calls of this name?
func (w *World) namesAny(name string) bool {
	loadMentioned()
	return len(mentionedNames[name]) > 0
}

func (w *World) typesPkg(path string) *types.Package {
	for _, p := range w.pkgs {
		if p.PkgPath == path {
			return p.Types
		}
	}
	return nil
}

func loadMentioned() {
	if mentionedNames == nil {
		mentionedNames = map[string]map[string]bool{}
		es, _ := ruleFS.ReadDir("rules")
		re := regexp.MustCompile(`([A-Za-z_][A-Za-z0-9_]*)(\(|\s*$)`)
		for _, e := range es {
			if !strings.HasSuffix(e.Name(), ".rules") {
				continue
			}
			b, _ := ruleFS.ReadFile("rules/" + e.Name())
			pkg := ""
			for _, ln := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(ln, "#") {
					continue
				}
				if n := strings.TrimPrefix(ln, "fn "); n != ln {
					i := strings.LastIndex(n, "/") + 1
					if j := strings.Index(n[i:], "."); j >= 0 {
						pkg = n[:i+j]
					}
				}
				for _, m := range re.FindAllStringSubmatch(ln, -1) {
					if mentionedNames[m[1]] == nil {
						mentionedNames[m[1]] = map[string]bool{}
					}
					mentionedNames[m[1]][pkg] = true
				}
			}
		}
	}
}

// mentioned: does some rule of a package that can see this function speak about calls of its name?
func (w *World) mentioned(f *ssa.Function) bool {
	loadMentioned()
	ps := mentionedNames[f.Name()]
	if len(ps) == 0 {
		return false
	}
	if token.IsExported(f.Name()) {
		return true
	}
	callee := pkgPathOf(f)
	for p := range ps {
		if p == "" || p == callee || w.sees(modPath+"/"+p, modPath+"/"+callee) {
			return true
		}
	}
	return false
}

var seesMemo map[string]map[string]bool

// sees: does the package import the other, directly or not (or is it the same)?
func (w *World) sees(from, to string) bool {
	if seesMemo == nil {
		seesMemo = map[string]map[string]bool{}
	}
	m := seesMemo[from]
	if m == nil {
		m = map[string]bool{}
		seesMemo[from] = m
		var walk func(p *types.Package)
		walk = func(p *types.Package) {
			for _, q := range p.Imports() {
				if !m[q.Path()] {
					m[q.Path()] = true
					walk(q)
				}
			}
		}
		p := w.typesPkg(from)
		if p == nil {
			return true
		}
		walk(p)
	}
	return m[to] || w.typesPkg(from) == nil
}

// addPair conjoins a comparison and whatever it implies about callee exits.
func (fa *funcAn) addPair(st *State, f *Fact) bool {
	if f.Mask == 0 {
		return false
	}
	if fa.violatesAssume(f) {
		return false
	}
	// something larger than an unsigned quantity is not zero
	if f.Num && f.B.Op != "c" {
		if m, k := f.canon(); m == GE && k.Sign() > 0 && f.B.Uns {
			if fa.violatesAssume(mkPair(f.A, mkNumC("0"), GT, true)) {
				return false
			}
		} else if m == LE && k.Sign() < 0 && f.A.Uns {
			if fa.violatesAssume(mkPair(f.B, mkNumC("0"), GT, true)) {
				return false
			}
		}
	}
	if !st.facts.add(f) {
		if !hasCall(f, len(fa.loops) > 0) {
			return false
		}
		st.facts[f.key] = f
	}
	// class import
	var cls byte
	if f.B.key == "nil" {
		if f.Mask == EQ {
			cls = 'Z'
		} else if f.Mask == NE {
			cls = 'N'
		}
	} else if f.B.key == "true" {
		if f.Mask == EQ {
			cls = 'N'
		} else if f.Mask == NE {
			cls = 'Z'
		}
	}
	if cls == 'Z' && f.B.key == "nil" && f.A.Op == "g" {
		if i := strings.LastIndex(f.A.S, "."); strings.HasPrefix(strings.ToLower(f.A.S[i+1:]), "err") {
			return false
		}
	}
	if cls != 0 {
		t := f.A
		idx := -1
		if t.Op == "x" {
			fmt.Sscanf(t.S, "%d", &idx)
			t = t.A[0]
		}
		if t.Op == "call" {
			if cls == 'Z' && f.B.key == "nil" && (t.Full == "errors.New" || t.Full == "fmt.Errorf" || t.Full == "github.com/pkg/errors.New" || t.Full == "github.com/pkg/errors.Errorf") {
				return false
			}
			if ci := fa.infos[t.key]; ci != nil {
				n := ci.sum.fn.Signature.Results().Len()
				if (idx == -1 && n == 1) || idx == n-1 {
					if ci.sum.cls[cls] == nil {
						return false
					}
					return fa.importClass(st, ci, cls, 0)
				}
			}
		}
	}
	return true
}

// refine: when the returned error (or bool) was branched on before a merge, the
// exit of one class is analysed along the branch of that class only.
func (fa *funcAn) refine(r *retRec, cls byte) (*funcAn, *retRec) {
	if len(fa.forced) > 0 {
		return fa, r
	}
	last := r.res[len(r.res)-1]
	isb := isBool(last.Type())
	t := fa.term(last)
	if t.Op == "c" {
		return fa, r
	}
	rb := r.ins.Block()
	for _, b := range fa.fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == rb || !b.Dominates(rb) || fa.inLoop[b] != nil || fa.in[b] == nil {
			continue
		}
		br := -1
		cond := iff.Cond
		neg := false
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, true
		}
		if isb {
			if fa.val[cond] != nil && fa.val[cond].key == t.key {
				br = boolInt((cls == 'Z') != neg)
			}
		} else if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			x, y := bo.X, bo.Y
			if c, ok := x.(*ssa.Const); ok && c.Value == nil {
				x, y = y, x
			}
			if c, ok := y.(*ssa.Const); ok && c.Value == nil && fa.val[x] != nil && fa.val[x].key == t.key {
				// condition true means nil for ==
				br = boolInt((cls == 'Z') == (bo.Op == token.NEQ) != neg)
			}
		}
		if br < 0 {
			continue
		}
		// decided already when only one side reaches the return
		s0, s1 := b.Succs[0], b.Succs[1]
		if len(s0.Preds) == 1 && s0.Dominates(rb) || len(s1.Preds) == 1 && s1.Dominates(rb) {
			continue
		}
		k := forcedKey{b, br}
		f2 := fa.refined[k]
		if f2 == nil {
			f2 = fa.a.newFunc(fa.fn)
			f2.fixedPhi = fa.phiVal
			if fa.fixedPhi != nil {
				f2.fixedPhi = fa.fixedPhi
			}
			f2.given = fa.given
			f2.outer = fa.outer
			f2.forced = map[*ssa.BasicBlock]int{b: br}
			f2.run()
			if fa.refined == nil {
				fa.refined = map[forcedKey]*funcAn{}
			}
			fa.refined[k] = f2
		}
		for _, r2 := range f2.rets {
			if r2.ins == r.ins {
				return f2, r2
			}
		}
		return fa, nil
	}
	return fa, r
}

type forcedKey struct {
	b  *ssa.BasicBlock
	br int
}

// ---- summary ------------------------------------------------------------

func (fa *funcAn) summarize() *Summary {
	s := &Summary{fn: fa.fn, cls: map[byte]*ClassSum{}, sites: fa.sites, rets: len(fa.rets), live: map[*ssa.BasicBlock]bool{}}
	for b, st := range fa.in {
		if st != nil {
			s.live[b] = true
		}
	}
	nres := fa.fn.Signature.Results().Len()
	for _, cls := range []byte{'a', 'Z', 'N'} {
		if cls != 'a' {
			if nres == 0 {
				continue
			}
			switch u := fa.fn.Signature.Results().At(nres - 1).Type().Underlying().(type) {
			case *types.Basic:
				if u.Kind() != types.Bool {
					continue
				}
			case *types.Interface, *types.Pointer, *types.Slice, *types.Map:
			default:
				continue
			}
		}
		var cs *ClassSum
		for _, r := range fa.rets {
			fa, r := fa, r
			if cls != 'a' && len(r.res) > 0 {
				f2, r2 := fa.refine(r, cls)
				if r2 == nil {
					continue
				}
				fa, r = f2, r2
			}
			st := r.st.clone()
			if cls != 'a' && len(r.res) > 0 {
				last := r.res[len(r.res)-1]
				ok := false
				if b, isb := last.Type().Underlying().(*types.Basic); isb && b.Kind() == types.Bool {
					ok = fa.constrainBool(st, last, cls == 'N', 0)
				} else {
					ok = fa.constrainNil(st, last, cls == 'Z', 0)
				}
				if !ok {
					continue
				}
			}
			var res []*Term
			var nn []bool
			for _, v := range r.res {
				t := fa.contentIn(st, v)
				if isBool(v.Type()) && t != nil && t.Op != "c" {
					if !fa.constrainBool(st.clone(), v, true, 0) {
						t = mkC("false")
					} else if !fa.constrainBool(st.clone(), v, false, 0) {
						t = mkC("true")
					}
				}
				res = append(res, t)
				nn = append(nn, fa.provablyNonNil(st, v, r.ins.Block()))
			}
			cells := map[string]cell{}
			for k, c := range st.cells {
				root := c.loc
				for root.Op == "f" || root.Op == "[]" {
					root = root.A[0]
				}
				if root.Op == "p" && c.loc.Op != "p" || root.Op == "p" && (strings.HasPrefix(root.S, "fv_") || fa.scalarPtr(root.S)) {
					v := c.val
					if v.Op == "new" && c.fv != nil {
						old := fa.cur
						fa.cur = st
						v = fa.content(v, c.fv.Type())
						fa.cur = old
					}
					cells[k] = cell{c.loc, v, c.fv}
				}
			}
			parts := fa.exits(st, r, cls, res, nn)
			if cs == nil {
				cs = &ClassSum{facts: exportFacts(st.facts), results: append([]*Term(nil), res...), cells: cells, nonnil: append([]bool(nil), nn...), parts: parts}
			} else {
				cs.parts = append(cs.parts, parts...)
				cs.facts = joinFacts(cs.facts, exportFacts(st.facts))
				for i := range cs.nonnil {
					cs.nonnil[i] = cs.nonnil[i] && nn[i]
				}
				for i := range cs.results {
					if cs.results[i] != nil && (i >= len(res) || res[i] == nil || res[i].key != cs.results[i].key) {
						cs.results[i] = nil
					}
				}
				for k, c := range cs.cells {
					if o, ok := cells[k]; !ok || o.val.key != c.val.key {
						cs.cells[k] = cell{c.loc, finish(&Term{Op: "phi", S: "out:" + fa.name + ":" + k, Num: c.val.Num}), c.fv}
					}
				}
				for k, c := range cells {
					if _, ok := cs.cells[k]; !ok {
						cs.cells[k] = cell{c.loc, finish(&Term{Op: "phi", S: "out:" + fa.name + ":" + k, Num: c.val.Num}), c.fv}
					}
				}
			}
		}
		if cs != nil {
			s.cls[cls] = cs
		}
	}
	for _, x := range s.sites {
		x.Facts = exportFacts(x.Facts)
	}
	return s
}

// exits: the separate exits behind one return; a return that passes on the outcome of a helper
// has the exits of the helper.
func (fa *funcAn) exits(st *State, r *retRec, cls byte, res []*Term, nn []bool) []*ClassSum {
	one := []*ClassSum{{facts: exportFacts(st.facts), results: res, nonnil: nn}}
	if cls == 'a' || len(r.res) == 0 {
		return one
	}
	last := r.res[len(r.res)-1]
	t := fa.term(last)
	idx := -1
	if t.Op == "x" {
		fmt.Sscanf(t.S, "%d", &idx)
		t = t.A[0]
	}
	if t.Op != "call" {
		return one
	}
	ci := fa.infos[t.key]
	if ci == nil || !fa.a.w.helper(ci.sum.fn, fa.fn) {
		return one
	}
	n := ci.sum.fn.Signature.Results().Len()
	if !(idx == -1 && n == 1 || idx == n-1) || ci.sum.cls[cls] == nil {
		return one
	}
	ps := ci.sum.cls[cls].parts
	if len(ps) < 2 || len(ps) > 8 {
		return one
	}
	var out []*ClassSum
	for _, p := range ps {
		s2 := st.clone()
		tmp := *ci
		sm := *ci.sum
		sm.cls = map[byte]*ClassSum{cls: p}
		tmp.sum = &sm
		fa.importClass(s2, &tmp, cls, 0)
		out = append(out, &ClassSum{facts: exportFacts(s2.facts), results: res, nonnil: nn})
	}
	return out
}

// scalarPtr: parameter n points at a basic value or a big.Int.
func (fa *funcAn) scalarPtr(n string) bool {
	ps := fa.fn.Params
	i := -1
	if fa.fn.Signature.Recv() != nil {
		if n == "recv" {
			i = 0
		} else if _, err := fmt.Sscanf(n, "p%d", &i); err == nil {
			i++
		}
	} else if _, err := fmt.Sscanf(n, "p%d", &i); err != nil {
		return false
	}
	if i < 0 || i >= len(ps) {
		return false
	}
	pt, ok := ps[i].Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if isBig(ps[i].Type()) {
		return true
	}
	_, ok = pt.Elem().Underlying().(*types.Basic)
	return ok
}

func exportFacts(fs Facts) Facts {
	r := Facts{}
	for k, f := range fs {
		if f.A.Op == "ssa" {
			continue
		}
		r[k] = f
	}
	return r
}

func paramRooted(t *Term) bool {
	for t.Op == "f" || t.Op == "[]" {
		t = t.A[0]
	}
	return t.Op == "p" || t.Op == "call" || t.Op == "x" || t.Op == "phi"
}

// provablyNonNil: v cannot be nil when control reaches block rb in state st.
func (fa *funcAn) provablyNonNil(st *State, v ssa.Value, rb *ssa.BasicBlock) bool {
	switch v.Type().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
	default:
		return false
	}
	if !fa.constrainNil(st.clone(), v, true, 0) {
		return true
	}
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.TypeAssert:
			return !x.CommaOk
		}
		break
	}
	if refs := v.Referrers(); refs != nil && rb != nil {
		for _, in := range *refs {
			deref := false
			switch x := in.(type) {
			case *ssa.FieldAddr:
				deref = x.X == v
			case *ssa.UnOp:
				deref = x.X == v && x.Op == token.MUL
			}
			if deref && in.Block() != nil && in.Block().Dominates(rb) {
				return true
			}
		}
	}
	return false
}

// onlyOutPhis: the term is opaque only through values its callees may have left in memory.
func onlyOutPhis(t *Term) bool {
	switch t.Op {
	case "new", "?", "it", "mk", "iterate", "fold", "clo":
		return false
	case "phi":
		return strings.HasPrefix(t.S, "out:")
	}
	for _, a := range t.A {
		if a.opq && !onlyOutPhis(a) {
			return false
		}
	}
	return t.Op != "call" || len(t.A) > 0
}

// copiedMap: the map the callee returns a complete copy of, if it does
func copiedMap(callee *ssa.Function, fs map[string]*Fact, r *Term) *Term {
	n := 0
	for _, b := range callee.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				n++
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					return nil
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	for _, f := range fs {
		if f.Kind != 's' || len(f.Forall) != 1 || len(f.A.A) != 2 || f.B == nil || f.A.Op != f.B.Op || len(f.B.A) != 2 {
			continue
		}
		m := f.B.A[0]
		if f.A.A[0].key == r.key && f.A.A[1].key == f.B.A[1].key && f.A.A[1].Op == "mk" && f.A.A[1].A[0].key == m.key && len(f.Forall[0].A) == 1 && f.Forall[0].A[0].key == m.key {
			return m
		}
	}
	return nil
}
