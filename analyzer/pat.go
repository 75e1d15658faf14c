package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

type env map[string]*Term

func (e env) with(k string, t *Term) env {
	n := make(env, len(e)+1)
	for a, b := range e {
		n[a] = b
	}
	n[k] = t
	return n
}

// pat is a parsed fact pattern.
type pat struct {
	src    string
	kind   byte // 'p','c','s'
	A, B   *Term
	mask   uint8
	num    bool
	atLst  bool
	forall []*Term
	alts   []*pat // or(...)
	not    bool
	an     *Analysis
}

func (p *pat) String() string { return p.src }

type patCtx struct {
	w   *World
	pkg *types.Package
}

func parsePat(w *World, fn *ssa.Function, src string) *pat {
	c := &patCtx{w: w}
	if fn != nil {
		c.pkg = fnPkg(fn)
	}
	s := strings.TrimSpace(src)
	p := &pat{src: src}
	if strings.HasPrefix(s, "~") {
		p.atLst = true
		s = strings.TrimSpace(s[1:])
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("pattern %q: %v", src, err))
	}
	c.fact(p, e)
	return p
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (c *patCtx) fact(p *pat, e ast.Expr) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		c.fact(p, x.X)
		return
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			p.kind, p.A, p.B, p.mask = 'p', c.term(x.X), tTrue, NE
			return
		}
	case *ast.BinaryExpr:
		if m, ok := opMask(x.Op); ok {
			a, b := c.term(x.X), c.term(x.Y)
			p.num = true
			p.kind, p.A, p.B, p.mask = 'p', a, b, m
			for _, t := range []*Term{a, b} {
				if t.key == "nil" || t.key == "true" || t.key == "false" || (t.Op == "c" && strings.HasPrefix(t.S, `"`)) {
					p.num = false
				}
			}
			if p.B.key == "false" {
				p.B = tTrue
				p.mask = ANY ^ p.mask
			}
			return
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			switch id.Name {
			case "called":
				p.kind, p.A = 'c', c.term(x.Args[0])
				return
			case "set":
				p.kind, p.A, p.B = 's', c.term(x.Args[0]), c.term(x.Args[1])
				return
			case "forall":
				p.forall = append(p.forall, c.term(x.Args[0]))
				c.fact(p, x.Args[1])
				return
			case "paired":
				p.kind, p.A, p.B = 'q', c.term(x.Args[0]), c.term(x.Args[1])
				return
			case "or":
				for _, a := range x.Args {
					q := &pat{src: p.src, atLst: p.atLst}
					c.fact(q, a)
					p.alts = append(p.alts, q)
				}
				return
			case "ok":
				t := c.term(x.Args[0])
				q := &pat{src: p.src, kind: 'p', A: t, B: tNil, mask: EQ, forall: p.forall}
				r := &pat{src: p.src, kind: 'p', A: mkOp("x", "?", t), B: tNil, mask: EQ, forall: p.forall}
				p.alts = []*pat{q, r}
				return
			}
		}
	}
	p.kind, p.A, p.B, p.mask = 'p', c.term(e), tTrue, EQ
}

func wild(name string) *Term { return finish(&Term{Op: "*", S: name}) }

func (c *patCtx) term(e ast.Expr) *Term {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.term(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			return mkNumC(v.ExactString())
		}
		if x.Kind == token.STRING {
			v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			return mkC(fmt.Sprintf("%q", constant.StringVal(v)))
		}
	case *ast.Ident:
		n := x.Name
		switch n {
		case "nil":
			return tNil
		case "true":
			return tTrue
		case "false":
			return tFalse
		case "zero":
			return tZero
		case "_":
			return wild("")
		case "__":
			return finish(&Term{Op: "**"})
		case "it":
			return finish(&Term{Op: "it", Num: true})
		case "it2":
			return finish(&Term{Op: "it", S: "2", Num: true})
		case "recv":
			return mkP(n)
		case "self":
			return mkC(n)
		case "env": // the enclosing function's object: a captured variable or the receiver
			return finish(&Term{Op: "env"})
		}
		if len(n) == 4 && strings.HasPrefix(n, "ret") && n[3] >= '0' && n[3] <= '9' {
			return mkP(n)
		}
		if strings.HasPrefix(n, "fv_") || len(n) == 2 && n[0] == 'p' && n[1] >= '0' && n[1] <= '9' {
			return mkP(n)
		}
		if strings.HasPrefix(n, "func_") { // a function value: that method or function, or a closure around it
			return finish(&Term{Op: "fnval", S: n[5:]})
		}
		if strings.HasSuffix(n, "_") {
			return wild(strings.TrimSuffix(n, "_"))
		}
		if c.pkg != nil {
			if o := c.pkg.Scope().Lookup(n); o != nil {
				return objTerm(o)
			}
		}
		panic("pattern: unknown identifier " + n)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && !isTermIdent(id.Name) {
			if o := c.pkgObj(id.Name, x.Sel.Name); o != nil {
				return objTerm(o)
			}
			panic("pattern: cannot resolve " + id.Name + "." + x.Sel.Name)
		}
		return mkField(c.term(x.X), x.Sel.Name)
	case *ast.IndexExpr:
		return mkIndex(c.term(x.X), c.term(x.Index))
	case *ast.SliceExpr:
		lo, hi := tNil, tNil
		if x.Low != nil {
			lo = c.term(x.Low)
		}
		if x.High != nil {
			hi = c.term(x.High)
		}
		return mkOp("slice", "", c.term(x.X), lo, hi)
	case *ast.UnaryExpr:
		if x.Op == token.SUB {
			return mkSub(mkNumC("0"), c.term(x.X))
		}
		if x.Op == token.NOT {
			return mkOp("u", "!", c.term(x.X))
		}
	case *ast.BinaryExpr:
		return mkBin(x.Op.String(), c.term(x.X), c.term(x.Y))
	case *ast.CompositeLit:
		nm := ""
		switch t := x.Type.(type) {
		case *ast.Ident:
			nm = t.Name
		case *ast.ArrayType:
			nm = "[]"
		}
		t := &Term{Op: "lit", S: nm}
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				t.A = append(t.A, mkOp("kv", kv.Key.(*ast.Ident).Name, c.term(kv.Value)))
			} else {
				t.A = append(t.A, c.term(el))
			}
		}
		return finish(t)
	case *ast.CallExpr:
		var args []*Term
		if id, ok := x.Fun.(*ast.Ident); ok {
			for _, a := range x.Args {
				args = append(args, c.term(a))
			}
			n := id.Name
			switch {
			case n == "len":
				return mkLen(args[0])
			case n == "contains":
				return mkOp("contains", "", args...)
			case n == "list":
				return finish(&Term{Op: "lit", S: "[]", A: args})
			case n == "merged":
				return mkOp("merged", "", args...)
			case n == "either":
				return mkOp("either", "", args...)
			case n == "prev": // value of X one iteration earlier, started at args[0]
				x := subst(args[1], func(t *Term) *Term {
					if t.Op == "it" && t.S == "" {
						return mkSub(t, mkNumC("1"))
					}
					return nil
				}, map[string]*Term{})
				return mkOp("either", "", mkOp("rec", "", args[0], x), x)
			case n == "iterate":
				return mkOp("iterate", "", args...)
			case n == "fold":
				return mkOp("fold", "", args...)
			case n == "rec":
				return mkOp("rec", "", args...)
			case n == "mk":
				return mkOp("mk", "", args...)
			case n == "rng":
				return mkOp("range", "", args...)
			case len(n) == 2 && n[0] == 'r' && n[1] >= '0' && n[1] <= '9':
				return mkX(args[0], n[1:])
			case strings.HasPrefix(n, "cv_"):
				return mkOp("cv", n[3:], args...)
			}
			return mkCall(n, "", args...)
		}
		if se, ok := x.Fun.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && !isTermIdent(id.Name) {
				for _, a := range x.Args {
					args = append(args, c.term(a))
				}
				return mkCall(se.Sel.Name, id.Name+"."+se.Sel.Name, args...)
			}
			args = append(args, c.term(se.X))
			for _, a := range x.Args {
				args = append(args, c.term(a))
			}
			return mkCall(se.Sel.Name, "", args...)
		}
	}
	panic(fmt.Sprintf("pattern: unsupported expression %T", e))
}

func isTermIdent(n string) bool {
	return n == "recv" || n == "env" || len(n) == 4 && strings.HasPrefix(n, "ret") && n[3] >= '0' && n[3] <= '9' || n == "_" || n == "it" || n == "it2" || strings.HasPrefix(n, "fv_") || strings.HasSuffix(n, "_") || len(n) == 2 && n[0] == 'p' && n[1] >= '0' && n[1] <= '9'
}

func (c *patCtx) pkgObj(pkg, name string) types.Object {
	if c.pkg != nil {
		for _, im := range c.pkg.Imports() {
			if im.Name() == pkg {
				if o := im.Scope().Lookup(name); o != nil {
					return o
				}
			}
		}
	}
	for _, p := range c.w.pkgs {
		if p.Types.Name() == pkg {
			if o := p.Types.Scope().Lookup(name); o != nil {
				return o
			}
		}
	}
	for _, p := range c.w.pkgs {
		for _, im := range p.Types.Imports() {
			if im.Name() == pkg {
				if o := im.Scope().Lookup(name); o != nil {
					return o
				}
			}
		}
	}
	return nil
}

func objTerm(o types.Object) *Term {
	switch o := o.(type) {
	case *types.Const:
		v := o.Val()
		switch v.Kind() {
		case constant.Int:
			return mkNumC(v.ExactString())
		case constant.String:
			return mkC(fmt.Sprintf("%q", constant.StringVal(v)))
		case constant.Bool:
			return mkBool(constant.BoolVal(v))
		}
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			return mkNumC(i.ExactString())
		}
		return mkC(v.ExactString())
	case *types.Var:
		return finish(&Term{Op: "g", S: o.Pkg().Name() + "." + o.Name()})
	case *types.Func:
		return finish(&Term{Op: "fn", S: relPkg(o.Pkg().Path()) + "." + o.Name()})
	}
	panic("pattern: object " + o.String())
}

// ---- matching -----------------------------------------------------------

type cont func(env) bool

func callNameMatch(p, t *Term) bool {
	if p.S != t.S && p.S != "any" {
		return false
	}
	if p.Full == "" || p.Full == t.Full {
		return true
	}
	// pkg.Name pattern
	f := t.Full
	return strings.HasSuffix(f, "/"+p.Full) || f == p.Full || strings.HasSuffix(f, "iface:"+p.Full)
}

var closureFns sync.Map // objFull -> *ssa.Function, for every closure term made

// closureRuns: the function value is the named function, a method value of it, or a closure that
// calls nothing else.
func closureRuns(full, name string) bool {
	if s := strings.TrimSuffix(full, "$bound"); lastName("."+s) == name {
		return true
	}
	v, ok := closureFns.Load(full)
	if !ok || !strings.Contains(full, "$") {
		return false
	}
	found := false
	for _, b := range v.(*ssa.Function).Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := ci.Common().StaticCallee(); f == nil || f.Name() != name {
				return false
			}
			found = true
		}
	}
	return found
}

func match(p, t *Term, e env, k cont) bool {
	switch p.Op {
	case "*":
		if p.S == "" {
			return k(e)
		}
		if b, ok := e[p.S]; ok {
			if b.key == t.key {
				return k(e)
			}
			return false
		}
		return k(e.with(p.S, t))
	case "env":
		return t.Op == "p" && (t.S == "recv" || strings.HasPrefix(t.S, "fv_")) && k(e)
	case "contains":
		var try func(u *Term) bool
		try = func(u *Term) bool {
			if match(p.A[0], u, e, k) {
				return true
			}
			for _, a := range u.A {
				if try(a) {
					return true
				}
			}
			return false
		}
		return try(t)
	case "fnval":
		if t.Op == "clo" && closureRuns(t.S, p.S) {
			return k(e)
		}
		return false
	case "merged":
		if t.Op == "phi" && (strings.HasSuffix(t.S, ":"+p.A[0].key) || strings.Contains(t.S, ":"+p.A[0].key+"@")) || t.key == p.A[0].key {
			return k(e)
		}
		return false
	case "either":
		for _, a := range p.A {
			if match(a, t, e, k) {
				return true
			}
		}
		return false
	case "lin":
		return matchLin(toLin(p), toLin(t), e, k)
	case "c":
		if t.Op == "c" {
			if p.S == t.S {
				return k(e)
			}
			if p.S == "0" && t.S == "zero" || p.S == "zero" && t.S == "0" {
				return k(e)
			}
		}
		return false
	case "x":
		if t.Op != "x" {
			return false
		}
		if p.S != "?" && p.S != t.S {
			return false
		}
		return match(p.A[0], t.A[0], e, k)
	case "call":
		if t.Op != "call" || !callNameMatch(p, t) {
			return false
		}
		return matchArgs(p.A, t.A, e, k)
	case "lit":
		if t.Op != "lit" || p.S != t.S && p.S != "" {
			return false
		}
		if p.S == "[]" {
			return matchArgs(p.A, t.A, e, k)
		}
		var rec func(i int, e env) bool
		rec = func(i int, e env) bool {
			if i == len(p.A) {
				return k(e)
			}
			var v *Term
			for _, kv := range t.A {
				if kv.S == p.A[i].S {
					v = kv.A[0]
				}
			}
			if v == nil {
				v = tZero
			}
			return match(p.A[i].A[0], v, e, func(e env) bool { return rec(i+1, e) })
		}
		return rec(0, e)
	case "b":
		if t.Op != "b" || p.S != t.S {
			return false
		}
		if matchArgs(p.A, t.A, e, k) {
			return true
		}
		if commutative[p.S] {
			return matchArgs([]*Term{p.A[1], p.A[0]}, t.A, e, k)
		}
		return false
	}
	if p.Op != t.Op || p.S != t.S && !((p.Op == "mk" || p.Op == "iterate" || p.Op == "fold") && p.S == "") && !(p.Op == "it" && p.S == "") {
		return false
	}
	return matchArgs(p.A, t.A, e, k)
}

func matchArgs(ps, ts []*Term, e env, k cont) bool {
	if len(ps) > 0 && ps[len(ps)-1].Op == "**" {
		if len(ts) < len(ps)-1 {
			return false
		}
		ps = ps[:len(ps)-1]
		ts = ts[:len(ps)]
	}
	if len(ps) != len(ts) {
		return false
	}
	var rec func(i int, e env) bool
	rec = func(i int, e env) bool {
		if i == len(ps) {
			return k(e)
		}
		return match(ps[i], ts[i], e, func(e env) bool { return rec(i+1, e) })
	}
	return rec(0, e)
}

func linKeys(l linForm) []string {
	ks := make([]string, 0, len(l.m))
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// matchLin: equality of linear forms modulo binders.
func matchLin(p, t linForm, e env, k cont) bool {
	return matchLinK(p, t, e, func(e env, dk *big.Int) bool {
		if dk.Sign() != 0 {
			return false
		}
		return k(e)
	})
}

// matchLinK matches the atoms; dk = t.k - p.k is handed to k.
func matchLinK(p, t linForm, e env, k func(env, *big.Int) bool) bool {
	pk := linKeys(p)
	// concrete atoms first
	var conc, wilds []string
	for _, x := range pk {
		if p.t[x].Op == "*" {
			if b, ok := e[p.t[x].S]; ok && p.t[x].S != "" {
				// bound: substitute and restart
				np := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int).Set(p.k)}
				for _, y := range pk {
					if y == x {
						np.add(b, p.m[y])
					} else {
						np.addAtom(p.t[y], p.m[y])
					}
				}
				return matchLinK(np, t, e, k)
			}
			wilds = append(wilds, x)
		} else {
			conc = append(conc, x)
		}
	}
	tk := linKeys(t)
	used := map[string]bool{}
	var rec func(i int, e env) bool
	rec = func(i int, e env) bool {
		if i < len(conc) {
			for _, y := range tk {
				if used[y] || t.m[y] != p.m[conc[i]] {
					continue
				}
				used[y] = true
				if match(p.t[conc[i]], t.t[y], e, func(e env) bool { return rec(i+1, e) }) {
					return true
				}
				used[y] = false
			}
			return false
		}
		// wildcards
		rest := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int)}
		for _, y := range tk {
			if !used[y] {
				rest.m[y], rest.t[y] = t.m[y], t.t[y]
			}
		}
		dk := new(big.Int).Sub(t.k, p.k)
		switch len(wilds) {
		case 0:
			if len(rest.m) != 0 {
				return false
			}
			return k(e, dk)
		case 1:
			c := p.m[wilds[0]]
			ks := linKeys(rest)
			if len(ks) == 1 && rest.m[ks[0]] == c {
				if match(p.t[wilds[0]], rest.t[ks[0]], e, func(e env) bool { return k(e, dk) }) {
					return true
				}
			}
			if c == 1 || c == -1 {
				r := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int)}
				for y, v := range rest.m {
					r.m[y], r.t[y] = v*c, rest.t[y]
				}
				r.k.Mul(dk, big.NewInt(c))
				return match(p.t[wilds[0]], r.term(), e, func(e env) bool { return k(e, new(big.Int)) })
			}
			return false
		default:
			ks := linKeys(rest)
			if len(ks) != len(wilds) {
				return false
			}
			var perm func(i int, e env) bool
			u2 := map[string]bool{}
			perm = func(i int, e env) bool {
				if i == len(wilds) {
					return k(e, dk)
				}
				for _, y := range ks {
					if u2[y] || rest.m[y] != p.m[wilds[i]] {
						continue
					}
					u2[y] = true
					if match(p.t[wilds[i]], rest.t[y], e, func(e env) bool { return perm(i+1, e) }) {
						return true
					}
					u2[y] = false
				}
				return false
			}
			return perm(0, e)
		}
	}
	return rec(0, e)
}

func neg(l linForm) linForm {
	r := linForm{m: map[string]int64{}, t: l.t, k: new(big.Int).Neg(l.k)}
	for k, v := range l.m {
		r.m[k] = -v
	}
	return r
}

// interval [lo,hi] of D = A-B-… (nil = unbounded), or NE mark
type interval struct {
	lo, hi *big.Int
	ne     bool
	neK    *big.Int
}

func maskInterval(mask uint8, k *big.Int, num bool) interval {
	one := big.NewInt(1)
	switch mask {
	case EQ:
		return interval{lo: k, hi: k}
	case LE:
		return interval{hi: k}
	case GE:
		return interval{lo: k}
	case LT:
		return interval{hi: new(big.Int).Sub(k, one)}
	case GT:
		return interval{lo: new(big.Int).Add(k, one)}
	case NE:
		return interval{ne: true, neK: k}
	}
	return interval{}
}

// find looks for the pattern among fs; every way of matching is offered to k.
func (p *pat) find(fs []*Fact, e env, k func(env, []*Fact) bool) bool {
	if len(p.alts) > 0 {
		for _, a := range p.alts {
			if a.find(fs, e, k) {
				return true
			}
		}
		return false
	}
	if p.kind == 'q' {
		a, b := e[p.A.S], e[p.B.S]
		if a != nil && b != nil && pairedTerms(a, b, p.an) {
			return k(e, nil)
		}
		return false
	}
	if p.kind != 'p' {
		for _, f := range fs {
			if f.Kind != p.kind || len(f.Forall) != len(p.forall) {
				continue
			}
			f := f
			if matchArgs(p.forall, f.Forall, e, func(e env) bool {
				return match(p.A, f.A, e, func(e env) bool {
					if p.kind == 's' {
						return match(p.B, f.B, e, func(e env) bool { return k(e, []*Fact{f}) })
					}
					return k(e, []*Fact{f})
				})
			}) {
				return true
			}
		}
		return false
	}
	// pairs: non numeric orientation
	type hit struct {
		e  env
		iv interval
		fs []*Fact
	}
	groups := map[string]*hit{}
	var order []string
	for _, f := range fs {
		if f.Kind != 'p' || len(f.Forall) != len(p.forall) {
			continue
		}
		f := f
		matchArgs(p.forall, f.Forall, e, func(e env) bool {
			if !f.Num {
				for o := 0; o < 2; o++ {
					a, b, m := f.A, f.B, f.Mask
					if o == 1 {
						a, b, m = b, a, flip(m)
					}
					if match(p.A, a, e, func(e env) bool {
						return match(p.B, b, e, func(e env) bool {
							if m == p.mask || p.atLst && m&^p.mask == 0 {
								return k(e, []*Fact{f})
							}
							return false
						})
					}) {
						groups["done"] = &hit{}
						return true
					}
				}
				return false
			}
			if !p.num {
				return false
			}
			fl := toLin(f.A)
			fl.add(f.B, -1)
			pl := toLin(p.A)
			pl.add(p.B, -1)
			for o := 0; o < 2; o++ {
				g, m, kk := fl, f.Mask, f.K
				if o == 1 {
					g, m, kk = neg(fl), flip(m), new(big.Int).Neg(f.K)
				}
				// fact: g <m> kk ; pattern: pl + .. <mask> 0 where pl.k constant moves right
				pl2 := pl
				pl2.k = new(big.Int)
				matchLinK(pl2, g, e, func(e env, dk *big.Int) bool {
					key := envKey(e)
					iv := maskInterval(m, new(big.Int).Sub(kk, dk), true)
					h := groups[key]
					if h == nil {
						h = &hit{e: e}
						groups[key] = h
						order = append(order, key)
					}
					h.fs = append(h.fs, f)
					if iv.lo != nil && (h.iv.lo == nil || iv.lo.Cmp(h.iv.lo) > 0) {
						h.iv.lo = iv.lo
					}
					if iv.hi != nil && (h.iv.hi == nil || iv.hi.Cmp(h.iv.hi) < 0) {
						h.iv.hi = iv.hi
					}
					if iv.ne {
						h.iv.ne, h.iv.neK = true, iv.neK
					}
					return false
				})
			}
			return false
		})
		if groups["done"] != nil {
			return true
		}
	}
	pl := toLin(p.A)
	pl.add(p.B, -1)
	want := maskInterval(p.mask, new(big.Int).Neg(pl.k), true)
	for _, key := range order {
		h := groups[key]
		iv := h.iv
		// x != k at an interval end tightens it
		if iv.ne && iv.lo != nil && iv.lo.Cmp(iv.neK) == 0 {
			iv.lo = new(big.Int).Add(iv.lo, big.NewInt(1))
		}
		if iv.ne && iv.hi != nil && iv.hi.Cmp(iv.neK) == 0 {
			iv.hi = new(big.Int).Sub(iv.hi, big.NewInt(1))
		}
		if ivOK(iv, want, p.atLst) && k(h.e, h.fs) {
			return true
		}
	}
	// equal structs have equal fields
	if p.mask == EQ && p.A.Op == "f" && p.B.Op == "f" && p.A.S == p.B.S {
		q := *p
		q.A, q.B, q.num = p.A.A[0], p.B.A[0], false
		return q.find(fs, e, k)
	}
	return false
}

func ivOK(have, want interval, atLeast bool) bool {
	if want.ne {
		if have.ne && have.neK.Cmp(want.neK) == 0 {
			return true
		}
		return atLeast && (have.lo != nil && have.lo.Cmp(want.neK) > 0 || have.hi != nil && have.hi.Cmp(want.neK) < 0)
	}
	if want.lo != nil {
		if have.lo == nil {
			return false
		}
		c := have.lo.Cmp(want.lo)
		if c < 0 || c > 0 && !atLeast {
			return false
		}
	}
	if want.hi != nil {
		if have.hi == nil {
			return false
		}
		c := have.hi.Cmp(want.hi)
		if c > 0 || c < 0 && !atLeast {
			return false
		}
	}
	return true
}

func envKey(e env) string {
	ks := make([]string, 0, len(e))
	for k, v := range e {
		ks = append(ks, k+"="+v.key)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// pairMatch: does f speak about the assumption's operands, and what is left
// after conjoining both (0: contradiction).
func (p *pat) pairMatch(f *Fact) (bool, uint8) {
	if f.Kind != 'p' || len(f.Forall) > 0 || p.kind != 'p' {
		return false, ANY
	}
	if f.Num {
		if !p.num {
			return false, ANY
		}
		fl := toLin(f.A)
		fl.add(f.B, -1)
		pl := toLin(p.A)
		pl.add(p.B, -1)
		pk := new(big.Int).Neg(pl.k)
		pl.k = new(big.Int)
		hit, dead := false, false
		for o := 0; o < 2; o++ {
			g, m, kk := fl, f.Mask, f.K
			if o == 1 {
				g, m, kk = neg(fl), flip(m), new(big.Int).Neg(f.K)
			}
			matchLinK(pl, g, env{}, func(_ env, dk *big.Int) bool {
				hit = true
				a := maskInterval(m, new(big.Int).Sub(kk, dk), true)
				b := maskInterval(p.mask, pk, true)
				if disjoint(a, b) {
					dead = true
				}
				return true
			})
		}
		if dead {
			return true, 0
		}
		return hit, ANY
	}
	for o := 0; o < 2; o++ {
		a, b, m := f.A, f.B, f.Mask
		if o == 1 {
			a, b, m = b, a, flip(m)
		}
		if match(p.A, a, env{}, func(e env) bool { return match(p.B, b, e, func(env) bool { return true }) }) {
			return true, m & p.mask
		}
	}
	return false, ANY
}

func disjoint(a, b interval) bool {
	if a.ne && b.ne {
		return false
	}
	if b.ne {
		a, b = b, a
	}
	if a.ne {
		return b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) == 0 && b.lo.Cmp(a.neK) == 0
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return true
	}
	return b.lo != nil && a.hi != nil && b.lo.Cmp(a.hi) > 0
}

// pairedTerms: two merged values whose every source is a component of one and
// the same call result.
func pairedTerms(a, b *Term, an *Analysis) bool {
	if a.Op == "x" && b.Op == "x" && a.A[0].key == b.A[0].key {
		return true
	}
	if an == nil {
		return false
	}
	strip := func(s string) string {
		if i := strings.Index(s, "@"); i >= 0 {
			return s[:i]
		}
		return s
	}
	p, q := an.phiOf[strip(a.key)], an.phiOf[strip(b.key)]
	seen := map[[2]ssa.Value]bool{}
	var same func(x, y ssa.Value) bool
	same = func(x, y ssa.Value) bool {
		if seen[[2]ssa.Value{x, y}] {
			return true
		}
		seen[[2]ssa.Value{x, y}] = true
		for {
			if m, ok := x.(*ssa.ChangeInterface); ok {
				x = m.X
			} else if m, ok := x.(*ssa.TypeAssert); ok {
				x = m.X
			} else {
				break
			}
		}
		ex, ok1 := x.(*ssa.Extract)
		ey, ok2 := y.(*ssa.Extract)
		if ok1 && ok2 {
			return ex.Tuple == ey.Tuple
		}
		px, ok1 := x.(*ssa.Phi)
		py, ok2 := y.(*ssa.Phi)
		if !ok1 || !ok2 || px.Block() != py.Block() {
			return false
		}
		for i := range px.Edges {
			if !same(px.Edges[i], py.Edges[i]) {
				return false
			}
		}
		return true
	}
	return p != nil && q != nil && same(p, q)
}
