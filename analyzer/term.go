package main

import (
	"math/big"
	"sort"
	"strings"
)

// Term is a symbolic value: an access path, constant, call or arithmetic
// expression over the parameters of the function under analysis.
//
//	p    parameter / receiver / free variable (S = name)
//	c    constant (S = exact text, "nil", "zero", "true", "false")
//	g    package-level variable (S = pkg.Name)
//	f    field selection (S = field, A[0] = base)
//	[]   element (A[0] container, A[1] index or key)
//	call call (S = short callee name, Full = qualified name, A = receiver+args)
//	x    tuple component (S = index)
//	lin  canonical linear combination (Coef over A, K constant)
//	b,u  other binary / unary operators
//	it   zero-based iteration counter of a loop (S = loop id)
//	mk   key bound by a map range (A[0] = map, S = loop id)
//	phi,new,? opaque values (S = unique id)
//	lit  struct literal (S = type, A = kv terms)
//	kv   named component of a lit
//	len, cap, slice, cv, fn, tassert
//	*    (patterns only) wildcard; S = binder name, "" matches anything
//	**   (patterns only) rest of arguments
type Term struct {
	Op    string
	S     string
	Full  string
	A     []*Term
	Coef  []int64
	K     *big.Int
	Num   bool // integer valued
	Uns   bool // unsigned / non-negative
	key   string
	opq   bool // mentions an opaque or loop-local symbol
	depth int
}

func (t *Term) Key() string { return t.key }

func finish(t *Term) *Term {
	var b strings.Builder
	d := 0
	opq := t.Op == "phi" || t.Op == "new" || t.Op == "?" || t.Op == "it" || t.Op == "mk" || t.Op == "iterate" || t.Op == "fold"
	for _, a := range t.A {
		if a.opq {
			opq = true
		}
		if a.depth > d {
			d = a.depth
		}
	}
	t.depth = d + 1
	t.opq = opq
	switch t.Op {
	case "p", "g":
		b.WriteString(t.S)
	case "c":
		b.WriteString(t.S)
	case "f":
		b.WriteString(t.A[0].key)
		b.WriteByte('.')
		b.WriteString(t.S)
	case "[]":
		b.WriteString(t.A[0].key + "[" + t.A[1].key + "]")
	case "call":
		b.WriteString(t.S)
		b.WriteByte('(')
		for i, a := range t.A {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(a.key)
		}
		b.WriteByte(')')
	case "x":
		b.WriteString(t.A[0].key + "#" + t.S)
	case "lin":
		b.WriteByte('(')
		for i, a := range t.A {
			switch {
			case t.Coef[i] == 1 && i > 0:
				b.WriteString(" + ")
			case t.Coef[i] == -1:
				b.WriteString(" - ")
			case t.Coef[i] != 1:
				b.WriteString(" +" + big.NewInt(t.Coef[i]).String() + "*")
			}
			b.WriteString(a.key)
		}
		if t.K.Sign() != 0 {
			b.WriteString(" + " + t.K.String())
		}
		b.WriteByte(')')
	case "b":
		b.WriteString("(" + t.A[0].key + " " + t.S + " " + t.A[1].key + ")")
	case "it":
		b.WriteString("it" + t.S)
	case "kv":
		b.WriteString(t.S + ":" + t.A[0].key)
	case "lit":
		b.WriteString(t.S + "{")
		for i, a := range t.A {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(a.key)
		}
		b.WriteString("}")
	case "*":
		b.WriteString("_" + t.S)
	case "**":
		b.WriteString("__")
	default:
		b.WriteString(t.Op)
		if t.S != "" {
			b.WriteString(":" + t.S)
		}
		if len(t.A) > 0 {
			b.WriteByte('(')
			for i, a := range t.A {
				if i > 0 {
					b.WriteString(", ")
				}
				b.WriteString(a.key)
			}
			b.WriteByte(')')
		}
	}
	t.key = b.String()
	if len(t.key) > 4000 { // keep keys bounded: degrade to an opaque digest
		t.key = t.key[:200] + "…" + hashStr(t.key)
	}
	return t
}

func hashStr(s string) string {
	var h uint64 = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return big.NewInt(0).SetUint64(h).Text(36)
}

func mkP(name string) *Term               { return finish(&Term{Op: "p", S: name}) }
func mkC(s string) *Term                  { return finish(&Term{Op: "c", S: s}) }
func mkNumC(s string) *Term               { return finish(&Term{Op: "c", S: s, Num: true}) }
func mkOp(op, s string, a ...*Term) *Term { return finish(&Term{Op: op, S: s, A: a}) }

var tNil, tTrue, tFalse, tZero = mkC("nil"), mkC("true"), mkC("false"), mkC("zero")

func mkField(base *Term, name string) *Term {
	if name == "header" { // a block and its header carry the same header fields
		return base
	}
	switch base.Op {
	case "lit":
		for _, kv := range base.A {
			if kv.S == name {
				return kv.A[0]
			}
		}
		for _, kv := range base.A {
			if kv.S == "*" {
				return mkField(kv.A[0], name)
			}
		}
		if base.S != "[]" {
			return tZero
		}
	case "c":
		if base.S == "zero" {
			return tZero
		}
	}
	return finish(&Term{Op: "f", S: name, A: []*Term{base}})
}

func mkCall(short, full string, args ...*Term) *Term {
	return finish(&Term{Op: "call", S: short, Full: full, A: args})
}

func mkX(t *Term, i string) *Term { return finish(&Term{Op: "x", S: i, A: []*Term{t}}) }

func mkIndex(a, i *Term) *Term {
	// X[k:][i] == X[k+i]
	if a.Op == "slice" && len(a.A) == 3 && a.A[1] != nil {
		lo := a.A[1]
		if lo.Op == "c" && lo.S == "nil" {
			return mkIndex(a.A[0], i)
		}
		return mkIndex(a.A[0], mkAdd(i, lo))
	}
	return finish(&Term{Op: "[]", A: []*Term{a, i}})
}

func mkLen(a *Term) *Term {
	if a.Op == "slice" && len(a.A) == 3 {
		lo, hi := a.A[1], a.A[2]
		base := a.A[0]
		var h *Term
		if hi.S == "nil" && hi.Op == "c" {
			h = mkLen(base)
		} else {
			h = hi
		}
		if lo.Op == "c" && lo.S == "nil" {
			return h
		}
		return mkSub(h, lo)
	}
	return finish(&Term{Op: "len", A: []*Term{a}, Num: true, Uns: true})
}

func isIntConst(t *Term) (*big.Int, bool) {
	if t.Op != "c" {
		return nil, false
	}
	if t.S == "zero" && t.Num {
		return new(big.Int), true
	}
	v, ok := new(big.Int).SetString(t.S, 10)
	return v, ok
}

type linForm struct {
	m   map[string]int64
	t   map[string]*Term
	k   *big.Int
	uns bool
}

func toLin(t *Term) linForm {
	l := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int)}
	l.add(t, 1)
	return l
}

func (l *linForm) add(t *Term, c int64) {
	if v, ok := isIntConst(t); ok {
		l.k.Add(l.k, new(big.Int).Mul(v, big.NewInt(c)))
		return
	}
	if t.Op == "lin" {
		for i, a := range t.A {
			l.addAtom(a, t.Coef[i]*c)
		}
		l.k.Add(l.k, new(big.Int).Mul(t.K, big.NewInt(c)))
		return
	}
	l.addAtom(t, c)
}

func (l *linForm) addAtom(t *Term, c int64) {
	l.m[t.key] += c
	l.t[t.key] = t
	if l.m[t.key] == 0 {
		delete(l.m, t.key)
		delete(l.t, t.key)
	}
}

func (l linForm) term() *Term {
	keys := make([]string, 0, len(l.m))
	for k := range l.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return mkNumC(l.k.String())
	}
	if len(keys) == 1 && l.m[keys[0]] == 1 && l.k.Sign() == 0 {
		return l.t[keys[0]]
	}
	t := &Term{Op: "lin", K: l.k, Num: true}
	// positive terms first for readability and stable shape
	for pass := 0; pass < 2; pass++ {
		for _, k := range keys {
			if (l.m[k] > 0) == (pass == 0) {
				t.A = append(t.A, l.t[k])
				t.Coef = append(t.Coef, l.m[k])
			}
		}
	}
	return finish(t)
}

func mkAdd(a, b *Term) *Term { l := toLin(a); l.add(b, 1); return l.term() }
func mkSub(a, b *Term) *Term { l := toLin(a); l.add(b, -1); return l.term() }

var commutative = map[string]bool{"*": true, "&": true, "|": true, "^": true, "==": true, "!=": true, "&&": true, "||": true}

func mkBin(op string, a, b *Term) *Term {
	switch op {
	case "+":
		return mkAdd(a, b)
	case "-":
		return mkSub(a, b)
	}
	if va, ok := isIntConst(a); ok {
		if vb, ok := isIntConst(b); ok {
			r := new(big.Int)
			switch op {
			case "*":
				return mkNumC(r.Mul(va, vb).String())
			case "/":
				if vb.Sign() != 0 {
					return mkNumC(r.Quo(va, vb).String())
				}
			case "<<":
				if vb.IsUint64() && vb.Uint64() < 256 {
					return mkNumC(r.Lsh(va, uint(vb.Uint64())).String())
				}
			}
		}
	}
	if op == "*" {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if v, ok := isIntConst(p[0]); ok {
				if v.Cmp(big.NewInt(1)) == 0 {
					return p[1]
				}
				if p[1].Op == "lin" && v.IsInt64() { // k*(a+b)
					l := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int)}
					l.add(p[1], v.Int64())
					return l.term()
				}
				if v.IsInt64() && p[1].Op != "c" {
					l := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int)}
					l.add(p[1], v.Int64())
					return l.term()
				}
			}
		}
	}
	if commutative[op] && a.key > b.key {
		a, b = b, a
	}
	return finish(&Term{Op: "b", S: op, A: []*Term{a, b}, Num: op != "==" && op != "!="})
}

// subst rebuilds t applying f to every node bottom-up; f returns nil to keep.
func subst(t *Term, f func(*Term) *Term, memo map[string]*Term) *Term {
	if r, ok := memo[t.key]; ok {
		return r
	}
	var r *Term
	if v := f(t); v != nil {
		r = v
	} else if len(t.A) == 0 {
		r = t
	} else {
		ch := false
		na := make([]*Term, len(t.A))
		for i, a := range t.A {
			na[i] = subst(a, f, memo)
			if na[i].key != a.key {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, na)
		}
	}
	memo[t.key] = r
	return r
}

func rebuild(t *Term, na []*Term) *Term {
	switch t.Op {
	case "f":
		return mkField(na[0], t.S)
	case "[]":
		return mkIndex(na[0], na[1])
	case "len":
		return mkLen(na[0])
	case "lin":
		l := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int).Set(t.K)}
		for i, a := range na {
			l.add(a, t.Coef[i])
		}
		return l.term()
	case "b":
		return mkBin(t.S, na[0], na[1])
	case "x":
		return mkX(na[0], t.S)
	default:
		n := *t
		n.A = na
		return finish(&n)
	}
}

func (t *Term) contains(pred func(*Term) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.A {
		if a.contains(pred) {
			return true
		}
	}
	return false
}
