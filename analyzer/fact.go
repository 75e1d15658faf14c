package main

import (
	"math/big"
	"sort"
	"strings"
)

// Masks over the possible orderings of (A, B+K).
const (
	LT  uint8 = 1
	EQ  uint8 = 2
	GT  uint8 = 4
	LE        = LT | EQ
	GE        = GT | EQ
	NE        = LT | GT
	ANY       = LT | EQ | GT
)

// Fact is something that holds on every path to a program point.
// Pair:   A <mask> B + K
// Called: the call A has been made
// Set:    location A was last assigned B
type Fact struct {
	Kind   byte // 'p' 'c' 's'
	A, B   *Term
	K      *big.Int
	Mask   uint8
	Num    bool
	Forall []*Term // loop bounds, outermost first
	Lvl    int     // call levels below the function reporting it
	key    string
}

func (f *Fact) fin() *Fact {
	var b strings.Builder
	for _, l := range f.Forall {
		b.WriteString("∀<" + l.key + "> ")
	}
	switch f.Kind {
	case 'p':
		b.WriteString("p|" + f.A.key + "|" + f.B.key + "|" + f.K.String())
	case 'c':
		b.WriteString("c|" + f.A.key)
	case 's':
		b.WriteString("s|" + f.A.key)
	}
	f.key = b.String()
	return f
}

var maskStr = map[uint8]string{0: "⊥", LT: "<", EQ: "==", GT: ">", LE: "<=", GE: ">=", NE: "!=", ANY: "?"}

func (f *Fact) String() string {
	var b strings.Builder
	for _, l := range f.Forall {
		b.WriteString("forall it < " + l.key + ": ")
	}
	switch f.Kind {
	case 'p':
		r := f.B.key
		if f.K.Sign() != 0 {
			r += " + " + f.K.String()
		}
		b.WriteString(f.A.key + " " + maskStr[f.Mask] + " " + r)
	case 'c':
		b.WriteString("called " + f.A.key)
	case 's':
		b.WriteString("set " + f.A.key + " = " + f.B.key)
	}
	return b.String()
}

func flip(m uint8) uint8 {
	r := m & EQ
	if m&LT != 0 {
		r |= GT
	}
	if m&GT != 0 {
		r |= LT
	}
	return r
}

// mkPair builds the canonical comparison fact a <mask> b.
func mkPair(a, b *Term, mask uint8, num bool) *Fact {
	if !num && (a.Num || b.Num) {
		num = true
	}
	if a.key == "nil" || b.key == "nil" {
		num = false
	}
	zeroK := new(big.Int)
	if num {
		// canonicalise a - b
		l := toLin(a)
		l.add(b, -1)
		pos := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int)}
		neg := linForm{m: map[string]int64{}, t: map[string]*Term{}, k: new(big.Int)}
		for k, c := range l.m {
			if c > 0 {
				pos.m[k], pos.t[k] = c, l.t[k]
			} else {
				neg.m[k], neg.t[k] = -c, l.t[k]
			}
		}
		k := new(big.Int).Neg(l.k) // pos <mask> neg + k
		switch {
		case len(pos.m) == 0 && len(neg.m) == 0:
			f := &Fact{Kind: 'p', A: mkNumC("0"), B: mkNumC("0"), K: zeroK, Mask: mask, Num: true}
			var real uint8
			switch l.k.Sign() {
			case -1:
				real = LT
			case 0:
				real = EQ
			case 1:
				real = GT
			}
			f.Mask = mask & real
			return f.fin()
		case len(pos.m) == 0:
			pos, neg, k, mask = neg, pos, new(big.Int).Neg(k), flip(mask)
		case len(neg.m) > 0:
			if pos.term().key > neg.term().key {
				pos, neg, k, mask = neg, pos, new(big.Int).Neg(k), flip(mask)
			}
		}
		f := &Fact{Kind: 'p', A: pos.term(), B: neg.term(), K: k, Mask: mask, Num: true}
		// unsigned tightening against zero
		if len(neg.m) == 0 && f.A.Uns {
			if k.Sign() == 0 {
				f.Mask &= GE
			}
			if k.Sign() < 0 {
				f.Mask &= GT
			}
		}
		return f.fin()
	}
	if a.Op == "c" && b.Op == "c" {
		real := NE
		if a.key == b.key {
			real = EQ
		}
		f := &Fact{Kind: 'p', A: tTrue, B: tTrue, K: zeroK, Mask: mask & real}
		return f.fin()
	}
	if a.Op == "c" || (b.Op != "c" && a.key > b.key) {
		a, b, mask = b, a, flip(mask)
	}
	if b.key == "false" { // x == false  ->  x != true
		b = tTrue
		mask = (^mask) & ANY
		if mask != EQ {
			mask = NE
		}
	}
	return (&Fact{Kind: 'p', A: a, B: b, K: zeroK, Mask: mask}).fin()
}

// canonical integer form: strict -> non-strict
func (f *Fact) canon() (mask uint8, k *big.Int) {
	if f.Num {
		switch f.Mask {
		case LT:
			return LE, new(big.Int).Sub(f.K, big.NewInt(1))
		case GT:
			return GE, new(big.Int).Add(f.K, big.NewInt(1))
		}
	}
	return f.Mask, f.K
}

type Facts map[string]*Fact

func (fs Facts) clone() Facts {
	r := make(Facts, len(fs)+4)
	for k, v := range fs {
		r[k] = v
	}
	return r
}

// add conjoins f; returns false if a contradiction arises.
func (fs Facts) add(f *Fact) bool {
	if f.Kind == 'p' {
		if f.Mask == ANY {
			return true
		}
		if o, ok := fs[f.key]; ok {
			m := o.Mask & f.Mask
			if m == o.Mask {
				return m != 0
			}
			n := *f
			n.Mask = m
			fs[f.key] = &n
			return m != 0
		}
		if f.Mask == 0 {
			return false
		}
		// contradiction against other constants: x==c1 && x==c2
		if f.Mask == EQ && len(f.Forall) == 0 && f.B.Op == "c" {
			// cheap check only for bool/nil handled by identical keys
		}
	}
	fs[f.key] = f
	return true
}

func joinFacts(a, b Facts) Facts {
	r := Facts{}
	for k, f := range a {
		g, ok := b[k]
		if !ok {
			// infer from integer facts is not attempted
			continue
		}
		if f.Kind == 'p' {
			m := f.Mask | g.Mask
			if m == ANY {
				continue
			}
			if m == f.Mask {
				r[k] = f
			} else {
				n := *f
				n.Mask = m
				r[k] = &n
			}
		} else if f.Kind == 's' {
			if f.B.key == g.B.key {
				r[k] = f
			}
		} else {
			r[k] = f
		}
	}
	return r
}

func (fs Facts) list() []*Fact {
	ks := make([]string, 0, len(fs))
	for k := range fs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := make([]*Fact, len(ks))
	for i, k := range ks {
		r[i] = fs[k]
	}
	return r
}

func equalFacts(a, b Facts) bool {
	if len(a) != len(b) {
		return false
	}
	for k, f := range a {
		g, ok := b[k]
		if !ok || g.Mask != f.Mask {
			return false
		}
		if f.Kind == 's' && f.B.key != g.B.key {
			return false
		}
	}
	return true
}
