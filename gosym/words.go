package main

import (
	"fmt"
	"math/big"
	"os"
)

// Word arithmetic as integer arithmetic (directive words=1): a machine word is held as the integer
// polynomial it denotes as long as interval bounds show that no operation wraps; low bits and
// shifts become remainders and quotients by powers of two. An operation that may wrap falls back
// to bit-vectors. Remainders are kept as bounded atoms and expanded, exactly, to x - 2^k*(x div 2^k)
// when an equation is decided (expandWords).

var useWords bool

func wInt(t *Term) *Term {
	switch t.Op {
	case OpConst:
		return IntC(t.V)
	case OpZext:
		return wInt(t.A[0])
	case OpI2BV:
		if inRange(t.A[0], big0, maskOf(t.S.W)) {
			return t.A[0]
		}
	}
	return nil
}

// w2 gives both operands as integers, or nothing.
func w2(a, b *Term) (*Term, *Term, bool) {
	if !useWords || a.isConst() && b.isConst() {
		return nil, nil, false
	}
	x, y := wInt(a), wInt(b)
	return x, y, x != nil && y != nil
}

func wFit(t *Term, w int) *Term {
	if inRange(t, big0, maskOf(w)) {
		return mkI2BV(t, w)
	}
	return nil
}

func mkI2BV(t *Term, w int) *Term {
	if t.isConst() {
		return BVc(t.V, w)
	}
	return mk(Term{Op: OpI2BV, S: SBV(w), A: []*Term{t}})
}

func wLow(x *Term, k int) *Term {
	if inRange(x, big0, maskOf(k)) {
		return x
	}
	return mk(Term{Op: OpIMod, S: SInt, A: []*Term{x}, V: pow2(k)})
}

func wHigh(x *Term, k int) *Term {
	if k == 0 {
		return x
	}
	if inRange(x, big0, maskOf(k)) {
		return IntI(0)
	}
	return mk(Term{Op: OpIDiv, S: SInt, A: []*Term{x}, V: pow2(k)})
}

var expandMemo = map[int64][]Mono{}

// expandWords rewrites remainders by powers of two as x - 2^k*(x div 2^k).
func expandWords(t *Term) []Mono {
	if r, ok := expandMemo[t.id]; ok {
		return r
	}
	acc := newAcc()
	for _, mo := range polyOf(t) {
		p := []Mono{{C: mo.C}}
		for _, a := range mo.M {
			q := []Mono{{C: big1, M: []*Term{a}}}
			if a.Op == OpIMod && a.V.Cmp(pow2(a.V.BitLen()-1)) == 0 {
				e := newAcc()
				e.addPoly(expandWords(a.A[0]), big1)
				e.add(new(big.Int).Neg(a.V), []*Term{wHigh(a.A[0], a.V.BitLen()-1)})
				q = e.list()
			}
			n := newAcc()
			for _, x := range p {
				for _, y := range q {
					n.add(new(big.Int).Mul(x.C, y.C), mergeAtoms(x.M, y.M))
				}
			}
			p = n.list()
		}
		acc.addPoly(p, big1)
	}
	r := acc.list()
	expandMemo[t.id] = r
	return r
}

// eqModWords: d is a multiple of m.
func eqModWords(d *Term, m *big.Int) *Term {
	p := expandWords(d)
	ok := true
	for _, mo := range p {
		ok = ok && new(big.Int).Mod(mo.C, m).Sign() == 0
	}
	if ok {
		return TTrue
	}
	if os.Getenv("GOSYM_ASSERT") != "" {
		for _, mo := range p {
			if c := new(big.Int).Mod(mo.C, m); c.Sign() != 0 {
				fmt.Fprintf(os.Stderr, "  REST %v", c)
				for _, a := range mo.M {
					fmt.Fprintf(os.Stderr, " * %.300s", a.str(5))
				}
				fmt.Fprintln(os.Stderr)
			}
		}
	}
	return ieq0mod(d, m)
}
