package main

// Fingerprints: the values of a term under a few fixed pseudo-random
// assignments. Unequal fingerprints show that two terms are not identical, which
// saves the normal-form comparison; equal fingerprints prove nothing.

import (
	"hash/fnv"
	"math/big"
)

const fpRuns = 2

var (
	fpMemo [fpRuns]map[int64]*big.Int
	fpFor  *big.Int
)

var fpModel [fpRuns]Model

func fpReset() {
	fpFor = curve.N
	for k := range fpMemo {
		fpMemo[k] = map[int64]*big.Int{}
		fpModel[k] = Model{"\x00fp": big.NewInt(int64(k))}
	}
}

func fpVar(t *Term, k int64) *big.Int {
	h := fnv.New64a()
	h.Write([]byte(t.N))
	h.Write([]byte{byte(k)})
	x := h.Sum64()
	x ^= x >> 31
	x *= 0x9e3779b97f4a7c15
	x ^= x >> 29
	v := new(big.Int).SetUint64(x)
	v.Mul(v, v)
	if t.S.K == KBV {
		return v.And(v, maskOf(t.S.W))
	}
	if t.S.K == KBool {
		return big.NewInt(int64(v.Bit(7)))
	}
	if t.lo != nil && t.hi != nil {
		n := new(big.Int).Sub(t.hi, t.lo)
		n.Add(n, big1)
		return v.Add(v.Mod(v, n), t.lo)
	}
	return v.And(v, maskOf(40))
}

func fpVal(t *Term, k int) *big.Int {
	if fpFor != curve.N {
		fpReset()
	}
	return Eval(t, fpModel[k], fpMemo[k])
}

// fpZero reports whether p vanishes (modulo m, if given) under every assignment tried.
func fpZero(p []Mono, m *big.Int) bool {
	for k := 0; k < fpRuns; k++ {
		s := new(big.Int)
		for _, mo := range p {
			x := new(big.Int).Set(mo.C)
			for _, a := range mo.M {
				x.Mul(x, fpVal(a, k))
			}
			s.Add(s, x)
		}
		if m != nil {
			s.Mod(s, m)
		}
		if s.Sign() != 0 {
			return false
		}
	}
	return true
}
