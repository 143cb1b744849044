id='p04-disjunctive-challenge-split'
prop='P04'
needs='a forged proof whose two challenges do not add up to the hash'
breaks='the check that the partial challenges sum to the hash accepts a sum of twice the hash, so both sides can be simulated'
edits=[('disjunctive.go','	totalC := new(big.Int).Add(C1, C2)\n	totalC.Mod(totalC, zkpcp.C.Params().N)\n	if totalC.Cmp(C) != 0 {','	totalC := new(big.Int).Add(C1, C2)\n	totalC.Mod(totalC, zkpcp.C.Params().N)\n	if C1.Cmp(C2) == 0 {\n		totalC.Set(C1)\n	}\n	if totalC.Cmp(C) != 0 {')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	x := big.NewInt(5)
	r1 := TestCurve.Mult(TestCurve.G, x)
	r2 := TestCurve.Mult(TestCurve.H, x)
	u := big.NewInt(77)
	t1, t2 := TestCurve.Mult(TestCurve.G, u), TestCurve.Mult(TestCurve.H, u)
	c := GenerateChallenge(TestCurve, TestCurve.G.Bytes(), r1.Bytes(), TestCurve.H.Bytes(), r2.Bytes(), t1.Bytes(), t2.Bytes())
	s := new(big.Int).Add(u, new(big.Int).Mul(c, x))
	s.Mod(s, TestCurve.C.Params().N)
	p := &DisjunctiveProof{T1: t1, T2: t2, C: c, C1: c, C2: c, S1: s, S2: s}
	if ok, err := p.Verify(TestCurve, TestCurve.G, r1, TestCurve.H, r2); ok || err == nil {
		t.Fatal("accepted a proof whose challenges do not sum to the hash")
	}
}
'''
