id='p05-abc-identity-commitment'
prop='P05'
needs='an indicator commitment that equals the value commitment'
breaks='the second ABC equation is skipped when C equals CM, so C need not be value times B'
edits=[('abc.go','	if !lhs2.Equal(rhs2) {','	if !lhs2.Equal(rhs2) && !aProof.C.Equal(CM) {')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n := TestCurve.C.Params().N
	sk := big.NewInt(19)
	pk := TestCurve.Mult(TestCurve.H, sk)
	v, r := big.NewInt(1), big.NewInt(23)
	cm := PedCommitR(TestCurve, v, r)
	tok := TestCurve.Mult(pk, r)
	// C = CM = G + rH, so the disjunctive side "C - G = rH" can be proved honestly
	dj, err := NewDisjunctiveProof(TestCurve, cm, tok, TestCurve.H, TestCurve.Sub(cm, TestCurve.G), r, Right)
	if err != nil {
		t.Fatal(err)
	}
	u1, u2 := big.NewInt(3), big.NewInt(4)
	t1 := TestCurve.Add(TestCurve.Mult(TestCurve.G, u1), TestCurve.Mult(tok, u2))
	b, t2 := TestCurve.Mult(TestCurve.G, big.NewInt(6)), TestCurve.G // B has nothing to do with 1/v
	c := GenerateChallenge(TestCurve, TestCurve.G.Bytes(), TestCurve.H.Bytes(), cm.Bytes(), tok.Bytes(), b.Bytes(), cm.Bytes(), t1.Bytes(), t2.Bytes())
	j := new(big.Int).Add(u1, new(big.Int).Mul(v, c))
	k := new(big.Int).Add(u2, new(big.Int).Mul(new(big.Int).ModInverse(sk, n), c))
	p := &ABCProof{B: b, C: cm, T1: t1, T2: t2, Challenge: c, j: j.Mod(j, n), k: k.Mod(k, n), l: big.NewInt(1), CToken: pk, disjuncAC: dj}
	if ok, err := p.Verify(TestCurve, cm, tok); ok || err == nil {
		t.Fatal("accepted a proof that violates cC + T2 = jB + lH")
	}
}
'''
