id='p12-negative-scalar'
prop='P12'
needs='a negative scalar for a base other than G and H, or a negative key blinding'
breaks='the remainder keeps its sign and is dropped with the byte form, so r*PK is computed as |r|*PK'
edits=[('crypto.go','	newR := new(big.Int).Mod(r, zkpcp.C.Params().N)\n','	newR := new(big.Int).Rem(r, zkpcp.C.Params().N)\n')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	pk, sk := KeyGen(TestCurve.C, TestCurve.H)
	_ = sk
	r := big.NewInt(-7)
	if !CommitR(TestCurve, pk, r).Equal(TestCurve.Neg(CommitR(TestCurve, pk, big.NewInt(7)))) {
		t.Fatal("CommitR(-7) is not -7 times the key")
	}
	if VerifyR(TestCurve, CommitR(TestCurve, pk, big.NewInt(7)), pk, r) {
		t.Fatal("VerifyR accepts 7 for -7")
	}
}
'''
