id='p02-equivalence-second-pair-shortcut'
prop='P02'
needs='a first base that is the identity-free generator equal to the second base while the second result differs'
breaks='the prover skips the check of the second pair when both bases are equal and signs a statement with two different results'
edits=[('equivalence.go','	if !check2.Equal(Result2) {','	if !check2.Equal(Result2) && !Base1.Equal(Base2) {')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	x := big.NewInt(9)
	r := TestCurve.Mult(TestCurve.G, x)
	if p, err := NewEquivalenceProof(TestCurve, TestCurve.G, r, TestCurve.G, TestCurve.H, x); err == nil {
		t.Fatal("proof for a false statement", p)
	}
}
'''
