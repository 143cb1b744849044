id='p17-neg-in-place'
prop='P17'
needs='a prover call followed by another use of the same blinding'
breaks='the consistency prover reduces the caller\'s randomness in place'
edits=[('consistency.go','	//modRandom := new(big.Int).Mod(randomness, zkpcp.C.Params().N)\n','	randomness.Mod(randomness, zkpcp.C.Params().N)\n')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	pk, _ := KeyGen(TestCurve.C, TestCurve.H)
	v, r := big.NewInt(5), big.NewInt(-9)
	if _, err := NewConsistencyProof(TestCurve, PedCommitR(TestCurve, v, r), TestCurve.Mult(pk, r), pk, v, r); err != nil {
		t.Fatal(err)
	}
	if r.Cmp(big.NewInt(-9)) != 0 {
		t.Fatal("randomness was modified")
	}
}
'''
