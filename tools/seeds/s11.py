id='p10-negated-total'
prop='P10'
needs='a proof whose announced aggregate and commitment are the negation of the sum of its bit commitments'
breaks='sum and aggregate are compared by their X coordinate only, and the commitment against the aggregate, so a proof for v verifies for -v'
edits=[('rangeproof.go','if !totalPoint.Equal(proof.ProofAggregate) {','if totalPoint.X.Cmp(proof.ProofAggregate.X) != 0 {'),
('rangeproof.go','if !comm.Equal(totalPoint) {','if !comm.Equal(proof.ProofAggregate) {')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	v := big.NewInt(12345)
	p, r, err := NewRangeProof(TestCurve, v)
	if err != nil {
		t.Fatal(err)
	}
	c := PedCommitR(TestCurve, v, r)
	if ok, err := p.Verify(TestCurve, c); !ok {
		t.Fatal(err)
	}
	p.ProofAggregate = TestCurve.Neg(p.ProofAggregate)
	if ok, _ := p.Verify(TestCurve, TestCurve.Neg(c)); ok {
		t.Fatal("accepted a commitment to a negative value")
	}
}
'''
