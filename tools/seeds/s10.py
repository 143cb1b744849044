id='p09-negative-low-word'
prop='P09'
needs='a negative value whose low 64 bits, read as a signed word, are not negative'
breaks='the negative value is accepted for proving'
edits=[('rangeproof.go','if proofSize > 40 || value.Cmp(BigZero) == -1 {','if proofSize > 40 || value.Int64() < 0 {')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, v := range []*big.Int{big.NewInt(-1), new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 64)), new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(3), 70))} {
		if p, _, err := NewRangeProof(TestCurve, v); err == nil || p != nil {
			t.Fatal("proved a negative value", v)
		}
	}
}
'''
