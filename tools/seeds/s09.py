id='p08-short-values'
prop='P08'
needs='a value below 2^32, whose byte form is shorter than five bytes'
breaks='the bits are taken from a left-aligned copy of the bytes, so the proof is for another value'
edits=[('rangeproof.go','''	stuff := new(proverInternalData)
''','''	stuff := new(proverInternalData)
	digits := make([]byte, 5)
	copy(digits, value.Bytes())
	bit := func(i int) bool { return digits[4-i/8]>>uint(i%8)&1 == 1 }
'''),('rangeproof.go','proofGenA(zkpcp, i, value.Bit(i) == 1, stuff)','proofGenA(zkpcp, i, bit(i), stuff)'),
('rangeproof.go','proofGenB(zkpcp, i, value.Bit(i) == 1, e0, stuff)','proofGenB(zkpcp, i, bit(i), e0, stuff)')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, v := range []int64{0, 5, 1 << 20, 1<<32 - 1, 1 << 32, 1<<40 - 1} {
		p, r, err := NewRangeProof(TestCurve, big.NewInt(v))
		if err != nil {
			t.Fatal(err)
		}
		if ok, err := p.Verify(TestCurve, PedCommitR(TestCurve, big.NewInt(v), r)); !ok {
			t.Fatal(v, err)
		}
	}
}
'''
