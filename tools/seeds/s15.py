id='p14-tuple-count-byte'
prop='P14'
needs='a range proof with at least 253 entries'
breaks='the number of entries is written as one byte, which is not its variable-length form'
edits=[('rangeproof.go','	wire.WriteVarInt(&buf, uint64(len(proof.ProofTuples)))\n','	buf.WriteByte(byte(len(proof.ProofTuples)))\n')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, n := range []int{0, 1, 40, 252, 253, 300} {
		p := &RangeProof{ProofAggregate: TestCurve.G, ProofE: big.NewInt(3)}
		for i := 0; i < n; i++ {
			p.ProofTuples = append(p.ProofTuples, rangeProofTuple{TestCurve.H, big.NewInt(int64(i))})
		}
		q, err := NewRangeProofFromBytes(p.Bytes())
		if err != nil || len(q.ProofTuples) != n {
			t.Fatal(n, err)
		}
	}
}
'''
