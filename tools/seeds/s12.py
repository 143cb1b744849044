id='p11-early-return-leak'
prop='P11'
needs='a proof with more than eleven entries one of whose first results is the identity point'
breaks='the verifier returns while its other goroutines are still sending, so they stay blocked for ever'
edits=[('rangeproof.go','''		// only reason we do this is for the hash of the point.
''','''		if result.Rpoint.Equal(Zero) {
			return false, &errorProof{"RangeProof.Verify", "entry gives no ring point"}
		}

		// only reason we do this is for the hash of the point.
''')]
test='''
package zksigma

import (
	"math/big"
	"runtime"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	p, r, err := NewRangeProof(TestCurve, big.NewInt(7))
	if err != nil {
		t.Fatal(err)
	}
	c := PedCommitR(TestCurve, big.NewInt(7), r)
	for i := range p.ProofTuples {
		p.ProofTuples[i].C = ECPoint{new(big.Int), new(big.Int)}
	}
	before := runtime.NumGoroutine()
	for i := 0; i < 5; i++ {
		if ok, _ := p.Verify(TestCurve, c); ok {
			t.Fatal("accepted")
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatal("goroutines left behind:", n-before)
	}
}
'''
