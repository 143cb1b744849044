id='p11-unsynchronised-count'
prop='P11'
needs='two proving goroutines updating the shared progress counter at the same time'
breaks='a data race that can lose an update and make an honest prover fail'
flags='-race '
edits=[('rangeproof.go','''	//	fmt.Printf("loop %d\\n", idx)
''','''	s.finished++
'''),('rangeproof.go','''	// hash concat of all R values
''','''	if stuff.finished != proofSize {
		return nil, nil, fmt.Errorf("only %d of %d bits were generated", stuff.finished, proofSize)
	}

	// hash concat of all R values
'''),('rangeproof.go','''type proverInternalData struct {
''','''type proverInternalData struct {
	finished int // positions whose first half is done
''')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for i := 0; i < 5; i++ {
		if _, _, err := NewRangeProof(TestCurve, big.NewInt(987654321)); err != nil {
			t.Fatal(err)
		}
	}
}
'''
