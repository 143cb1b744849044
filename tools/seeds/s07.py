id='p07-disjunctive-nonce-reuse'
prop='P07'
needs='looking at the joint distribution of the two simulated scalars; verification is unaffected'
breaks='the simulated response and the simulated challenge of a disjunctive proof are equal, which reveals the side that was simulated'
edits=[('disjunctive.go','''	u3, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
	if err != nil {
		return nil, err
	}
''','''	u3 := new(big.Int).Set(u2)
''')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	x := big.NewInt(5)
	r1 := TestCurve.Mult(TestCurve.G, x)
	p, err := NewDisjunctiveProof(TestCurve, TestCurve.G, r1, TestCurve.H, TestCurve.G, x, Left)
	if err != nil {
		t.Fatal(err)
	}
	if p.C2.Cmp(p.S2) == 0 || p.C1.Cmp(p.S1) == 0 {
		t.Fatal("the proof shows which side was simulated")
	}
}
'''
