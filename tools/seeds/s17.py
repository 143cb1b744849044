id='p16-missing-disjunctive'
prop='P16'
needs='an ABC proof without its disjunctive part'
breaks='the verifier dereferences the missing part'
edits=[('disjunctive.go','	if djProof == nil {\n','	if djProof != nil && djProof.T1.X == nil {\n')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	g, one := TestCurve.G, big.NewInt(1)
	p := &ABCProof{B: g, C: g, T1: g, T2: g, Challenge: one, j: one, k: one, l: one, CToken: g}
	if ok, err := p.Verify(TestCurve, g, g); ok || err == nil {
		t.Fatal("accepted")
	}
}
'''
