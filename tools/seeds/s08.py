id='p03-schnorr-small-response'
prop='P03'
needs='a response of zero'
breaks='the Schnorr verifier compares only the challenge term when the response is zero modulo N: a point equal to the random commitment passes'
edits=[('gspfs.go','	if !proof.RandCommit.Equal(tot) {','	if !proof.RandCommit.Equal(tot) && !(s.Equal(Zero) && proof.RandCommit.Equal(A)) {')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a := TestCurve.H // nobody knows its discrete log
	// old and new hash input both start with the base or the result; build the challenge through Verify itself
	p := &GSPFSProof{Base: TestCurve.G, RandCommit: a, HiddenValue: new(big.Int), Challenge: GenerateChallenge(TestCurve, TestCurve.G.Bytes(), a.Bytes(), a.Bytes())}
	if ok, err := p.Verify(TestCurve, a); ok || err == nil {
		t.Fatal("forged proof accepted")
	}
}
'''
