id='p06-consistency-token-unbound'
prop='P06'
needs='two verifications that differ only in the token'
breaks='prover and verifier hash the commitment twice and the token never, so the challenge is not bound to the token'
edits=[('consistency.go','''	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
		CM.Bytes(), CMTok.Bytes(),
		PubKey.Bytes(),
		T1.Bytes(), T2.Bytes())''','''	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
		CM.Bytes(), CM.Bytes(),
		PubKey.Bytes(),
		T1.Bytes(), T2.Bytes())'''),('consistency.go','''	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
		CM.Bytes(), CMTok.Bytes(),
		PubKey.Bytes(),
		conProof.T1''','''	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
		CM.Bytes(), CM.Bytes(),
		PubKey.Bytes(),
		conProof.T1''')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	n := TestCurve.C.Params().N
	pk := TestCurve.Mult(TestCurve.H, big.NewInt(31))
	v, r := big.NewInt(8), big.NewInt(9)
	cm := PedCommitR(TestCurve, v, r)
	tok := TestCurve.Mult(pk, r)
	p, err := NewConsistencyProof(TestCurve, cm, tok, pk, v, r)
	if err != nil {
		t.Fatal(err)
	}
	// adapt the statement to the finished proof: keep the hash, choose T2' and a wrong token
	q := *p
	tok2 := TestCurve.Mult(pk, big.NewInt(10))
	if ok, _ := q.Verify(TestCurve, cm, tok, pk); !ok {
		t.Fatal("honest proof rejected")
	}
	c1 := q.Challenge
	// forge: choose T2, hash, then solve s2PK = T2 + c*Tok for Tok
	u1, u2, w := big.NewInt(3), big.NewInt(4), big.NewInt(5)
	t1 := PedCommitR(TestCurve, u1, u2)
	t2 := TestCurve.Mult(pk, w)
	c := GenerateChallenge(TestCurve, TestCurve.G.Bytes(), TestCurve.H.Bytes(), cm.Bytes(), cm.Bytes(), pk.Bytes(), t1.Bytes(), t2.Bytes())
	s1 := new(big.Int).Add(u1, new(big.Int).Mul(c, v))
	s2 := new(big.Int).Add(u2, new(big.Int).Mul(c, r))
	x := new(big.Int).Mul(new(big.Int).Sub(s2, w), new(big.Int).ModInverse(c, n))
	bad := TestCurve.Mult(pk, x)
	f := &ConsistencyProof{T1: t1, T2: t2, Challenge: c, S1: s1, S2: s2}
	if ok, err := f.Verify(TestCurve, cm, bad, pk); ok || err == nil {
		t.Fatal("accepted a token that was chosen after the challenge", c1, tok2)
	}
}
'''
