package zksigma

import (
	"math/big"
	"verifstub/sym"
)

// vhMask: the responses are canonical, the prover drew from a space of N^k nonce vectors, and two
// runs with the same published data drew the same nonces. With k nonces and one hash answer fixed
// an accepting transcript is determined by k scalars, so the honest transcripts are uniformly
// distributed over all accepting transcripts, whatever the witness.
func vhMask(k int, s1, s2 []*big.Int, p1, p2 []ECPoint) {
	for _, s := range s1 {
		sym.Assert(sym.Canonical(s), "a published scalar is not a canonical residue")
	}
	space := big.NewInt(1)
	for i := 0; i < k; i++ {
		space.Mul(space, sym.N())
	}
	sym.Assert(sym.Eq(sym.NonceSpace(1), space), "the nonces are not drawn from the full space")
	same := vhAllEq(p1, p2)
	for i := range s1 {
		same = sym.And(same, sym.Eq(s1[i], s2[i]))
	}
	sym.Assert(sym.Implies(same, sym.SameNonces(1, 2)), "different nonces lead to the same published proof")
	sym.Cover("end")
}

//verif: prop=P07 p=13
func V_P07_gspfs() {
	B, b := vhGPt("base")
	x := sym.Wide("x")
	A := vhPt(vhMul(b, x))
	sym.Oracle(1)
	sym.Epoch(1)
	p1, e1 := NewGSPFSProofBase(TestCurve, B, A, x)
	sym.Epoch(2)
	p2, e2 := NewGSPFSProofBase(TestCurve, B, A, x)
	sym.Assume(e1 == nil && e2 == nil)
	f := func(p *GSPFSProof) ([]*big.Int, []ECPoint) {
		return []*big.Int{p.HiddenValue, p.Challenge}, []ECPoint{p.Base, p.RandCommit}
	}
	s1, q1 := f(p1)
	s2, q2 := f(p2)
	vhMask(1, s1, s2, q1, q2)
}

//verif: prop=P07 p=13
func V_P07_equivalence() {
	B1, b1 := vhGPt("b1")
	B2, b2 := vhGPt("b2")
	x := sym.Wide("x")
	R1, R2 := vhPt(vhMul(b1, x)), vhPt(vhMul(b2, x))
	sym.Oracle(1)
	sym.Epoch(1)
	p1, e1 := NewEquivalenceProof(TestCurve, B1, R1, B2, R2, x)
	sym.Epoch(2)
	p2, e2 := NewEquivalenceProof(TestCurve, B1, R1, B2, R2, x)
	sym.Assume(e1 == nil && e2 == nil)
	f := func(p *EquivalenceProof) ([]*big.Int, []ECPoint) {
		return []*big.Int{p.HiddenValue, p.Challenge}, []ECPoint{p.UG, p.UH}
	}
	s1, q1 := f(p1)
	s2, q2 := f(p2)
	vhMask(1, s1, s2, q1, q2)
}

func vhDisj(p *DisjunctiveProof) ([]*big.Int, []ECPoint) {
	return []*big.Int{p.C, p.C1, p.C2, p.S1, p.S2}, []ECPoint{p.T1, p.T2}
}

//verif: prop=P07 p=13 cost=3
func V_P07_disjunctive() {
	B1, b1 := vhGPt("b1")
	B2, b2 := vhGPt("b2")
	x := sym.Wide("x")
	R1, R2 := vhPt(sym.Scalar("r1")), vhPt(sym.Scalar("r2"))
	side := Side(sym.Choice("side", 2))
	if side == Left {
		R1 = vhPt(vhMul(b1, x))
	} else {
		R2 = vhPt(vhMul(b2, x))
	}
	sym.Oracle(1)
	sym.Epoch(1)
	p1, e1 := NewDisjunctiveProof(TestCurve, B1, R1, B2, R2, x, side)
	sym.Epoch(2)
	p2, e2 := NewDisjunctiveProof(TestCurve, B1, R1, B2, R2, x, side)
	sym.Assume(e1 == nil && e2 == nil)
	s1, q1 := vhDisj(p1)
	s2, q2 := vhDisj(p2)
	vhMask(3, s1, s2, q1, q2)
}

//verif: prop=P07 p=13
func V_P07_consistency() {
	v, r := sym.Wide("v"), sym.Wide("r")
	PK, pk := vhGPt("pk")
	CM := vhPt(vhAdd(v, vhMulH(r)))
	Tok := vhPt(vhMul(pk, r))
	sym.Oracle(1)
	sym.Epoch(1)
	p1, e1 := NewConsistencyProof(TestCurve, CM, Tok, PK, v, r)
	sym.Epoch(2)
	p2, e2 := NewConsistencyProof(TestCurve, CM, Tok, PK, v, r)
	sym.Assume(e1 == nil && e2 == nil)
	f := func(p *ConsistencyProof) ([]*big.Int, []ECPoint) {
		return []*big.Int{p.S1, p.S2, p.Challenge}, []ECPoint{p.T1, p.T2}
	}
	s1, q1 := f(p1)
	s2, q2 := f(p2)
	vhMask(2, s1, s2, q1, q2)
}

// An ABC proof draws five nonces of its own and three for the embedded proof.
//verif: prop=P07 p=13 cost=8
func V_P07_abc() {
	r := sym.Wide("r")
	sk := sym.Scalar("sk")
	vhNonzero(sk)
	v := new(big.Int)
	side := Side(sym.Choice("side", 2))
	if side == Right {
		v = sym.Wide("v")
		vhNonzero(v)
	}
	CM := vhPt(vhAdd(v, vhMulH(r)))
	Tok := vhPt(vhMul(vhMulH(sk), r))
	sym.Oracle(1)
	sym.Epoch(1)
	p1, e1 := NewABCProof(TestCurve, CM, Tok, v, sk, side)
	sym.Epoch(2)
	p2, e2 := NewABCProof(TestCurve, CM, Tok, v, sk, side)
	sym.Assume(e1 == nil && e2 == nil)
	f := func(p *ABCProof) ([]*big.Int, []ECPoint) {
		s, q := vhDisj(p.disjuncAC)
		return append(s, p.j, p.k, p.l, p.Challenge), append(q, p.B, p.C, p.T1, p.T2, p.CToken)
	}
	s1, q1 := f(p1)
	s2, q2 := f(p2)
	vhMask(8, s1, s2, q1, q2)
}
