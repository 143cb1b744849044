package zksigma

import (
	"math/big"
	"verifstub/sym"
)

func vhMul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func vhAdd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func vhSub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }

// Schnorr proving fails for every secret that is not the discrete log.
//verif: prop=P02 p=13
func V_P02_gspfs() {
	b, a := sym.Scalar("b"), sym.Scalar("a")
	x := sym.Wide("x")
	sym.Assume(sym.Not(sym.EqMod(a, vhMul(b, x))))
	pr, err := NewGSPFSProofBase(TestCurve, vhPt(b), vhPt(a), x)
	sym.Assert(err != nil, "Schnorr prover accepted a wrong secret")
	sym.Assert(pr == nil, "Schnorr prover returned a proof for a wrong secret")
	sym.Cover("end")
}

// Schnorr proving over the default base fails for every wrong secret.
//verif: prop=P02 p=13
func V_P02_gspfsG() {
	a := sym.Scalar("a")
	x := sym.Wide("x")
	sym.Assume(sym.Not(sym.EqMod(a, x)))
	pr, err := NewGSPFSProof(TestCurve, vhPt(a), x)
	sym.Assert(err != nil && pr == nil, "Schnorr prover accepted a wrong secret")
	sym.Cover("end")
}

// Equivalence proving fails when either result is not the same multiple.
//verif: prop=P02 p=13
func V_P02_equivalence() {
	b1, r1, b2, r2 := sym.Scalar("b1"), sym.Scalar("r1"), sym.Scalar("b2"), sym.Scalar("r2")
	x := sym.Wide("x")
	sym.Assume(sym.Or(sym.Not(sym.EqMod(r1, vhMul(b1, x))), sym.Not(sym.EqMod(r2, vhMul(b2, x)))))
	pr, err := NewEquivalenceProof(TestCurve, vhPt(b1), vhPt(r1), vhPt(b2), vhPt(r2), x)
	sym.Assert(err != nil, "equivalence prover accepted a wrong secret")
	sym.Assert(pr == nil, "equivalence prover returned a proof for a wrong secret")
	sym.Cover("end")
}

// Disjunctive proving fails for a secret wrong on the chosen side, whatever the other side, and for unknown sides.
//verif: prop=P02 p=13
func V_P02_disjunctive() {
	b1, r1, b2, r2 := sym.Scalar("b1"), sym.Scalar("r1"), sym.Scalar("b2"), sym.Scalar("r2")
	x := sym.Wide("x")
	var side Side
	switch sym.Choice("side", 3) {
	case 0:
		side = Left
		sym.Assume(sym.Not(sym.EqMod(r1, vhMul(b1, x))))
	case 1:
		side = Right
		sym.Assume(sym.Not(sym.EqMod(r2, vhMul(b2, x))))
	default:
		side = Side(int(int32(sym.U32("sidev"))))
		sym.Assume(side != Left && side != Right)
	}
	pr, err := NewDisjunctiveProof(TestCurve, vhPt(b1), vhPt(r1), vhPt(b2), vhPt(r2), x, side)
	sym.Assert(err != nil, "disjunctive prover accepted a wrong secret or side")
	if pr != nil {
		sym.Assert(pr.C == nil && pr.C1 == nil && pr.C2 == nil && pr.S1 == nil && pr.S2 == nil, "disjunctive prover returned proof data with its error")
	}
	sym.Cover("end")
}

// Consistency proving fails unless value and randomness open commitment and token.
//verif: prop=P02 p=13
func V_P02_consistency() {
	v, r := sym.Wide("v"), sym.Wide("r")
	cm, tok, pk := sym.Scalar("cm"), sym.Scalar("tok"), sym.Scalar("pk")
	sym.Assume(sym.Or(sym.Not(sym.EqMod(cm, vhAdd(v, vhMulH(r)))), sym.Not(sym.EqMod(tok, vhMul(pk, r)))))
	pr, err := NewConsistencyProof(TestCurve, vhPt(cm), vhPt(tok), vhPt(pk), v, r)
	sym.Assert(err != nil, "consistency prover accepted a wrong opening")
	if pr != nil {
		sym.Assert(pr.Challenge == nil && pr.S1 == nil && pr.S2 == nil, "consistency prover returned proof data with its error")
	}
	sym.Cover("end")
}

// ABC proving fails when the side contradicts the value, or the token does not match the key on the zero side.
//verif: prop=P02 p=13 cost=4
func V_P02_abc() {
	v, sk := sym.Wide("v"), sym.Wide("sk")
	cm, tok := sym.Scalar("cm"), sym.Scalar("tok")
	var side Side
	switch sym.Choice("case", 4) {
	case 0: // zero side, non-zero value
		side = Left
		vhNonzero(v)
	case 1: // non-zero side, value zero modulo the group order
		side = Right
		sym.Assume(sym.EqMod(v, new(big.Int)))
	case 2: // zero side, token is not sk*CM
		side = Left
		sym.Assume(sym.EqMod(v, new(big.Int)))
		sym.Assume(sym.Not(sym.EqMod(tok, vhMul(cm, sk))))
	default:
		side = Side(int(int32(sym.U32("sidev"))))
		sym.Assume(side != Left && side != Right)
	}
	pr, err := NewABCProof(TestCurve, vhPt(cm), vhPt(tok), v, sk, side)
	sym.Assert(err != nil, "ABC prover accepted a contradictory witness")
	if pr != nil {
		sym.Assert(pr.Challenge == nil && pr.disjuncAC == nil, "ABC prover returned proof data with its error")
	}
	sym.Cover("end")
}

// ABC proving with a key that has no inverse is an error, not a crash.
//verif: prop=P02 p=13 cost=4
func V_P02_abcKey() {
	v, sk := sym.Wide("v"), sym.Wide("sk")
	sym.Assume(sym.EqMod(sk, new(big.Int)))
	cm, tok := sym.Scalar("cm"), sym.Scalar("tok")
	side := Left
	if sym.Choice("side", 2) == 1 {
		side = Right
	}
	_, err := NewABCProof(TestCurve, vhPt(cm), vhPt(tok), v, sk, side)
	sym.Assert(err != nil, "ABC prover accepted a zero key")
	sym.Cover("end")
}

// Inequality proving fails for values that are equal in the group, for all commitments.
//verif: prop=P02 p=13 cost=4
func V_P02_inequality() {
	a, b, sk := sym.Wide("a"), sym.Wide("b"), sym.Wide("sk")
	sym.Assume(sym.EqMod(a, b))
	A, B, TA, TB := sym.Scalar("A"), sym.Scalar("B"), sym.Scalar("TA"), sym.Scalar("TB")
	pr, err := NewInequalityProof(TestCurve, vhPt(A), vhPt(B), vhPt(TA), vhPt(TB), a, b, sk)
	sym.Assert(err != nil && pr == nil, "inequality prover accepted equal values")
	sym.Cover("end")
}
