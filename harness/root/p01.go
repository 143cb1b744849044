package zksigma

import (
	"math/big"
	"verifstub/sym"
)

func vhMulH(k *big.Int) *big.Int { return new(big.Int).Mul(k, sym.HDlog()) }

func vhPt(d *big.Int) ECPoint {
	x, y := sym.Point(d)
	return ECPoint{X: x, Y: y}
}

func vhNonzero(a *big.Int) { sym.Assume(sym.Not(sym.EqMod(a, new(big.Int)))) }

// Honest Schnorr proofs over every base verify, for every integer secret.
//verif: prop=P01 p=13
//verif: prop=P01 p=150 tier=thorough
func V_P01_gspfs() {
	b := sym.Scalar("b")
	x := sym.Wide("x")
	base := vhPt(b)
	A := vhPt(new(big.Int).Mul(b, x))
	pr, err := NewGSPFSProofBase(TestCurve, base, A, x)
	sym.Assert(err == nil && pr != nil, "honest Schnorr prover failed")
	ok, verr := pr.Verify(TestCurve, A)
	sym.Assert(ok && verr == nil, "honest Schnorr proof rejected")
	sym.Cover("end")
}

// Honest Schnorr proofs over the default generator verify.
//verif: prop=P01 p=13
func V_P01_gspfsG() {
	x := sym.Wide("x")
	A := vhPt(x)
	pr, err := NewGSPFSProof(TestCurve, A, x)
	sym.Assert(err == nil && pr != nil, "honest Schnorr prover failed")
	ok, verr := pr.Verify(TestCurve, A)
	sym.Assert(ok && verr == nil, "honest Schnorr proof rejected")
	sym.Assert(sym.And(sym.Eq(pr.Base.X, TestCurve.G.X), sym.Eq(pr.Base.Y, TestCurve.G.Y)), "proof base is not the generator")
	sym.Cover("end")
}

// Honest equivalence proofs over every pair of bases verify.
//verif: prop=P01 p=13
func V_P01_equivalence() {
	b1, b2 := sym.Scalar("b1"), sym.Scalar("b2")
	x := sym.Wide("x")
	B1, B2 := vhPt(b1), vhPt(b2)
	R1, R2 := vhPt(new(big.Int).Mul(b1, x)), vhPt(new(big.Int).Mul(b2, x))
	pr, err := NewEquivalenceProof(TestCurve, B1, R1, B2, R2, x)
	sym.Assert(err == nil && pr != nil, "honest equivalence prover failed")
	ok, verr := pr.Verify(TestCurve, B1, R1, B2, R2)
	sym.Assert(ok && verr == nil, "honest equivalence proof rejected")
	sym.Cover("end")
}

// Honest disjunctive proofs of either side verify, with an arbitrary other side.
//verif: prop=P01 p=13
func V_P01_disjunctive() {
	b1, b2 := sym.Scalar("b1"), sym.Scalar("b2")
	x := sym.Wide("x")
	o := sym.Scalar("other")
	B1, B2 := vhPt(b1), vhPt(b2)
	side := Left
	var R1, R2 ECPoint
	if sym.Choice("side", 2) == 0 {
		R1, R2 = vhPt(new(big.Int).Mul(b1, x)), vhPt(o)
	} else {
		side = Right
		R1, R2 = vhPt(o), vhPt(new(big.Int).Mul(b2, x))
	}
	pr, err := NewDisjunctiveProof(TestCurve, B1, R1, B2, R2, x, side)
	sym.Assert(err == nil && pr != nil, "honest disjunctive prover failed")
	ok, verr := pr.Verify(TestCurve, B1, R1, B2, R2)
	sym.Assert(ok && verr == nil, "honest disjunctive proof rejected")
	if side == Left {
		sym.Cover("left")
	} else {
		sym.Cover("right")
	}
}

// Honest consistency proofs verify for every value, randomness and key.
//verif: prop=P01 p=13
func V_P01_consistency() {
	v, r := sym.Wide("v"), sym.Wide("r")
	k := sym.Scalar("pk")
	PK := vhPt(k)
	CM := vhPt(new(big.Int).Add(v, vhMulH(r)))
	Tok := vhPt(new(big.Int).Mul(k, r))
	pr, err := NewConsistencyProof(TestCurve, CM, Tok, PK, v, r)
	sym.Assert(err == nil && pr != nil, "honest consistency prover failed")
	ok, verr := pr.Verify(TestCurve, CM, Tok, PK)
	sym.Assert(ok && verr == nil, "honest consistency proof rejected")
	sym.Cover("end")
}

// Honest ABC proofs for the zero value verify.
//verif: prop=P01 p=13 cost=5
func V_P01_abcZero() {
	ua, sk, v := sym.Wide("ua"), sym.Wide("sk"), sym.Wide("v")
	vhNonzero(sk)
	sym.Assume(sym.EqMod(v, new(big.Int)))
	CM := vhPt(vhMulH(ua))
	Tok := vhPt(vhMulH(new(big.Int).Mul(ua, sk)))
	pr, err := NewABCProof(TestCurve, CM, Tok, v, sk, Left)
	sym.Assert(err == nil && pr != nil, "honest ABC prover (zero) failed")
	ok, verr := pr.Verify(TestCurve, CM, Tok)
	sym.Assert(ok && verr == nil, "honest ABC proof (zero) rejected")
	sym.Cover("end")
}

// Honest ABC proofs for every non-zero value verify.
//verif: prop=P01 p=13 cost=5
func V_P01_abcNonzero() {
	v, ua, sk := sym.Wide("v"), sym.Wide("ua"), sym.Wide("sk")
	vhNonzero(sk)
	vhNonzero(v)
	CM := vhPt(new(big.Int).Add(v, vhMulH(ua)))
	Tok := vhPt(vhMulH(new(big.Int).Mul(ua, sk)))
	pr, err := NewABCProof(TestCurve, CM, Tok, v, sk, Right)
	sym.Assert(err == nil && pr != nil, "honest ABC prover failed")
	ok, verr := pr.Verify(TestCurve, CM, Tok)
	sym.Assert(ok && verr == nil, "honest ABC proof rejected")
	sym.Cover("end")
}

// Honest inequality proofs verify for all different values.
//verif: prop=P01 p=13 cost=5
func V_P01_inequality() {
	a, b, ra, rb, sk := sym.Wide("a"), sym.Wide("b"), sym.Wide("ra"), sym.Wide("rb"), sym.Wide("sk")
	vhNonzero(sk)
	sym.Assume(sym.Not(sym.EqMod(a, b)))
	A, B := vhPt(new(big.Int).Add(a, vhMulH(ra))), vhPt(new(big.Int).Add(b, vhMulH(rb)))
	TA, TB := vhPt(vhMulH(new(big.Int).Mul(ra, sk))), vhPt(vhMulH(new(big.Int).Mul(rb, sk)))
	pr, err := NewInequalityProof(TestCurve, A, B, TA, TB, a, b, sk)
	sym.Assert(err == nil && pr != nil, "honest inequality prover failed")
	dr, ds := new(big.Int).Sub(ra, rb), new(big.Int).Sub(a, b)
	CM := vhPt(new(big.Int).Add(ds, vhMulH(dr)))
	Tok := vhPt(vhMulH(new(big.Int).Mul(dr, sk)))
	ok, verr := pr.Verify(TestCurve, CM, Tok)
	sym.Assert(ok && verr == nil, "honest inequality proof rejected")
	sym.Cover("end")
}
