package zksigma

import (
	"math/big"
	"verifstub/sym"
)

func vhFaulted(none bool, err error) {
	if sym.FaultHappened() {
		sym.Assert(err != nil, "a randomness failure is not reported")
		sym.Assert(none, "a result is returned although randomness failed")
		sym.Cover("fault")
	} else {
		sym.Cover("no fault")
	}
}

//verif: prop=P28 p=13
func V_P28_gspfs() {
	x := sym.Wide("x")
	sym.RandFaults(true)
	p, err := NewGSPFSProof(TestCurve, TestCurve.Mult(TestCurve.G, x), x)
	vhFaulted(p == nil, err)
}

//verif: prop=P28 p=13
func V_P28_equivalence() {
	x := sym.Wide("x")
	B, b := vhGPt("b")
	sym.RandFaults(true)
	p, err := NewEquivalenceProof(TestCurve, TestCurve.G, TestCurve.Mult(TestCurve.G, x), B, vhPt(vhMul(b, x)), x)
	vhFaulted(p == nil, err)
}

//verif: prop=P28 p=13
func V_P28_disjunctive() {
	x := sym.Wide("x")
	b1, d1 := vhGPt("b1")
	b2, d2 := vhGPt("b2")
	r, dr := vhGPt("r")
	_ = dr
	sym.RandFaults(true)
	side := Left
	y, yr := vhPt(vhMul(d1, x)), r
	if sym.Bool("right") {
		side = Right
		y, yr = r, vhPt(vhMul(d2, x))
	}
	p, err := NewDisjunctiveProof(TestCurve, b1, y, b2, yr, x, side)
	vhFaulted(p == nil, err)
}

//verif: prop=P28 p=13
func V_P28_consistency() {
	v, u := sym.Wide("v"), sym.Wide("u")
	pk, sk := vhGPt("pk")
	sym.RandFaults(true)
	p, err := NewConsistencyProof(TestCurve, PedCommitR(TestCurve, v, u), vhPt(vhMul(sk, u)), pk, v, u)
	vhFaulted(p == nil, err)
}

//verif: prop=P28 p=13 timeout=200
func V_P28_abc() {
	v, u, sk := sym.Scalar("v"), sym.Scalar("u"), sym.Scalar("sk")
	vhNonzero(sk)
	side := Left
	if sym.Bool("right") {
		side = Right
	}
	cm := vhPt(vhCom(v, u))
	tok := vhPt(vhMul(vhMulH(u), sk))
	sym.RandFaults(true)
	p, err := NewABCProof(TestCurve, cm, tok, v, sk, side)
	// an error may come with an empty proof value, which no verifier accepts
	vhFaulted(p == nil || p.Challenge == nil && p.disjuncAC == nil, err)
}

//verif: prop=P28 p=13
func V_P28_inequality() {
	a, b, u, w, sk := sym.Scalar("a"), sym.Scalar("b"), sym.Scalar("u"), sym.Scalar("w"), sym.Scalar("sk")
	vhNonzero(sk)
	A, B := vhPt(vhCom(a, u)), vhPt(vhCom(b, w))
	ta, tb := vhPt(vhMul(vhMulH(u), sk)), vhPt(vhMul(vhMulH(w), sk))
	sym.RandFaults(true)
	p, err := NewInequalityProof(TestCurve, A, B, ta, tb, a, b, sk)
	vhFaulted(p == nil || p.Challenge == nil && p.disjuncAC == nil, err)
}

//verif: prop=P28 p=13
func V_P28_commit() {
	v := sym.Wide("v")
	sym.RandFaults(true)
	_, r, err := PedCommit(TestCurve, v)
	vhFaulted(r == nil, err)
}

// A failure at any of the draws of a range proof, in any goroutine, for values
// whose bits are all 0, all 1 or mixed.
//verif: prop=P28 p=13 hash=loose feas=0 timeout=300 stop=1 cost=10
func V_P28_range() {
	var v *big.Int
	switch sym.Choice("v", 3) {
	case 0:
		v = big.NewInt(0)
	case 1:
		v = big.NewInt(1<<40 - 1)
	default:
		v = big.NewInt(0x5555555555)
	}
	sym.RandFaults(true)
	p, r, err := NewRangeProof(TestCurve, v)
	vhFaulted(p == nil && r == nil, err)
	sym.Settle()
	sym.Assert(sym.Blocked() == 0, "proving leaves goroutines behind")
}

var _ = big.NewInt
