package zksigma

import (
	"math/big"
	"verifstub/sym"
)

// vhSame: both oracles were asked the same, non-empty, list of inputs.
func vhSame(a, b int) bool {
	n := sym.Queries(a)
	if n == 0 || n != sym.Queries(b) {
		return false
	}
	r := true
	for i := 0; i < n; i++ {
		r = sym.And(r, sym.SameQuery(a, i, b, i))
	}
	return r
}

func vhGPt(name string) (ECPoint, *big.Int) {
	d := sym.Scalar(name)
	return vhPt(d), d
}

// vhRel: ds*b = dc*r or ds*b = -dc*r.
func vhRel(ds, b, dc, r *big.Int) bool {
	l, q := vhMul(ds, b), vhMul(dc, r)
	return sym.Or(sym.EqMod(l, q), sym.EqMod(l, new(big.Int).Neg(q)))
}

// Two accepted Schnorr proofs with one hash input and two challenges give the discrete log to the proof's base.
//verif: prop=P03 p=13
func V_P03_gspfs() {
	A, a := vhGPt("a")
	mk := func(i string) (*GSPFSProof, *big.Int) {
		B, b := vhGPt("base" + i)
		T, _ := vhGPt("t" + i)
		return &GSPFSProof{Base: B, RandCommit: T, HiddenValue: sym.Wide("s" + i), Challenge: sym.Wide("c" + i)}, b
	}
	p1, b1 := mk("1")
	p2, b2 := mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, A)
	sym.Oracle(2)
	ok2, e2 := p2.Verify(TestCurve, A)
	sym.Assume(ok1 && ok2 && e1 == nil && e2 == nil)
	sym.Assume(vhSame(1, 2))
	dc := vhSub(sym.Answer(1, 0), sym.Answer(2, 0))
	vhNonzero(dc)
	ds := vhSub(p1.HiddenValue, p2.HiddenValue)
	sym.Assert(sym.EqMod(b1, b2), "accepted Schnorr proofs with one hash input differ in the base")
	sym.Assert(vhRel(ds, b1, dc, a), "no discrete log extracted from two accepted Schnorr proofs")
	sym.Cover("end")
}

// Two accepted equivalence proofs give one scalar that is the discrete log for both pairs.
//verif: prop=P03 p=13
func V_P03_equivalence() {
	B1, b1 := vhGPt("b1")
	R1, r1 := vhGPt("r1")
	B2, b2 := vhGPt("b2")
	R2, r2 := vhGPt("r2")
	mk := func(i string) *EquivalenceProof {
		U, _ := vhGPt("u" + i)
		V, _ := vhGPt("v" + i)
		return &EquivalenceProof{UG: U, UH: V, Challenge: sym.Wide("c" + i), HiddenValue: sym.Wide("s" + i)}
	}
	p1, p2 := mk("1"), mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, B1, R1, B2, R2)
	sym.Oracle(2)
	ok2, e2 := p2.Verify(TestCurve, B1, R1, B2, R2)
	sym.Assume(ok1 && ok2 && e1 == nil && e2 == nil)
	sym.Assume(vhSame(1, 2))
	dc := vhSub(sym.Answer(1, 0), sym.Answer(2, 0))
	vhNonzero(dc)
	ds := vhSub(p1.HiddenValue, p2.HiddenValue)
	sym.Assert(sym.Or(sym.And(sym.EqMod(vhMul(ds, b1), vhMul(dc, r1)), sym.EqMod(vhMul(ds, b2), vhMul(dc, r2))),
		sym.And(sym.EqMod(vhMul(ds, b1), new(big.Int).Neg(vhMul(dc, r1))), sym.EqMod(vhMul(ds, b2), new(big.Int).Neg(vhMul(dc, r2))))),
		"no common discrete log extracted from two accepted equivalence proofs")
	sym.Cover("end")
}

// Two accepted consistency proofs give an opening of commitment and token with one randomness.
//verif: prop=P03 p=13
func V_P03_consistency() {
	CM, cm := vhGPt("cm")
	Tok, tok := vhGPt("tok")
	PK, pk := vhGPt("pk")
	mk := func(i string) *ConsistencyProof {
		U, _ := vhGPt("t1" + i)
		V, _ := vhGPt("t2" + i)
		return &ConsistencyProof{T1: U, T2: V, Challenge: sym.Wide("c" + i), S1: sym.Wide("s1" + i), S2: sym.Wide("s2" + i)}
	}
	p1, p2 := mk("1"), mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, CM, Tok, PK)
	sym.Oracle(2)
	ok2, e2 := p2.Verify(TestCurve, CM, Tok, PK)
	sym.Assume(ok1 && ok2 && e1 == nil && e2 == nil)
	sym.Assume(vhSame(1, 2))
	dc := vhSub(sym.Answer(1, 0), sym.Answer(2, 0))
	vhNonzero(dc)
	ds1, ds2 := vhSub(p1.S1, p2.S1), vhSub(p1.S2, p2.S2)
	l1, q1 := vhAdd(ds1, vhMulH(ds2)), vhMul(dc, cm)
	l2, q2 := vhMul(ds2, pk), vhMul(dc, tok)
	sym.Assert(sym.Or(sym.And(sym.EqMod(l1, q1), sym.EqMod(l2, q2)),
		sym.And(sym.EqMod(l1, new(big.Int).Neg(q1)), sym.EqMod(l2, new(big.Int).Neg(q2)))),
		"no opening extracted from two accepted consistency proofs")
	sym.Cover("end")
}

// Two accepted disjunctive proofs with one hash input and two challenges give the discrete log of one side.
//verif: prop=P04 p=13 cost=5
func V_P04_disjunctive() {
	B1, b1 := vhGPt("b1")
	R1, r1 := vhGPt("r1")
	B2, b2 := vhGPt("b2")
	R2, r2 := vhGPt("r2")
	mk := func(i string) *DisjunctiveProof {
		U, _ := vhGPt("t1" + i)
		V, _ := vhGPt("t2" + i)
		return &DisjunctiveProof{T1: U, T2: V, C: sym.Wide("c" + i), C1: sym.Wide("c1" + i), C2: sym.Wide("c2" + i), S1: sym.Wide("s1" + i), S2: sym.Wide("s2" + i)}
	}
	p1, p2 := mk("1"), mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, B1, R1, B2, R2)
	sym.Oracle(2)
	ok2, e2 := p2.Verify(TestCurve, B1, R1, B2, R2)
	sym.Assume(ok1 && ok2 && e1 == nil && e2 == nil)
	sym.Assume(vhSame(1, 2))
	vhNonzero(vhSub(sym.Answer(1, 0), sym.Answer(2, 0)))
	dc1, dc2 := vhSub(p1.C1, p2.C1), vhSub(p1.C2, p2.C2)
	ds1, ds2 := vhSub(p1.S1, p2.S1), vhSub(p1.S2, p2.S2)
	zero := new(big.Int)
	left := sym.And(sym.Not(sym.EqMod(dc1, zero)), vhRel(ds1, b1, dc1, r1))
	right := sym.And(sym.Not(sym.EqMod(dc2, zero)), vhRel(ds2, b2, dc2, r2))
	sym.Assert(sym.Or(left, right), "no discrete log of either side extracted from two accepted disjunctive proofs")
	sym.Cover("end")
}

func vhABC(i string) *ABCProof {
	B, _ := vhGPt("B" + i)
	C, _ := vhGPt("C" + i)
	T1, _ := vhGPt("T1" + i)
	T2, _ := vhGPt("T2" + i)
	CT, _ := vhGPt("CT" + i)
	U, _ := vhGPt("t1" + i)
	V, _ := vhGPt("t2" + i)
	return &ABCProof{B: B, C: C, T1: T1, T2: T2, Challenge: sym.Wide("ch" + i), j: sym.Wide("j" + i), k: sym.Wide("k" + i), l: sym.Wide("l" + i), CToken: CT,
		disjuncAC: &DisjunctiveProof{T1: U, T2: V, C: sym.Wide("c" + i), C1: sym.Wide("c1" + i), C2: sym.Wide("c2" + i), S1: sym.Wide("s1" + i), S2: sym.Wide("s2" + i)}}
}

// An accepted ABC or inequality proof contains a disjunctive proof that is valid for CM, CMTok, H and C-G.
//verif: prop=P05 p=13 cost=5
func V_P05_embedded() {
	CM, _ := vhGPt("cm")
	Tok, _ := vhGPt("tok")
	p := vhABC("")
	sym.Oracle(1)
	var ok bool
	var err error
	if sym.Choice("kind", 2) == 0 {
		ok, err = p.Verify(TestCurve, CM, Tok)
	} else {
		ok, err = (*InequalityProof)(p).Verify(TestCurve, CM, Tok)
	}
	sym.Assume(ok && err == nil)
	dok, derr := p.disjuncAC.Verify(TestCurve, CM, Tok, TestCurve.H, vhPt(vhSub(sym.Dlog(p.C.X, p.C.Y), big.NewInt(1))))
	sym.Assert(dok && derr == nil, "accepted ABC proof with an invalid embedded disjunctive proof")
	sym.Cover("end")
}

// Two accepted ABC proofs with one outer hash input and two challenges open CM under the token and C as v*B.
//verif: prop=P05 p=13 cost=8
func V_P05_extract() {
	CM, cm := vhGPt("cm")
	Tok, tok := vhGPt("tok")
	p1, p2 := vhABC("1"), vhABC("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, CM, Tok)
	sym.Oracle(2)
	ok2, e2 := p2.Verify(TestCurve, CM, Tok)
	sym.Assume(ok1 && ok2 && e1 == nil && e2 == nil)
	sym.Assume(vhSame(1, 2))
	dc := vhSub(p1.Challenge, p2.Challenge)
	vhNonzero(dc)
	dj, dk, dl := vhSub(p1.j, p2.j), vhSub(p1.k, p2.k), vhSub(p1.l, p2.l)
	b, c := sym.Dlog(p1.B.X, p1.B.Y), sym.Dlog(p1.C.X, p1.C.Y)
	sym.Assert(sym.EqMod(vhAdd(dj, vhMul(dk, tok)), vhMul(dc, cm)), "no opening of the value commitment under the token")
	sym.Assert(sym.EqMod(vhAdd(vhMul(dj, b), vhMulH(dl)), vhMul(dc, c)), "the indicator commitment is not the extracted value times B")
	sym.Cover("end")
}
