package zksigma

import (
	"math/big"
	"verifstub/sym"
)

// vhBound checks the two obligations of one pair of verifications: acceptance means that the
// proof's challenge is the hash answer, and equal hash inputs mean equal statements and commitments.
func vhBound(ok1 bool, e1 error, ch *big.Int, same bool) {
	n := sym.Queries(1)
	sym.Assert(ok1 == (e1 == nil), "verdict and error disagree")
	if ok1 {
		sym.Assert(n > 0, "a proof was accepted without hashing anything")
		sym.Assert(sym.EqMod(sym.Answer(1, n-1), ch), "a proof was accepted whose challenge is not the hash of the transcript")
		sym.Cover("accepted")
	}
	if n > 0 && n == sym.Queries(2) {
		eq := true
		for i := 0; i < n; i++ {
			eq = sym.And(eq, sym.SameBytes(1, i, 2, i))
		}
		sym.Assert(sym.Implies(eq, same), "two different statements or commitments hash the same bytes")
		sym.Cover("hashed")
	}
}

func vhPtEq(a, b ECPoint) bool {
	return sym.And(sym.Eq(a.X, b.X), sym.Eq(a.Y, b.Y))
}

//verif: prop=P06 p=13 at=120
func V_P06_gspfs() {
	mk := func(i string) (*GSPFSProof, ECPoint) {
		B, _ := vhGPt("base" + i)
		A, _ := vhGPt("a" + i)
		T, _ := vhGPt("t" + i)
		return &GSPFSProof{Base: B, RandCommit: T, HiddenValue: sym.Wide("s" + i), Challenge: sym.Wide("c" + i)}, A
	}
	p1, A1 := mk("1")
	p2, A2 := mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, A1)
	sym.Oracle(2)
	p2.Verify(TestCurve, A2)
	vhBound(ok1, e1, p1.Challenge, sym.And(vhPtEq(A1, A2), sym.And(vhPtEq(p1.Base, p2.Base), vhPtEq(p1.RandCommit, p2.RandCommit))))
}

//verif: prop=P06 p=13 at=120
func V_P06_equivalence() {
	mk := func(i string) (*EquivalenceProof, []ECPoint) {
		U, _ := vhGPt("u" + i)
		V, _ := vhGPt("v" + i)
		B1, _ := vhGPt("b1" + i)
		R1, _ := vhGPt("r1" + i)
		B2, _ := vhGPt("b2" + i)
		R2, _ := vhGPt("r2" + i)
		return &EquivalenceProof{UG: U, UH: V, Challenge: sym.Wide("c" + i), HiddenValue: sym.Wide("s" + i)}, []ECPoint{B1, R1, B2, R2, U, V}
	}
	p1, s1 := mk("1")
	p2, s2 := mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, s1[0], s1[1], s1[2], s1[3])
	sym.Oracle(2)
	p2.Verify(TestCurve, s2[0], s2[1], s2[2], s2[3])
	vhBound(ok1, e1, p1.Challenge, vhAllEq(s1, s2))
}

func vhAllEq(a, b []ECPoint) bool {
	r := true
	for i := range a {
		r = sym.And(r, vhPtEq(a[i], b[i]))
	}
	return r
}

//verif: prop=P06 p=13 at=120
func V_P06_disjunctive() {
	mk := func(i string) (*DisjunctiveProof, []ECPoint) {
		U, _ := vhGPt("t1" + i)
		V, _ := vhGPt("t2" + i)
		B1, _ := vhGPt("b1" + i)
		R1, _ := vhGPt("r1" + i)
		B2, _ := vhGPt("b2" + i)
		R2, _ := vhGPt("r2" + i)
		return &DisjunctiveProof{T1: U, T2: V, C: sym.Wide("c" + i), C1: sym.Wide("c1" + i), C2: sym.Wide("c2" + i), S1: sym.Wide("s1" + i), S2: sym.Wide("s2" + i)}, []ECPoint{B1, R1, B2, R2, U, V}
	}
	p1, s1 := mk("1")
	p2, s2 := mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, s1[0], s1[1], s1[2], s1[3])
	sym.Oracle(2)
	p2.Verify(TestCurve, s2[0], s2[1], s2[2], s2[3])
	vhBound(ok1, e1, p1.C, vhAllEq(s1, s2))
}

//verif: prop=P06 p=13 at=120
func V_P06_consistency() {
	mk := func(i string) (*ConsistencyProof, []ECPoint) {
		U, _ := vhGPt("t1" + i)
		V, _ := vhGPt("t2" + i)
		CM, _ := vhGPt("cm" + i)
		Tok, _ := vhGPt("tok" + i)
		PK, _ := vhGPt("pk" + i)
		return &ConsistencyProof{T1: U, T2: V, Challenge: sym.Wide("c" + i), S1: sym.Wide("s1" + i), S2: sym.Wide("s2" + i)}, []ECPoint{CM, Tok, PK, U, V}
	}
	p1, s1 := mk("1")
	p2, s2 := mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, s1[0], s1[1], s1[2])
	sym.Oracle(2)
	p2.Verify(TestCurve, s2[0], s2[1], s2[2])
	vhBound(ok1, e1, p1.Challenge, vhAllEq(s1, s2))
}

// The outer challenge of an ABC proof; the embedded disjunctive proof is the previous harness' case.
//verif: prop=P06 p=13 at=120 cost=5
func V_P06_abc() {
	mk := func(i string) (*ABCProof, []ECPoint) {
		p := vhABC(i)
		CM, _ := vhGPt("cm" + i)
		Tok, _ := vhGPt("tok" + i)
		return p, []ECPoint{CM, Tok, p.B, p.C, p.T1, p.T2}
	}
	p1, s1 := mk("1")
	p2, s2 := mk("2")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, s1[0], s1[1])
	sym.Oracle(2)
	p2.Verify(TestCurve, s2[0], s2[1])
	sym.Oracle(3)
	p1.disjuncAC.Verify(TestCurve, s1[0], s1[1], TestCurve.H, TestCurve.Sub(p1.C, TestCurve.G))
	sym.Assert(ok1 == (e1 == nil), "verdict and error disagree")
	n := sym.Queries(1)
	if ok1 {
		sym.Assert(n > 1, "an ABC proof was accepted without hashing its own transcript")
	}
	if n < 2 || sym.Queries(2) != n {
		return
	}
	o := 1
	if !sym.SameQuery(1, 0, 3, 0) {
		o = 0
	}
	if ok1 {
		sym.Assert(sym.EqMod(sym.Answer(1, o), p1.Challenge), "a proof was accepted whose challenge is not the hash of the transcript")
		sym.Cover("accepted")
	}
	sym.Assert(sym.Implies(sym.SameBytes(1, o, 2, o), vhAllEq(s1, s2)), "two different statements or commitments hash the same bytes")
	sym.Cover("hashed")
}

// The inequality verifier hashes like the ABC verifier it is built on.
//verif: prop=P06 p=13 at=120 cost=5
func V_P06_inequality() {
	mk := func(i string) (*InequalityProof, []ECPoint) {
		p := vhABC(i)
		A, _ := vhGPt("A" + i)
		B, _ := vhGPt("Bc" + i)
		return (*InequalityProof)(p), []ECPoint{A, B, p.B, p.C, p.T1, p.T2}
	}
	p1, s1 := mk("1")
	sym.Oracle(1)
	ok1, e1 := p1.Verify(TestCurve, s1[0], s1[1])
	sym.Assert(ok1 == (e1 == nil), "verdict and error disagree")
	if ok1 {
		n := sym.Queries(1)
		sym.Assert(n > 0, "a proof was accepted without hashing anything")
		sym.Assert(sym.Or(sym.EqMod(sym.Answer(1, n-1), p1.Challenge), sym.EqMod(sym.Answer(1, 0), p1.Challenge)), "a proof was accepted whose challenge is not the hash of the transcript")
		sym.Cover("accepted")
	}
}
