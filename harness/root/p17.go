package zksigma

import (
	"math/big"
	"verifstub/sym"
)

// vhSnap remembers integers reachable from inputs and globals.
type vhSnap struct{ p, c []*big.Int }

func (s *vhSnap) ints(is ...*big.Int) {
	for _, i := range is {
		if i != nil {
			s.p = append(s.p, i)
			s.c = append(s.c, new(big.Int).Set(i))
		}
	}
}

func (s *vhSnap) pts(ps ...ECPoint) {
	for _, p := range ps {
		s.ints(p.X, p.Y)
	}
}

func vhSnapshot() *vhSnap {
	s := &vhSnap{}
	c := TestCurve.C.Params()
	s.ints(c.N, c.P, c.B, c.Gx, c.Gy, BigZero)
	s.pts(Zero, TestCurve.G, TestCurve.H)
	s.pts(TestCurve.HPoints...)
	return s
}

func (s *vhSnap) same(msg string) {
	ok := true
	for i := range s.p {
		ok = sym.And(ok, sym.Eq(s.p[i], s.c[i]))
	}
	sym.Assert(ok, msg)
}

// after checks the snapshot, then changes the returned scalars and checks again.
func (s *vhSnap) after(res ...*big.Int) {
	s.same("an input, curve parameter or constant was modified")
	for _, r := range res {
		if r != nil {
			r.Add(r, big.NewInt(1))
		}
	}
	s.same("a returned scalar shares storage with an input, curve parameter or constant")
	sym.Cover("end")
}

//verif: prop=P17 p=13
func V_P17_gspfs() {
	x := sym.Wide("x")
	b, bd := vhGPt("b")
	a := vhPt(vhMul(bd, x))
	s := vhSnapshot()
	s.ints(x)
	s.pts(a, b)
	p, err := NewGSPFSProofBase(TestCurve, b, a, x)
	if err != nil {
		s.after()
		return
	}
	s2 := vhSnapshot()
	ps, is := vhFGspfs(p)
	s2.pts(ps...)
	s2.ints(is...)
	s2.pts(a)
	p.Verify(TestCurve, a)
	p.Bytes()
	s2.after()
	s.after(is...)
}

//verif: prop=P17 p=13
func V_P17_equivalence() {
	x := sym.Wide("x")
	b1, d1 := vhGPt("b1")
	b2, d2 := vhGPt("b2")
	a1, a2 := vhPt(vhMul(d1, x)), vhPt(vhMul(d2, x))
	s := vhSnapshot()
	s.ints(x)
	s.pts(a1, a2, b1, b2)
	p, err := NewEquivalenceProof(TestCurve, b1, a1, b2, a2, x)
	if err != nil {
		s.after()
		return
	}
	s2 := vhSnapshot()
	ps, is := vhFEquiv(p)
	s2.pts(ps...)
	s2.ints(is...)
	p.Verify(TestCurve, b1, a1, b2, a2)
	p.Bytes()
	s2.after()
	s.after(is...)
}

//verif: prop=P17 p=13
func V_P17_disjunctive() {
	x := sym.Wide("x")
	b1, d1 := vhGPt("b1")
	b2, d2 := vhGPt("b2")
	y1, y2 := vhPt(vhMul(d1, x)), vhPt(vhMul(d2, x))
	side := Left
	if sym.Bool("right") {
		side = Right
	}
	s := vhSnapshot()
	s.ints(x)
	s.pts(b1, b2, y1, y2)
	p, err := NewDisjunctiveProof(TestCurve, b1, y1, b2, y2, x, side)
	if err != nil {
		s.after()
		return
	}
	s2 := vhSnapshot()
	ps, is := vhFDisj(p)
	s2.pts(ps...)
	s2.ints(is...)
	p.Verify(TestCurve, b1, y1, b2, y2)
	p.Bytes()
	s2.after()
	s.after(is...)
}

//verif: prop=P17 p=13
func V_P17_consistency() {
	v, u := sym.Wide("v"), sym.Wide("u")
	pk, sk := vhGPt("pk")
	cm, tok := vhPt(vhCom(v, u)), vhPt(vhMul(sk, u))
	s := vhSnapshot()
	s.ints(v, u)
	s.pts(pk, cm, tok)
	p, err := NewConsistencyProof(TestCurve, cm, tok, pk, v, u)
	if err != nil {
		s.after()
		return
	}
	s2 := vhSnapshot()
	ps, is := vhFCons(p)
	s2.pts(ps...)
	s2.ints(is...)
	p.Verify(TestCurve, cm, tok, pk)
	p.Bytes()
	s2.after()
	s.after(is...)
}

//verif: prop=P17 p=13 timeout=200
func V_P17_abc() {
	v, u, sk := sym.Scalar("v"), sym.Scalar("u"), sym.Scalar("sk")
	side := Left
	if sym.Bool("right") {
		side = Right
	}
	cm := vhPt(vhCom(v, u))
	tok := vhPt(vhMul(vhMulH(u), sk))
	s := vhSnapshot()
	s.ints(v, sk)
	s.pts(cm, tok)
	p, err := NewABCProof(TestCurve, cm, tok, v, sk, side)
	if err != nil {
		s.after()
		return
	}
	s2 := vhSnapshot()
	ps, is := vhFABC(p)
	s2.pts(ps...)
	s2.ints(is...)
	s2.after()
	s.after(is...)
}

//verif: prop=P17 ropes=0
func V_P17_abcbytes() {
	ps, is := vhFields(7, 9)
	dj := &DisjunctiveProof{ps[0], ps[1], is[0], is[1], is[2], is[3], is[4]}
	p := &ABCProof{ps[2], ps[3], ps[4], ps[5], is[5], is[6], is[7], is[8], ps[6], dj}
	s := &vhSnap{}
	s.pts(ps...)
	s.ints(is...)
	b := p.Bytes()
	NewABCProofFromBytes(b)
	s.after()
}

//verif: prop=P17 p=13 timeout=200
func V_P17_inequality() {
	a, b, u, w, sk := sym.Wide("a"), sym.Wide("b"), sym.Scalar("u"), sym.Scalar("w"), sym.Wide("sk")
	A, B := vhPt(vhCom(a, u)), vhPt(vhCom(b, w))
	ta, tb := vhPt(vhMul(vhMulH(u), sk)), vhPt(vhMul(vhMulH(w), sk))
	s := vhSnapshot()
	s.ints(a, b, sk)
	s.pts(A, B, ta, tb)
	p, err := NewInequalityProof(TestCurve, A, B, ta, tb, a, b, sk)
	if err != nil {
		s.after()
		return
	}
	_, is := vhFABC((*ABCProof)(p))
	s.after(is...)
}

// Commitments, openings and point arithmetic, on points that may be the identity.
//verif: prop=P17 p=13
func V_P17_points() {
	v, r := sym.Wide("v"), sym.Wide("r")
	a, _ := vhGPt("a")
	b, _ := vhGPt("b")
	s := vhSnapshot()
	s.ints(v, r)
	s.pts(a, b)
	var out *big.Int
	switch sym.Choice("op", 11) {
	case 0:
		TestCurve.Add(a, b)
	case 1:
		TestCurve.Sub(a, b)
	case 2:
		TestCurve.Neg(a)
	case 3:
		TestCurve.Mult(a, v)
	case 4:
		PedCommitR(TestCurve, v, r)
	case 5:
		_, out, _ = PedCommit(TestCurve, v)
	case 6:
		Open(TestCurve, v, r, a)
	case 7:
		VerifyR(TestCurve, a, b, r)
	case 8:
		CommitR(TestCurve, a, r)
	case 9:
		_, out = KeyGen(TestCurve.C, TestCurve.G)
	case 10:
		a.Equal(b)
		a.Bytes()
		out = GenerateChallenge(TestCurve, a.Bytes(), b.Bytes())
	}
	s.after(out)
}

// Verifying any proof, honest or not.
//verif: prop=P17 p=13 timeout=300
func V_P17_verify() {
	A, _ := vhGPt("A")
	B, _ := vhGPt("B")
	C, _ := vhGPt("C")
	D, _ := vhGPt("D")
	ps, is := make([]ECPoint, 7), make([]*big.Int, 9)
	for i := range ps {
		ps[i], _ = vhGPt("p")
	}
	for i := range is {
		is[i] = sym.Wide("i")
	}
	s := vhSnapshot()
	s.pts(A, B, C, D)
	s.pts(ps...)
	s.ints(is...)
	dj := &DisjunctiveProof{ps[0], ps[1], is[0], is[1], is[2], is[3], is[4]}
	switch sym.Choice("kind", 5) {
	case 0:
		(&GSPFSProof{ps[0], ps[1], is[0], is[1]}).Verify(TestCurve, A)
	case 1:
		(&EquivalenceProof{ps[0], ps[1], is[0], is[1]}).Verify(TestCurve, A, B, C, D)
	case 2:
		dj.Verify(TestCurve, A, B, C, D)
	case 3:
		(&ConsistencyProof{ps[0], ps[1], is[0], is[1], is[2]}).Verify(TestCurve, A, B, C)
	case 4:
		(&ABCProof{ps[2], ps[3], ps[4], ps[5], is[5], is[6], is[7], is[8], ps[6], dj}).Verify(TestCurve, A, B)
	}
	s.after()
}

//verif: prop=P17 p=13 hash=loose feas=0 timeout=300 at=10 stop=1 cost=5
func V_P17_rangeverify() {
	p, _, _ := vhRangeProof(sym.Choice("n", 3))
	com, _ := vhGPt("com")
	s := vhSnapshot()
	ps, is := vhFRange(p)
	s.pts(ps...)
	s.ints(is...)
	s.pts(com)
	p.Verify(TestCurve, com)
	p.Bytes()
	s.after()
}

//verif: prop=P17 p=79 dig=1 hash=loose feas=0 timeout=300 at=10 stop=1 cost=10
func V_P17_range() {
	v := sym.Bits("v", 40)
	s := vhSnapshot()
	s.ints(v)
	p, r, err := NewRangeProof(TestCurve, v)
	if err != nil {
		s.after()
		return
	}
	_, is := vhFRange(p)
	s.after(append(is, r)...)
}
