package zksigma

import (
	"math/big"
	"verifstub/sym"
)

func vhSameProofs(p, q *RangeProof) bool {
	a, b := vhFRange(p)
	c, d := vhFRange(q)
	if len(a) != len(c) || len(b) != len(d) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, vhPtEq(a[i], c[i]))
	}
	for i := range b {
		ok = sym.And(ok, sym.Eq(b[i], d[i]))
	}
	return ok
}

// The prover's goroutines, oldest first and youngest first, give the same proof from the same
// nonces, without a data race in either order.
//verif: prop=P11 p=79 dig=1 hash=loose feas=0 race=1 timeout=400 at=20 stop=1 cost=20
func V_P11_prove() {
	v := sym.Bits("v", 40)
	sym.Oracle(1)
	sym.Epoch(1)
	p, r, err := NewRangeProof(TestCurve, v)
	sym.Settle()
	sym.Assert(sym.Blocked() == 0, "proving leaves goroutines behind")
	sym.Epoch(1)
	sym.Order(1)
	q, s, err2 := NewRangeProof(TestCurve, v)
	sym.Settle()
	sym.Assert(sym.Blocked() == 0, "proving leaves goroutines behind")
	sym.Assert((err == nil) == (err2 == nil), "the schedule decides whether proving succeeds")
	if err == nil && err2 == nil {
		sym.Assert(sym.Eq(r, s), "the schedule decides the blinding")
		sym.Assert(vhSameProofs(p, q), "the schedule decides the proof")
		sym.Cover("end")
	}
}

// Verifying, in every schedule of the goroutines, gives the verdict of the equations.
//verif: prop=P11 p=13 race=1 sched=all timeout=300 stop=1
func V_P11_verify() {
	p, cs, agg := vhRangeProof(1 + sym.Choice("n", 2))
	com, dc := vhGPt("com")
	sym.Oracle(1)
	ok, err := p.Verify(TestCurve, com)
	sym.Assert(ok == (err == nil), "verdict and error disagree")
	ring, aggregate, comm := vhRangeSpec(p, cs, agg, dc)
	sym.Assert(ok == sym.And(ring, sym.And(aggregate, comm)), "the schedule decides the verdict")
	sym.Settle()
	sym.Assert(sym.Blocked() == 0, "verifying leaves goroutines behind")
	sym.Cover("end")
}

// The same with one goroutine per position of an honest proof, in two opposite orders.
//verif: prop=P11 p=79 dig=1 hash=loose feas=0 race=1 timeout=400 at=10 stop=1 cost=15
func V_P11_verify40() {
	p, _, _ := vhRangeProof(40)
	com, _ := vhGPt("com")
	sym.Oracle(1)
	ok, _ := p.Verify(TestCurve, com)
	sym.Settle()
	sym.Assert(sym.Blocked() == 0, "verifying leaves goroutines behind")
	sym.Order(1)
	ok2, _ := p.Verify(TestCurve, com)
	sym.Settle()
	sym.Assert(sym.Blocked() == 0, "verifying leaves goroutines behind")
	sym.Assert(ok == ok2, "the schedule decides the verdict")
	sym.Cover("end")
}

// Incomplete or oversized proofs leave no goroutine behind either.
//verif: prop=P11 p=13 race=1 timeout=300 stop=1
func V_P11_refused() {
	var h vhHoles
	p := &RangeProof{}
	n := 1 + sym.Choice("n", 2)
	for i := 0; i < n; i++ {
		p.ProofTuples = append(p.ProofTuples, rangeProofTuple{h.pt("C"), h.int("S")})
	}
	p.ProofAggregate = h.pt("agg")
	p.ProofE = h.int("e")
	zk := TestCurve
	zk.HPoints = zk.HPoints[:sym.Choice("k", 3)]
	com, _ := vhGPt("com")
	ok, _ := p.Verify(zk, com)
	sym.Settle()
	sym.Assert(sym.Blocked() == 0, "verifying leaves goroutines behind")
	if !ok {
		sym.Cover("refused")
	}
}

// Independent users of the package at the same time do not race on anything shared.
//verif: prop=P11 p=13 race=1 timeout=300 stop=1
func V_P11_users() {
	x := sym.Scalar("x")
	b, bd := vhGPt("b")
	a := vhPt(vhMul(bd, x))
	done := make(chan bool, 2)
	k := sym.Choice("op", 7)
	for i := 0; i < 2; i++ {
		go func() {
			vhUse(k, x, a, b)
			done <- true
		}()
	}
	<-done
	<-done
	sym.Cover("end")
}

func vhUse(k int, x *big.Int, a, b ECPoint) {
	switch k {
	case 0:
		if p, err := NewGSPFSProofBase(TestCurve, b, a, x); err == nil {
			p.Verify(TestCurve, a)
		}
	case 1:
		if p, err := NewEquivalenceProof(TestCurve, b, a, b, a, x); err == nil {
			p.Verify(TestCurve, b, a, b, a)
		}
	case 2:
		if p, err := NewDisjunctiveProof(TestCurve, b, a, b, a, x, Left); err == nil {
			p.Verify(TestCurve, b, a, b, a)
		}
	case 3:
		if p, err := NewConsistencyProof(TestCurve, a, b, b, x, x); err == nil {
			p.Verify(TestCurve, a, b, b)
		}
	case 4:
		NewABCProof(TestCurve, a, b, x, x, Right)
	case 5:
		c, r, _ := PedCommit(TestCurve, x)
		Open(TestCurve, x, r, c)
		KeyGen(TestCurve.C, TestCurve.G)
	case 6:
		TestCurve.Sub(TestCurve.Add(a, b), TestCurve.Neg(a)).Equal(b)
		TestCurve.Mult(a, x).Bytes()
	}
}
