package zksigma

import (
	"math/big"
	"verifstub/sym"
)

// vhHoles gives np points and ni scalars, any of which (at least one) may be missing.
type vhHoles struct{ any bool }

func (h *vhHoles) int(name string) *big.Int {
	if sym.Bool("missing") {
		h.any = true
		return nil
	}
	return sym.Wide(name)
}

func (h *vhHoles) pt(name string) ECPoint {
	p, _ := vhGPt(name)
	if sym.Bool("missing") {
		h.any = true
		p.X = nil
	}
	if sym.Bool("missing") {
		h.any = true
		p.Y = nil
	}
	return p
}

func vhRefused(ok bool, err error) {
	sym.Assert(!ok, "an incomplete proof is accepted")
	sym.Assert(err != nil, "an incomplete proof is refused without an error")
	sym.Cover("refused")
}

//verif: prop=P16 p=13
func V_P16_nil() {
	A, _ := vhGPt("A")
	B, _ := vhGPt("B")
	C, _ := vhGPt("C")
	D, _ := vhGPt("D")
	var ok bool
	var err error
	switch sym.Choice("kind", 7) {
	case 0:
		var p *GSPFSProof
		ok, err = p.Verify(TestCurve, A)
	case 1:
		var p *EquivalenceProof
		ok, err = p.Verify(TestCurve, A, B, C, D)
	case 2:
		var p *DisjunctiveProof
		ok, err = p.Verify(TestCurve, A, B, C, D)
	case 3:
		var p *ConsistencyProof
		ok, err = p.Verify(TestCurve, A, B, C)
	case 4:
		var p *ABCProof
		ok, err = p.Verify(TestCurve, A, B)
	case 5:
		var p *InequalityProof
		ok, err = p.Verify(TestCurve, A, B)
	case 6:
		var p *RangeProof
		ok, err = p.Verify(TestCurve, A)
	}
	vhRefused(ok, err)
}

//verif: prop=P16 p=13
func V_P16_gspfs() {
	var h vhHoles
	p := &GSPFSProof{h.pt("base"), h.pt("rc"), h.int("s"), h.int("c")}
	A, _ := vhGPt("A")
	sym.Assume(h.any)
	ok, err := p.Verify(TestCurve, A)
	vhRefused(ok, err)
}

//verif: prop=P16 p=13
func V_P16_equivalence() {
	var h vhHoles
	p := &EquivalenceProof{h.pt("ug"), h.pt("uh"), h.int("c"), h.int("s")}
	A, _ := vhGPt("A")
	B, _ := vhGPt("B")
	C, _ := vhGPt("C")
	D, _ := vhGPt("D")
	sym.Assume(h.any)
	ok, err := p.Verify(TestCurve, A, B, C, D)
	vhRefused(ok, err)
}

//verif: prop=P16 p=13
func V_P16_disjunctive() {
	var h vhHoles
	p := &DisjunctiveProof{h.pt("t1"), h.pt("t2"), h.int("c"), h.int("c1"), h.int("c2"), h.int("s1"), h.int("s2")}
	A, _ := vhGPt("A")
	B, _ := vhGPt("B")
	C, _ := vhGPt("C")
	D, _ := vhGPt("D")
	sym.Assume(h.any)
	ok, err := p.Verify(TestCurve, A, B, C, D)
	vhRefused(ok, err)
}

//verif: prop=P16 p=13
func V_P16_consistency() {
	var h vhHoles
	p := &ConsistencyProof{h.pt("t1"), h.pt("t2"), h.int("c"), h.int("s1"), h.int("s2")}
	A, _ := vhGPt("A")
	B, _ := vhGPt("B")
	C, _ := vhGPt("C")
	sym.Assume(h.any)
	ok, err := p.Verify(TestCurve, A, B, C)
	vhRefused(ok, err)
}

func vhHoleABC(h *vhHoles) *ABCProof {
	p := &ABCProof{B: h.pt("B"), C: h.pt("C"), T1: h.pt("T1"), T2: h.pt("T2"), Challenge: h.int("ch"),
		j: h.int("j"), k: h.int("k"), l: h.int("l")}
	p.CToken, _ = vhGPt("CT")
	if sym.Choice("embedded", 2) == 0 {
		h.any = true
		return p
	}
	p.disjuncAC = &DisjunctiveProof{h.pt("t1"), h.pt("t2"), h.int("c"), h.int("c1"), h.int("c2"), h.int("s1"), h.int("s2")}
	return p
}

//verif: prop=P16 p=13 cost=3
func V_P16_abc() {
	var h vhHoles
	p := vhHoleABC(&h)
	A, _ := vhGPt("A")
	B, _ := vhGPt("Tok")
	sym.Assume(h.any)
	ok, err := p.Verify(TestCurve, A, B)
	vhRefused(ok, err)
}

//verif: prop=P16 p=13 cost=3
func V_P16_inequality() {
	var h vhHoles
	p := (*InequalityProof)(vhHoleABC(&h))
	A, _ := vhGPt("A")
	B, _ := vhGPt("Tok")
	sym.Assume(h.any)
	ok, err := p.Verify(TestCurve, A, B)
	vhRefused(ok, err)
}

// Incomplete range proofs with up to three positions, and more positions than supported.
//verif: prop=P16 p=13 race=1 cost=3
func V_P16_range() {
	var h vhHoles
	zk := TestCurve
	zk.HPoints = zk.HPoints[:3]
	p := &RangeProof{ProofAggregate: h.pt("agg"), ProofE: h.int("e")}
	n := sym.Choice("positions", 6)
	for i := 0; i < n; i++ {
		p.ProofTuples = append(p.ProofTuples, rangeProofTuple{h.pt("c"), h.int("s")})
	}
	A, _ := vhGPt("A")
	sym.Assume(sym.Or(h.any, n > 3))
	ok, err := p.Verify(zk, A)
	vhRefused(ok, err)
	sym.Settle()
	sym.Assert(sym.Blocked() == 0, "verification leaves goroutines behind")
}
