package zksigma

import (
	"bytes"
	"math/big"
	"verifstub/sym"
)

func vhPow(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// vhLen: any integer whose magnitude takes exactly n bytes.
func vhLen(name string, n int, neg bool) *big.Int {
	if n == 0 {
		return new(big.Int)
	}
	v := sym.IntB(name, vhPow(8*(n-1)), new(big.Int).Sub(vhPow(8*n), big.NewInt(1)))
	if neg {
		v.Neg(v)
	}
	return v
}

var vhIntLens = []int{0, 1, 31, 32, 33, 64, 250, 251, 252, 253, 4094, 4095}

// Integers of every sign and of sizes around each boundary of the format round-trip.
//verif: prop=P14 ropes=0 solvers=cvc5,z3
func V_P14_int() {
	k := sym.Choice("len", len(vhIntLens)-2)
	neg := sym.Choice("neg", 2) == 1
	v := vhLen("v", vhIntLens[k], neg)
	nxt := sym.Byte("next")
	var buf bytes.Buffer
	sym.Assert(WriteBigInt(&buf, v) == nil, "writing an integer failed")
	buf.WriteByte(nxt)
	r, err := ReadBigInt(&buf)
	sym.Assert(err == nil && r != nil, "a written integer cannot be read")
	sym.Assert(sym.Eq(r, v), "integer is not read back")
	c, err := buf.ReadByte()
	sym.Assert(err == nil && c == nxt && buf.Len() == 0, "stream is not left at the following byte")
	sym.Cover("end")
}

// Integers too large for the format are refused by the writer, all others accepted.
//verif: prop=P14 ropes=0 tier=thorough
func V_P14_intMax() {
	k := sym.Choice("len", 3)
	n := 4094 + k
	b := make([]byte, n)
	b[0] = 1 + sym.Byte("top")%255
	b[n-1] = sym.Byte("low")
	v := new(big.Int).SetBytes(b)
	var buf bytes.Buffer
	err := WriteBigInt(&buf, v)
	if n > 4095 {
		sym.Assert(err != nil && buf.Len() == 0, "an integer that cannot be read back is written")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil, "writing an integer failed")
	r, err := ReadBigInt(&buf)
	sym.Assert(err == nil && r != nil, "a written integer cannot be read")
	sym.Assert(sym.Eq(r, v), "integer is not read back")
	sym.Cover("end")
}

// Points with coordinates of every size round-trip.
//verif: prop=P14 ropes=0
func V_P14_point() {
	x := vhLen("x", sym.Choice("xlen", 33), false)
	y := vhLen("y", []int{0, 1, 31, 32}[sym.Choice("ylen", 4)], false)
	nxt := sym.Byte("next")
	var buf bytes.Buffer
	sym.Assert(WriteECPoint(&buf, ECPoint{x, y}) == nil, "writing a point failed")
	buf.WriteByte(nxt)
	r, err := ReadECPoint(&buf)
	sym.Assert(err == nil && r.X != nil && r.Y != nil, "a written point cannot be read")
	sym.Assert(sym.And(sym.Eq(r.X, x), sym.Eq(r.Y, y)), "point is not read back")
	c, err := buf.ReadByte()
	sym.Assert(err == nil && c == nxt && buf.Len() == 0, "stream is not left at the following byte")
	sym.Cover("end")
}

// The same for the second coordinate.
//verif: prop=P14 ropes=0
func V_P14_pointY() {
	x := vhLen("x", []int{0, 1, 31, 32}[sym.Choice("xlen", 4)], false)
	y := vhLen("y", sym.Choice("ylen", 33), false)
	nxt := sym.Byte("next")
	var buf bytes.Buffer
	sym.Assert(WriteECPoint(&buf, ECPoint{x, y}) == nil, "writing a point failed")
	buf.WriteByte(nxt)
	r, err := ReadECPoint(&buf)
	sym.Assert(err == nil && r.X != nil && r.Y != nil, "a written point cannot be read")
	sym.Assert(sym.And(sym.Eq(r.X, x), sym.Eq(r.Y, y)), "point is not read back")
	c, err := buf.ReadByte()
	sym.Assert(err == nil && c == nxt && buf.Len() == 0, "stream is not left at the following byte")
	sym.Cover("end")
}

// Integers of each size up to 66 bytes.
//verif: prop=P14 ropes=0
func V_P14_intSizes() {
	v := vhLen("v", sym.Choice("len", 67), sym.Choice("neg", 2) == 1)
	var buf bytes.Buffer
	sym.Assert(WriteBigInt(&buf, v) == nil, "writing an integer failed")
	buf.WriteByte(7)
	r, err := ReadBigInt(&buf)
	sym.Assert(err == nil && r != nil, "a written integer cannot be read")
	sym.Assert(sym.Eq(r, v), "integer is not read back")
	c, err := buf.ReadByte()
	sym.Assert(err == nil && c == 7 && buf.Len() == 0, "stream is not left at the following byte")
	sym.Cover("end")
}

// vhFields makes np points and ni integers of two bytes each, one of which (any of them) takes an
// unusual size or sign instead.
func vhFields(np, ni int) (ps []ECPoint, is []*big.Int) {
	sel := sym.Choice("field", 2*np+ni)
	n := 0
	next := func(pt bool) *big.Int {
		i := n
		n++
		if i != sel {
			return vhLen("f", 2, false)
		}
		if pt {
			return vhLen("special", []int{0, 1, 31, 32}[sym.Choice("kind", 4)], false)
		}
		k := sym.Choice("kind", 6)
		return vhLen("special", []int{0, 1, 32, 33, 1, 40}[k], k >= 4)
	}
	for i := 0; i < np; i++ {
		x := next(true)
		ps = append(ps, ECPoint{x, next(true)})
	}
	for i := 0; i < ni; i++ {
		is = append(is, next(false))
	}
	return
}

func vhSameFields(p, q []ECPoint, a, b []*big.Int) {
	sym.Assert(len(p) == len(q) && len(a) == len(b), "decoded proof has another number of fields")
	ok := true
	for i := range p {
		sym.Assert(complete([]ECPoint{q[i]}), "decoded proof lacks a point")
		ok = sym.And(ok, sym.And(sym.Eq(p[i].X, q[i].X), sym.Eq(p[i].Y, q[i].Y)))
	}
	for i := range a {
		sym.Assert(b[i] != nil, "decoded proof lacks a scalar")
		ok = sym.And(ok, sym.Eq(a[i], b[i]))
	}
	sym.Assert(ok, "decoded proof differs in a field")
	sym.Cover("end")
}

func vhFGspfs(p *GSPFSProof) ([]ECPoint, []*big.Int) {
	return []ECPoint{p.Base, p.RandCommit}, []*big.Int{p.HiddenValue, p.Challenge}
}
func vhFEquiv(p *EquivalenceProof) ([]ECPoint, []*big.Int) {
	return []ECPoint{p.UG, p.UH}, []*big.Int{p.Challenge, p.HiddenValue}
}
func vhFDisj(p *DisjunctiveProof) ([]ECPoint, []*big.Int) {
	return []ECPoint{p.T1, p.T2}, []*big.Int{p.C, p.C1, p.C2, p.S1, p.S2}
}
func vhFCons(p *ConsistencyProof) ([]ECPoint, []*big.Int) {
	return []ECPoint{p.T1, p.T2}, []*big.Int{p.Challenge, p.S1, p.S2}
}
func vhFABC(p *ABCProof) ([]ECPoint, []*big.Int) {
	ps := []ECPoint{p.B, p.C, p.T1, p.T2, p.CToken}
	is := []*big.Int{p.Challenge, p.j, p.k, p.l}
	if p.disjuncAC != nil {
		q, j := vhFDisj(p.disjuncAC)
		ps, is = append(ps, q...), append(is, j...)
	}
	return ps, is
}
func vhFRange(p *RangeProof) ([]ECPoint, []*big.Int) {
	ps, is := []ECPoint{p.ProofAggregate}, []*big.Int{p.ProofE}
	for _, t := range p.ProofTuples {
		ps, is = append(ps, t.C), append(is, t.S)
	}
	return ps, is
}

//verif: prop=P14 ropes=0
func V_P14_gspfs() {
	ps, is := vhFields(2, 2)
	p := &GSPFSProof{ps[0], ps[1], is[0], is[1]}
	q, err := NewGSPFSProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil, "serialised proof cannot be decoded")
	a, b := vhFGspfs(p)
	c, d := vhFGspfs(q)
	vhSameFields(a, c, b, d)
}

//verif: prop=P14 ropes=0
func V_P14_equivalence() {
	ps, is := vhFields(2, 2)
	p := &EquivalenceProof{ps[0], ps[1], is[0], is[1]}
	q, err := NewEquivalenceProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil, "serialised proof cannot be decoded")
	a, b := vhFEquiv(p)
	c, d := vhFEquiv(q)
	vhSameFields(a, c, b, d)
}

//verif: prop=P14 ropes=0
func V_P14_disjunctive() {
	ps, is := vhFields(2, 5)
	p := &DisjunctiveProof{ps[0], ps[1], is[0], is[1], is[2], is[3], is[4]}
	q, err := NewDisjunctiveProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil, "serialised proof cannot be decoded")
	a, b := vhFDisj(p)
	c, d := vhFDisj(q)
	vhSameFields(a, c, b, d)
}

//verif: prop=P14 ropes=0
func V_P14_consistency() {
	ps, is := vhFields(2, 3)
	p := &ConsistencyProof{ps[0], ps[1], is[0], is[1], is[2]}
	q, err := NewConsistencyProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil, "serialised proof cannot be decoded")
	a, b := vhFCons(p)
	c, d := vhFCons(q)
	vhSameFields(a, c, b, d)
}

//verif: prop=P14 ropes=0 cost=4
func V_P14_abc() {
	ps, is := vhFields(7, 9)
	p := &ABCProof{B: ps[0], C: ps[1], T1: ps[2], T2: ps[3], CToken: ps[4], Challenge: is[0], j: is[1], k: is[2], l: is[3],
		disjuncAC: &DisjunctiveProof{ps[5], ps[6], is[4], is[5], is[6], is[7], is[8]}}
	q, err := NewABCProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil && q.disjuncAC != nil, "serialised proof cannot be decoded")
	a, b := vhFABC(p)
	c, d := vhFABC(q)
	vhSameFields(a, c, b, d)
}

// Range proofs with 0 to 3 positions, and with 253 (whose number takes the longer form).
//verif: prop=P14 ropes=0 cost=3
func V_P14_range() {
	k := sym.Choice("positions", 4)
	ps, is := vhFields(1+k, 1+k)
	p := &RangeProof{ProofAggregate: ps[0], ProofE: is[0], ProofTuples: []rangeProofTuple{}}
	for i := 0; i < k; i++ {
		p.ProofTuples = append(p.ProofTuples, rangeProofTuple{ps[1+i], is[1+i]})
	}
	q, err := NewRangeProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil, "serialised proof cannot be decoded")
	a, b := vhFRange(p)
	c, d := vhFRange(q)
	vhSameFields(a, c, b, d)
}

// A range proof of the prover's size.
//verif: prop=P14 ropes=0 cost=3
func V_P14_range40() {
	p := &RangeProof{ProofAggregate: ECPoint{vhLen("f", 2, false), vhLen("f", 2, false)}, ProofE: vhLen("f", 2, false)}
	for i := 0; i < 40; i++ {
		p.ProofTuples = append(p.ProofTuples, rangeProofTuple{ECPoint{vhLen("f", 1, false), vhLen("f", 1, false)}, vhLen("f", 1, false)})
	}
	q, err := NewRangeProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil, "serialised proof cannot be decoded")
	a, b := vhFRange(p)
	c, d := vhFRange(q)
	vhSameFields(a, c, b, d)
}

// A full-size ABC proof: 32-byte coordinates and scalars of 32 bytes, whose embedded proof takes
// the longer length form.
//verif: prop=P14 ropes=0 cost=2
func V_P14_abcFull() {
	var ps []ECPoint
	var is []*big.Int
	for i := 0; i < 7; i++ {
		ps = append(ps, ECPoint{vhLen("x", 32, false), vhLen("y", 32, false)})
	}
	for i := 0; i < 9; i++ {
		is = append(is, vhLen("s", 32, false))
	}
	p := &ABCProof{B: ps[0], C: ps[1], T1: ps[2], T2: ps[3], CToken: ps[4], Challenge: is[0], j: is[1], k: is[2], l: is[3],
		disjuncAC: &DisjunctiveProof{ps[5], ps[6], is[4], is[5], is[6], is[7], is[8]}}
	q, err := NewABCProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil && q.disjuncAC != nil, "serialised proof cannot be decoded")
	a, b := vhFABC(p)
	c, d := vhFABC(q)
	vhSameFields(a, c, b, d)
}

// Range proofs of other lengths, around the boundaries of the count's encoding: the last
// position, the aggregate and the challenge are symbolic, the other positions concrete and distinct.
//verif: prop=P14 ropes=0 cost=4
func V_P14_rangeLong() {
	n := []int{41, 64, 127, 128, 252, 253, 255, 256, 300}[sym.Choice("positions", 9)]
	p := &RangeProof{ProofAggregate: ECPoint{vhLen("f", 2, false), vhLen("f", 2, false)}, ProofE: vhLen("f", 2, false)}
	for i := 0; i < n; i++ {
		if i == n-1 {
			p.ProofTuples = append(p.ProofTuples, rangeProofTuple{ECPoint{vhLen("f", 2, false), vhLen("f", 1, false)}, vhLen("f", 2, false)})
			continue
		}
		p.ProofTuples = append(p.ProofTuples, rangeProofTuple{ECPoint{big.NewInt(int64(i)), big.NewInt(int64(2 * i))}, big.NewInt(int64(-3 * i))})
	}
	q, err := NewRangeProofFromBytes(p.Bytes())
	sym.Assert(err == nil && q != nil, "serialised proof cannot be decoded")
	a, b := vhFRange(p)
	c, d := vhFRange(q)
	vhSameFields(a, c, b, d)
}
