package zksigma

import (
	"verifstub/sha256"
	"math/big"
	"verifstub/sym"
)

// vhRangeSpec states when a range proof over the bit weights 2^i is to be accepted
// for the commitment with logarithm com: the challenge is the hash of all ring points
// recomputed from the tuples, and the bit commitments add up to the aggregate and com.
func vhRangeSpec(p *RangeProof, cs []*big.Int, agg, com *big.Int) (ring, aggregate, comm bool) {
	sum := new(big.Int)
	var all []byte
	for i, t := range p.ProofTuples {
		w := new(big.Int).Lsh(big.NewInt(1), uint(i))
		// S H - e (C - 2^i G)
		d := vhSub(vhMulH(t.S), vhMul(p.ProofE, vhSub(cs[i], w)))
		tot := vhPt(d)
		h := sha256.Sum256(append(tot.X.Bytes(), tot.Y.Bytes()...))
		r := vhPt(vhMul(new(big.Int).SetBytes(h[:]), cs[i]))
		all = append(all, r.X.Bytes()...)
		all = append(all, r.Y.Bytes()...)
		sum = vhAdd(sum, cs[i])
	}
	h := sha256.Sum256(all)
	e := new(big.Int).Mod(new(big.Int).SetBytes(h[:]), sym.N())
	return sym.Eq(p.ProofE, e), sym.EqMod(sum, agg), sym.EqMod(sum, com)
}

func vhRangeProof(n int) (p *RangeProof, cs []*big.Int, agg *big.Int) {
	p = &RangeProof{}
	for i := 0; i < n; i++ {
		C, c := vhGPt("C" + string([]byte{'a' + byte(i/8), '0' + byte(i%8)}))
		p.ProofTuples = append(p.ProofTuples, rangeProofTuple{C, sym.Scalar("S" + string([]byte{'a' + byte(i/8), '0' + byte(i%8)}))})
		cs = append(cs, c)
	}
	p.ProofAggregate, agg = vhGPt("agg")
	p.ProofE = sym.Scalar("e")
	return
}

func vhRangeSound(n int) {
	p, cs, agg := vhRangeProof(n)
	sym.Oracle(1)
	com, dc := vhGPt("com")
	ok, err := p.Verify(TestCurve, com)
	sym.Assert(ok == (err == nil), "verdict and error disagree")
	if ok {
		ring, aggregate, comm := vhRangeSpec(p, cs, agg, dc)
		sym.Assert(ring, "a range proof is accepted although its challenge is not the hash of the ring points")
		sym.Assert(aggregate, "a range proof is accepted although the bit commitments do not sum to the aggregate")
		sym.Assert(comm, "a range proof is accepted for a commitment the bit commitments do not sum to")
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

// Any proof with up to two positions.
//verif: prop=P10 p=13 timeout=300 stop=1
func V_P10_small() {
	vhRangeSound(sym.Choice("n", 3))
}

// Any proof with the 40 positions an honest one has.
//verif: prop=P10 p=79 dig=1 hash=loose feas=0 timeout=400 at=10 stop=1 cost=10
func V_P10_forty() {
	vhRangeSound(40)
}

// Any proof with as many positions as there are weights.
//verif: prop=P10 p=79 dig=1 hash=loose feas=0 timeout=400 at=10 stop=1 cost=10 tier=thorough
func V_P10_all() {
	vhRangeSound(len(TestCurve.HPoints))
}

// A proof with more positions than there are weights is refused.
//verif: prop=P10 p=13 timeout=300 stop=1
func V_P10_toomany() {
	zk := TestCurve
	k := sym.Choice("k", 3)
	zk.HPoints = zk.HPoints[:k]
	p, cs, _ := vhRangeProof(k + 1 + sym.Choice("extra", 2))
	sum := new(big.Int)
	for _, c := range cs {
		sum = vhAdd(sum, c)
	}
	p.ProofAggregate = vhPt(sum)
	ok, err := p.Verify(zk, vhPt(sum))
	sym.Assert(!ok && err != nil, "a range proof with more positions than supported is accepted")
}
