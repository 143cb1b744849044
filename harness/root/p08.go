package zksigma

import (
	"verifstub/sym"
)

// An honest range proof of any 40-bit value verifies against vG + rH and no other point.
//verif: prop=P08 p=79 dig=1 hash=loose feas=0 timeout=600 at=60 stop=1 cost=20
func V_P08_complete() {
	v := sym.Bits("v", 40)
	sym.Oracle(1)
	p, r, err := NewRangeProof(TestCurve, v)
	sym.Assert(err == nil, "range proving failed for a value in range")
	sym.Assert(p != nil && r != nil, "range proving returned no proof")
	sym.Assert(sym.Canonical(r), "range proving returned a blinding outside [0, N)")
	agg := sym.Dlog(p.ProofAggregate.X, p.ProofAggregate.Y)
	sym.Assert(sym.EqMod(agg, vhAdd(v, vhMulH(r))), "the proof's bit commitments do not sum to vG + rH")
	delta := sym.Scalar("delta")
	ok, verr := p.Verify(TestCurve, vhPt(vhAdd(agg, delta)))
	sym.Assert(ok == (verr == nil), "verdict and error disagree")
	sym.Assert(ok == sym.EqMod(delta, sym.N()), "an honest range proof does not verify against exactly its own commitment")
	if ok {
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}
