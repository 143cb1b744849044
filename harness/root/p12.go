package zksigma

import (
	"math/big"
	"verifstub/sym"
)

// vhCom is the discrete log of v*G + r*H.
func vhCom(v, r *big.Int) *big.Int { return vhAdd(v, vhMulH(r)) }

// A commitment to any two integers is the group element vG + rH.
//verif: prop=P12 p=13
//verif: prop=P12 p=79 tier=thorough
func V_P12_commit() {
	v, r := sym.Wide("v"), sym.Wide("r")
	c := PedCommitR(TestCurve, v, r)
	sym.Assert(vhIs(c, vhCom(v, r)), "PedCommitR is not vG + rH")
	c2, r2, err := PedCommit(TestCurve, v)
	sym.Assert(err == nil, "PedCommit fails")
	sym.Assert(sym.Canonical(r2), "PedCommit returns a blinding outside [0, N)")
	sym.Assert(vhIs(c2, vhCom(v, r2)), "PedCommit is not vG + rH")
	sym.Assert(Open(TestCurve, v, r2, c2), "a commitment does not open to its own opening")
	sym.Cover("end")
}

// Very small and very large integers, beyond the range of sym.Wide.
//verif: prop=P12 p=13
func V_P12_huge() {
	v, r := sym.Int("v", -1<<40, 1<<40), sym.Int("r", -1<<40, 1<<40)
	c := PedCommitR(TestCurve, v, r)
	sym.Assert(vhIs(c, vhCom(v, r)), "PedCommitR is not vG + rH")
	sym.Cover("end")
}

// Opening succeeds exactly for the pairs that commit to the point.
//verif: prop=P12 p=13
//verif: prop=P12 p=79 tier=thorough
func V_P12_open() {
	v, r := sym.Wide("v"), sym.Wide("r")
	p, d := vhGPt("d")
	ok := Open(TestCurve, v, r, p)
	sym.Assert(ok == sym.EqMod(d, vhCom(v, r)), "Open is not equality with vG + rH")
	if ok {
		sym.Cover("opens")
	} else {
		sym.Cover("refuses")
	}
}

// Opening pairs of coordinates that need not be a point.
//verif: prop=P12 p=13
func V_P12_openAny() {
	v, r := sym.Wide("v"), sym.Wide("r")
	p := ECPoint{sym.Int("x", -20, 300), sym.Int("y", -20, 300)}
	want := vhIs(p, vhCom(v, r))
	sym.Assert(Open(TestCurve, v, r, p) == want, "Open is not equality with vG + rH")
	q, e := vhGPt("pk")
	want = vhIs(p, vhMul(e, r))
	sym.Assert(VerifyR(TestCurve, p, q, r) == want, "VerifyR is not equality with r*PK")
	sym.Cover("end")
}

// Sums and differences of commitments commit to sums and differences.
//verif: prop=P12 p=13
//verif: prop=P12 p=79 tier=thorough
func V_P12_homomorphic() {
	v, r, w, s := sym.Wide("v"), sym.Wide("r"), sym.Wide("w"), sym.Wide("s")
	zk := TestCurve
	a, b := PedCommitR(zk, v, r), PedCommitR(zk, w, s)
	sum, diff := zk.Add(a, b), zk.Sub(a, b)
	sym.Assert(vhIs(sum, vhCom(vhAdd(v, w), vhAdd(r, s))), "the sum of commitments does not commit to the sums")
	sym.Assert(vhIs(diff, vhCom(vhSub(v, w), vhSub(r, s))), "the difference of commitments does not commit to the differences")
	sym.Cover("end")
}

//verif: prop=P12 p=13
func V_P12_homomorphicOpen() {
	v, r, w, s := sym.Wide("v"), sym.Wide("r"), sym.Wide("w"), sym.Wide("s")
	zk := TestCurve
	a, b := PedCommitR(zk, v, r), PedCommitR(zk, w, s)
	sym.Assert(Open(zk, vhAdd(v, w), vhAdd(r, s), zk.Add(a, b)), "the sum of commitments does not open to the sums")
	sym.Assert(Open(zk, vhSub(v, w), vhSub(r, s), zk.Sub(a, b)), "the difference of commitments does not open to the differences")
	sym.Cover("end")
}

// Key commitments r*PK.
//verif: prop=P12 p=13
//verif: prop=P12 p=79 tier=thorough
func V_P12_key() {
	pk, a := vhGPt("pk")
	r := sym.Wide("r")
	c := CommitR(TestCurve, pk, r)
	sym.Assert(vhIs(c, vhMul(a, r)), "CommitR is not r*PK")
	p, d := vhGPt("d")
	ok := VerifyR(TestCurve, p, pk, r)
	sym.Assert(ok == sym.EqMod(d, vhMul(a, r)), "VerifyR is not equality with r*PK")
	if ok {
		sym.Cover("opens")
	} else {
		sym.Cover("refuses")
	}
}

// The generated key pair is a scalar and its multiple of the base.
//verif: prop=P12 p=13
func V_P12_keygen() {
	b, d := vhGPt("base")
	pk, sk := KeyGen(TestCurve.C, b)
	sym.Assert(sym.Canonical(sk), "KeyGen returns a key outside [0, N)")
	sym.Assert(vhIs(pk, vhMul(d, sk)), "KeyGen returns a key pair that does not belong together")
	r := sym.Wide("r")
	sym.Assert(VerifyR(TestCurve, CommitR(TestCurve, pk, r), pk, r), "a key commitment does not verify")
	sym.Cover("end")
}
