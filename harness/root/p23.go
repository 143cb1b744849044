package zksigma

import (
	"math/big"
	"verifstub/sym"
)

// Mult of either generator of the default parameters, whatever the hash that H was once made of,
// and of another H than the one the table was made for.
//verif: prop=P23,P13 p=13 hseed=5
func V_P23_generators() {
	zk := TestCurve
	p := zk.H
	switch sym.Choice("base", 3) {
	case 1:
		p = zk.G
	case 2:
		zk.H, _ = vhPoint("h")
		p = zk.H
	}
	d := sym.Dlog(p.X, p.Y)
	k := sym.Wide("k")
	r := zk.Mult(p, k)
	sym.Assert(vhIs(r, new(big.Int).Mul(d, k)), "Mult is not the scalar multiple of a generator")
	sym.Cover("end")
}

// The powers-of-two points are 2^i G, the base that committed values multiply.
//verif: prop=P23 p=13 hseed=5
func V_P23_powers() {
	sym.Assert(len(TestCurve.HPoints) == 64, "not 64 points")
	for i, p := range TestCurve.HPoints {
		sym.Assert(vhIs(p, new(big.Int).Lsh(big.NewInt(1), uint(i))), "not 2^i G")
	}
	c := PedCommitR(TestCurve, big.NewInt(1), new(big.Int))
	sym.Assert(c.Equal(TestCurve.HPoints[0]), "a commitment to 1 does not use this base")
	sym.Cover("end")
}
