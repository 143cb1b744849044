package zksigma

import (
	"math/big"
	"verifstub/sym"
)

// vhPoint is an arbitrary group element with a symbolic discrete log.
func vhPoint(name string) (ECPoint, *big.Int) {
	d := sym.Scalar(name)
	x, y := sym.Point(d)
	return ECPoint{X: x, Y: y}, d
}

func vhIs(p ECPoint, d *big.Int) bool {
	x, y := sym.Point(d)
	return sym.And(sym.Eq(p.X, x), sym.Eq(p.Y, y))
}

// Point addition, subtraction and negation agree with the group law for all points, identity included.
//verif: prop=P13 p=13
func V_P13_addsub() {
	p, a := vhPoint("a")
	q, b := vhPoint("b")
	sum := TestCurve.Add(p, q)
	sym.Assert(vhIs(sum, new(big.Int).Add(a, b)), "Add is not the group sum")
	diff := TestCurve.Sub(p, q)
	sym.Assert(vhIs(diff, new(big.Int).Sub(a, b)), "Sub is not the group difference")
	neg := TestCurve.Neg(p)
	sym.Assert(vhIs(neg, new(big.Int).Neg(a)), "Neg is not the inverse")
	sym.Cover("end")
}

// Scalar multiplication agrees with the group law for all points and all integers.
//verif: prop=P13 p=13
func V_P13_mult() {
	p, a := vhPoint("a")
	k := sym.Wide("k")
	r := TestCurve.Mult(p, k)
	sym.Assert(vhIs(r, new(big.Int).Mul(a, k)), "Mult is not the scalar multiple")
	sym.Cover("end")
}

// Equal holds exactly when both coordinates agree.
//verif: prop=P13 p=13
func V_P13_equal() {
	x1, y1 := sym.Int("x1", 0, 300), sym.Int("y1", 0, 300)
	x2, y2 := sym.Int("x2", 0, 300), sym.Int("y2", 0, 300)
	e := ECPoint{x1, y1}.Equal(ECPoint{x2, y2})
	want := sym.And(sym.Eq(x1, x2), sym.Eq(y1, y2))
	sym.Assert(e == want, "Equal is not equality of both coordinates")
	sym.Cover("end")
}
