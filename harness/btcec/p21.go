package btcec

import (
	"math/big"
	"verifstub/sym"
)


func vhCoord(name string, lo int64) *big.Int {
	return sym.IntB(name, big.NewInt(lo), new(big.Int).Sub(vhP, big.NewInt(1)))
}

func vhF(x *big.Int) *fieldVal { return new(fieldVal).SetByteSlice(vhMod(x).Bytes()) }

func vhI(f *fieldVal) *big.Int {
	c := *f
	return new(big.Int).SetBytes(c.Normalize().Bytes()[:])
}


// vhJac: Jacobian coordinates (x z^2, y z^3, z) of an affine point.
type vhJac struct{ X, Y, Z *fieldVal }

func vhJacOf(x, y, z *big.Int) vhJac {
	X, Y := vhMul(x, z, z), vhMul(y, z, z, z)
	if sym.Choice("normal", 2) == 0 {
		return vhJac{vhF(X), vhF(Y), vhF(z)}
	}
	// the same values, not normalised (a multiple of the prime too much)
	X.Sub(vhP, vhMod(X))
	Y.Sub(vhP, vhMod(Y))
	return vhJac{vhF(X).Negate(1), vhF(Y).Negate(1), vhF(z)}
}

// vhIs asserts that r denotes the affine point (xn/xd, yn/yd), with non-zero denominators.
func vhIs(r vhJac, xn, xd, yn, yd *big.Int) {
	X, Y, Z := vhI(r.X), vhI(r.Y), vhI(r.Z)
	sym.Assert(sym.NonZeroM(Z, vhP), "the result is infinite")
	sym.Assert(sym.EqModM(vhMul(X, xd), vhMul(xn, Z, Z), vhP), "wrong x coordinate")
	sym.Assert(sym.EqModM(vhMul(Y, yd), vhMul(yn, Z, Z, Z), vhP), "wrong y coordinate")
	sym.Cover("finite")
}

func vhInf(r vhJac) {
	zero := r.X.Normalize().IsZero() && r.Y.Normalize().IsZero()
	sym.Assert(sym.Or(zero, r.Z.Normalize().IsZero()), "the result is not infinite")
	sym.Cover("infinite")
}

func vhSame(r vhJac, x, y *big.Int) { vhIs(r, x, big.NewInt(1), y, big.NewInt(1)) }

// vhChord asserts that r is the sum of two points with different x coordinates.
func vhChord(r vhJac, x1, y1, x2, y2 *big.Int) {
	h, k := new(big.Int).Sub(x2, x1), new(big.Int).Sub(y2, y1)
	h2, h3 := vhMul(h, h), vhMul(h, h, h)
	// x3 = (k/h)^2 - x1 - x2, y3 = (k/h)(x1 - x3) - y1
	xn := new(big.Int).Sub(vhMul(k, k), vhMul(new(big.Int).Add(x1, x2), h2))
	yn := vhMul(k, new(big.Int).Sub(vhMul(x1, h2), xn))
	yn.Sub(yn, vhMul(y1, h3))
	vhIs(r, xn, h2, yn, h3)
}

// vhTangent asserts that r is twice a point with y other than zero.
func vhTangent(r vhJac, x, y *big.Int) {
	k, h := vhMul(big.NewInt(3), x, x), vhMul(big.NewInt(2), y)
	h2, h3 := vhMul(h, h), vhMul(h, h, h)
	xn := new(big.Int).Sub(vhMul(k, k), vhMul(big.NewInt(2), x, h2))
	yn := vhMul(k, new(big.Int).Sub(vhMul(x, h2), xn))
	yn.Sub(yn, vhMul(y, h3))
	vhIs(r, xn, h2, yn, h3)
}

// vhZ: a denominator: 1 or anything but 0 and 1.
func vhZ(name string) *big.Int {
	if sym.Choice(name+"One", 2) == 0 {
		return big.NewInt(1)
	}
	return vhCoord(name, 2)
}

// vhOut: where the result goes: new values (with other content), or over the first operand.
func vhOut(in vhJac) vhJac {
	if sym.Choice("out", 2) == 0 {
		return in
	}
	return vhJac{new(fieldVal).SetInt(5), new(fieldVal).SetInt(6), new(fieldVal).SetInt(7)}
}

// Addition of points with different x coordinates, for every combination of denominators.
//verif: prop=P21 contracts=field,tables merge=0 qt=2
func V_P21_add() {
	c := S256()
	x1, y1, x2, y2 := vhCoord("x1", 0), vhCoord("y1", 1), vhCoord("x2", 0), vhCoord("y2", 1)
	sym.Assume(sym.NonZeroM(new(big.Int).Sub(x2, x1), vhP))
	z1, z2 := vhZ("z1"), vhZ("z2")
	switch sym.Choice("z", 2) {
	case 0:
		z2 = z1
	default:
		sym.Assume(sym.NonZeroM(new(big.Int).Sub(z2, z1), vhP))
	}
	p, q := vhJacOf(x1, y1, z1), vhJacOf(x2, y2, z2)
	r := vhOut(p)
	c.addJacobian(p.X, p.Y, p.Z, q.X, q.Y, q.Z, r.X, r.Y, r.Z)
	vhChord(r, x1, y1, x2, y2)
	vhSame(q, x2, y2)
}

// Addition of a point to itself and to its opposite, whatever the denominators.
//verif: prop=P21 contracts=field,tables merge=0 qt=2
func V_P21_addSame() {
	c := S256()
	x, y := vhCoord("x", 0), vhCoord("y", 1)
	z1, z2 := vhZ("z1"), vhZ("z2")
	switch sym.Choice("z", 2) {
	case 0:
		z2 = z1
	default:
		sym.Assume(sym.NonZeroM(new(big.Int).Sub(z2, z1), vhP))
	}
	y2 := y
	opp := sym.Choice("opposite", 2) == 0
	if opp {
		y2 = new(big.Int).Sub(vhP, y)
	}
	p, q := vhJacOf(x, y, z1), vhJacOf(x, y2, z2)
	r := vhOut(p)
	c.addJacobian(p.X, p.Y, p.Z, q.X, q.Y, q.Z, r.X, r.Y, r.Z)
	if opp {
		vhInf(r)
	} else {
		vhTangent(r, x, y)
	}
	vhSame(q, x, y2)
}

// Addition of the identity (either of its forms) on either side.
//verif: prop=P21 contracts=field,tables merge=0 qt=2
func V_P21_addInf() {
	c := S256()
	x, y := vhCoord("x", 0), vhCoord("y", 1)
	p := vhJacOf(x, y, vhZ("z"))
	o := vhJac{new(fieldVal), new(fieldVal), new(fieldVal)}
	switch sym.Choice("form", 3) {
	case 1:
		o.Z.SetInt(1)
	case 2:
		o = vhJac{vhF(vhCoord("ox", 0)), vhF(vhCoord("oy", 0)), new(fieldVal)}
	}
	switch sym.Choice("side", 3) {
	case 0:
		r := vhOut(o)
		c.addJacobian(o.X, o.Y, o.Z, p.X, p.Y, p.Z, r.X, r.Y, r.Z)
		vhSame(r, x, y)
	case 1:
		r := vhOut(p)
		c.addJacobian(p.X, p.Y, p.Z, o.X, o.Y, o.Z, r.X, r.Y, r.Z)
		vhSame(r, x, y)
	default:
		n := vhJac{new(fieldVal), new(fieldVal), new(fieldVal)}
		r := vhOut(n)
		c.addJacobian(n.X, n.Y, n.Z, o.X, o.Y, o.Z, r.X, r.Y, r.Z)
		vhInf(r)
	}
}

// Doubling, also of the identity.
//verif: prop=P21 contracts=field,tables merge=0 qt=2
func V_P21_double() {
	c := S256()
	x, y := vhCoord("x", 0), vhCoord("y", 1)
	p := vhJacOf(x, y, vhZ("z"))
	inf := sym.Choice("infinite", 2) == 0
	if inf {
		p = vhJac{new(fieldVal), new(fieldVal), new(fieldVal)}
	}
	r := vhOut(p)
	c.doubleJacobian(p.X, p.Y, p.Z, r.X, r.Y, r.Z)
	if inf {
		vhInf(r)
	} else {
		vhTangent(r, x, y)
	}
}

func vhAff(x, y *big.Int) vhJac {
	sym.Assert(x.Sign() >= 0 && x.Cmp(vhP) < 0 && y.Sign() >= 0 && y.Cmp(vhP) < 0, "coordinates are not reduced")
	return vhJac{vhF(x), vhF(y), new(fieldVal).SetInt(1)}
}

// The affine operations, and the identity (0, 0).
//verif: prop=P21 contracts=field,tables merge=0 qt=2
func V_P21_affine() {
	c := S256()
	x1, y1 := vhCoord("x1", 0), vhCoord("y1", 1)
	o := new(big.Int)
	switch sym.Choice("case", 7) {
	case 0:
		x2, y2 := vhCoord("x2", 0), vhCoord("y2", 1)
		sym.Assume(sym.NonZeroM(new(big.Int).Sub(x2, x1), vhP))
		vhChord(vhAff(c.Add(x1, y1, x2, y2)), x1, y1, x2, y2)
	case 1:
		vhTangent(vhAff(c.Add(x1, y1, x1, y1)), x1, y1)
	case 2:
		vhTangent(vhAff(c.Double(x1, y1)), x1, y1)
	case 3:
		x, y := c.Add(x1, y1, x1, new(big.Int).Sub(vhP, y1))
		sym.Assert(x.Sign() == 0 && y.Sign() == 0, "P + -P is not the identity")
		sym.Cover("opposite")
	case 4:
		vhSame(vhAff(c.Add(o, o, x1, y1)), x1, y1)
	case 5:
		vhSame(vhAff(c.Add(x1, y1, o, o)), x1, y1)
	default:
		x, y := c.Add(o, o, o, o)
		sym.Assert(x.Sign() == 0 && y.Sign() == 0, "the identity plus itself is not the identity")
		x, y = c.Double(o, o)
		sym.Assert(x.Sign() == 0 && y.Sign() == 0, "twice the identity is not the identity")
		sym.Cover("identity")
	}
}

// Conversion from Jacobian coordinates.
//verif: prop=P21 contracts=field,tables merge=0 qt=2
func V_P21_toAffine() {
	x, y := vhCoord("x", 0), vhCoord("y", 1)
	p := vhJacOf(x, y, vhZ("z"))
	vhSame(vhAff(S256().fieldJacobianToBigAffine(p.X, p.Y, p.Z)), x, y)
	X, Y := S256().bigAffineToField(x, y)
	vhSame(vhJac{X, Y, new(fieldVal).SetInt(1)}, x, y)
}

// The on-curve test decides y^2 = x^3 + 7.
//verif: prop=P21 contracts=field,tables merge=0 qt=2
func V_P21_onCurve() {
	c := S256()
	sym.Assert(c.IsOnCurve(c.Gx, c.Gy), "the generator is not on the curve")
	sym.Assert(!c.IsOnCurve(c.Gx, new(big.Int).Add(c.Gy, big.NewInt(1))), "a point off the curve is accepted")
	x, y := vhCoord("x", 0), vhCoord("y", 0)
	rhs := new(big.Int).Add(vhMul(x, x, x), big.NewInt(7))
	on := S256().IsOnCurve(x, y)
	sym.Assert(on == sym.EqModM(vhMul(y, y), rhs, vhP), "the on-curve test is wrong")
	sym.Cover("end")
}
