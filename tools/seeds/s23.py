id='p21-equal-z-normalize'
prop='P21'
needs='two points with equal denominators other than one, equal affine points, the second y coordinate not normalised'
breaks='the y coordinate of the second operand is compared without being normalised: a doubling is taken for P + -P'
edits=[('btcec/btcec.go','''	// infinity per the group law for elliptic curve cryptography.
	x1.Normalize()
	y1.Normalize()
	x2.Normalize()
	y2.Normalize()
	if x1.Equals(x2) {
		if y1.Equals(y2) {
			// Since x1 == x2 and y1 == y2, point doubling must be
			// done, otherwise the addition would end up dividing
			// by zero.
			curve.doubleJacobian(x1, y1, z1, x3, y3, z3)
			return
		}

		// Since x1 == x2 and y1 == -y2, the sum is the point at
		// infinity per the group law.
		x3.SetInt(0)
		y3.SetInt(0)
		z3.SetInt(0)
		return
	}

	// Calculate X3, Y3, and Z3 according to the intermediate elements
	// breakdown above.
	var a, b, c, d, e, f fieldVal
	var negX1, negY1, negE, negX3 fieldVal
	negX1.Set(x1).Negate(1)                // negX1 = -X1 (mag: 2)''','''	// infinity per the group law for elliptic curve cryptography.
	x1.Normalize()
	y1.Normalize()
	x2.Normalize()
	if x1.Equals(x2) {
		if y1.Equals(y2) {
			// Since x1 == x2 and y1 == y2, point doubling must be
			// done, otherwise the addition would end up dividing
			// by zero.
			curve.doubleJacobian(x1, y1, z1, x3, y3, z3)
			return
		}

		// Since x1 == x2 and y1 == -y2, the sum is the point at
		// infinity per the group law.
		x3.SetInt(0)
		y3.SetInt(0)
		z3.SetInt(0)
		return
	}

	// Calculate X3, Y3, and Z3 according to the intermediate elements
	// breakdown above.
	var a, b, c, d, e, f fieldVal
	var negX1, negY1, negE, negX3 fieldVal
	y2.Normalize()
	negX1.Set(x1).Negate(1)                // negX1 = -X1 (mag: 2)''')]
pkg='btcec/'
test='''
package btcec

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := S256()
	F := func(x *big.Int) *fieldVal { return new(fieldVal).SetByteSlice(x.Bytes()) }
	z := big.NewInt(2)
	X := new(big.Int).Mul(c.Gx, big.NewInt(4))
	X.Mod(X, c.P)
	Y := new(big.Int).Mul(c.Gy, big.NewInt(8))
	Y.Mod(Y, c.P)
	nY := new(big.Int).Sub(c.P, Y)
	x3, y3, z3 := new(fieldVal), new(fieldVal), new(fieldVal)
	c.addJacobian(F(X), F(Y), F(z), F(X), F(nY).Negate(1), F(z), x3, y3, z3)
	gx, gy := c.fieldJacobianToBigAffine(x3, y3, z3)
	wx, wy := c.Double(c.Gx, c.Gy)
	if gx.Cmp(wx) != 0 || gy.Cmp(wy) != 0 {
		t.Fatal("P + P is wrong")
	}
}
'''
