// Package btcec replaces the curve by an abstract prime-order group with the
// same API; natively it is a small curve y^2 = x^3 + b given in the replay file.
package btcec

import (
	"crypto/elliptic"
	"math/big"
	"verifstub/sym"
)

type KoblitzCurve struct {
	*elliptic.CurveParams
	H int
}

var curve KoblitzCurve

func basePoint() (*big.Int, *big.Int)   { return sym.Point(big.NewInt(1)) }
func orderN() *big.Int                  { return sym.N() }
func fieldP() *big.Int                  { return sym.Cfg("P") }

func init() {
	p := new(elliptic.CurveParams)
	p.P = fieldP()
	p.N = orderN()
	p.B = big.NewInt(7)
	p.Gx, p.Gy = basePoint()
	p.BitSize = 256
	p.Name = "verif"
	curve.CurveParams = p
	curve.H = 1
}

func S256() *KoblitzCurve { return &curve }

func (c *KoblitzCurve) Params() *elliptic.CurveParams { return c.CurveParams }

func (c *KoblitzCurve) IsOnCurve(x, y *big.Int) bool { return sym.OnCurve(x, y) }
func (c *KoblitzCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	sym.Jitter()
	return sym.Point(new(big.Int).Add(sym.Dlog(x1, y1), sym.Dlog(x2, y2)))
}
func (c *KoblitzCurve) Double(x, y *big.Int) (*big.Int, *big.Int) {
	d := sym.Dlog(x, y)
	return sym.Point(d.Add(d, d))
}
func (c *KoblitzCurve) ScalarMult(x, y *big.Int, k []byte) (*big.Int, *big.Int) {
	sym.Jitter()
	return sym.Point(new(big.Int).Mul(sym.Dlog(x, y), new(big.Int).SetBytes(k)))
}
func (c *KoblitzCurve) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	return sym.Point(new(big.Int).SetBytes(k))
}
func (c *KoblitzCurve) ScalarBaseMultH(k []byte) (*big.Int, *big.Int) {
	return sym.Point(new(big.Int).Mul(sym.HDlog(), new(big.Int).SetBytes(k)))
}
