package btcec

import (
	"bytes"
	"math/big"
	"verifstub/sym"
)

// vhTable tells the engine that the table holds the multiples of the point with logarithm d.
func vhTable(t *[32][256][3]fieldVal, d *big.Int) {}

func vhEntry(t *[32][256][3]fieldVal, i, j int) (*big.Int, *big.Int) {
	e := t[i][j]
	return S256().fieldJacobianToBigAffine(&e[0], &e[1], &e[2])
}

// vhProduct: both products by table.
func vhProduct(k []byte) {
	c := S256()
	mult, bx, by := c.ScalarBaseMult, c.Gx, c.Gy
	second := sym.Choice("second", 2) == 1
	h := sym.IntB("h", big.NewInt(1), vhSub1(vhN))
	if !sym.Native() {
		c.bytePoints, c.bytePointsH = new([32][256][3]fieldVal), new([32][256][3]fieldVal)
		vhTable(c.bytePoints, big.NewInt(1))
		vhTable(c.bytePointsH, h)
	}
	if second {
		mult = c.ScalarBaseMultH
		if sym.Native() {
			bx, by = vhEntry(c.bytePointsH, 31, 1)
		} else {
			bx, by = sym.RealPoint(h)
		}
	}
	was := append([]byte{}, k...)
	x, y := mult(k)
	sym.Assert(sym.IsMultiple(x, y, bx, by, new(big.Int).SetBytes(was)), "not k times the base point")
	sym.Assert(bytes.Equal(k, was), "the scalar is changed")
	sym.Cover("end")
}

// The products by table are the multiples of the base point, for every scalar of up to 32 bytes.
//verif: prop=P23 contracts=points,tables,basetab feas=0 int=1
func V_P23_base() { vhProduct(sym.Bytes("k", [...]int{0, 1, 2, 31, 32}[sym.Choice("n", 5)])) }

// Longer scalars are reduced: what the loop then runs over has at most 32 bytes and the same value.
//verif: prop=P23 contracts=tables int=1
func V_P23_reduce() {
	k := sym.Bytes("k", [...]int{0, 1, 31, 32, 33, 40, 64}[sym.Choice("n", 7)])
	was := append([]byte{}, k...)
	r := S256().moduloReduce(k)
	sym.Assert(len(r) <= 32, "more than 32 bytes")
	sym.Assert(sym.EqModM(new(big.Int).SetBytes(r), new(big.Int).SetBytes(was), vhN), "another scalar modulo the order")
	sym.Cover("end")
}

// Whole products for scalars at the edges.
//verif: prop=P23 contracts=points,tables,basetab feas=0 int=1
func V_P23_edges() {
	one := big.NewInt(1)
	top := new(big.Int).Lsh(one, 256)
	ks := []*big.Int{new(big.Int), one, vhSub1(vhN), vhN, new(big.Int).Add(vhN, one), vhSub1(top), top, new(big.Int).Lsh(vhN, 1), new(big.Int).Lsh(vhN, 256), vhSub1(new(big.Int).Lsh(one, 2000))}
	k := ks[sym.Choice("k", len(ks))].Bytes()
	vhProduct(append(make([]byte, 3*sym.Choice("zeros", 2)), k...))
}

// The tables hold the multiples of their base points. They are constants: the real tables, as
// loaded, are compared entry by entry in the native run.
//verif: prop=P23 contracts=tables ground=1
func V_P23_tables() {
	c := S256()
	if sym.Native() {
		for n, t := range []*[32][256][3]fieldVal{c.bytePoints, c.bytePointsH} {
			gx, gy := vhEntry(t, 31, 1)
			if n == 0 {
				sym.Assert(gx.Cmp(vhHex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")) == 0 && gx.Cmp(c.Gx) == 0 && gy.Cmp(c.Gy) == 0, "the table is not of G")
			}
			sym.Assert(gx.Sign() > 0 && c.IsOnCurve(gx, gy), "the base of a table is not on the curve")
			for i := 31; i >= 0; i-- {
				x, y := new(big.Int), new(big.Int)
				for j := 0; j < 256; j++ {
					ex, ey := vhEntry(t, i, j)
					sym.Assert(ex.Cmp(x) == 0 && ey.Cmp(y) == 0, "an entry of a table is not the multiple it stands for")
					x, y = c.Add(x, y, gx, gy)
				}
				gx, gy = x, y
			}
		}
	}
	sym.Cover("end")
}
