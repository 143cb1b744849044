id='p22-reduce-modulus'
prop='P22'
needs='a scalar of more than 32 bytes whose value is at least the group order'
breaks='long scalars are reduced modulo the field prime instead of the group order'
pkg='btcec/'
edits=[('btcec/btcec.go','		tmpK.Mod(tmpK, curve.N)\n		return tmpK.Bytes()','		tmpK.Mod(tmpK, curve.P)\n		return tmpK.Bytes()')]
test="""
package btcec

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := S256()
	for i := 0; i < 40; i++ {
		k := new(big.Int).Lsh(big.NewInt(int64(2*i+1)), 256)
		k.Add(k, big.NewInt(int64(i)))
		x, y := c.ScalarMult(c.Gx, c.Gy, k.Bytes())
		wx, wy := c.ScalarMult(c.Gx, c.Gy, new(big.Int).Mod(k, c.N).Bytes())
		if x.Cmp(wx) != 0 || y.Cmp(wy) != 0 {
			t.Fatal(i)
		}
	}
}
"""
