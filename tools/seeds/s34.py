id='p23-second-base-truncates'
prop='P23'
needs='a scalar of more than 32 bytes for the second generator (Mult passes at most 32)'
breaks='it is cut to its last 32 bytes in place of being reduced modulo the order'
pkg='btcec/'
edits=[('btcec/btcec.go','''ScalarBaseMultH(k []byte) (*big.Int, *big.Int) {
	newK := curve.moduloReduce(k)
''','''ScalarBaseMultH(k []byte) (*big.Int, *big.Int) {
	newK := k
	if len(newK) > curve.byteSize {
		newK = newK[len(newK)-curve.byteSize:]
	}
''')]
test="""
package btcec

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := S256()
	for i := uint(0); i < 300; i += 7 {
		k := new(big.Int).Lsh(big.NewInt(0x1234567), i)
		x, y := c.ScalarBaseMultH(k.Bytes())
		wx, wy := c.ScalarBaseMultH(k.Mod(k, c.N).Bytes())
		if x.Cmp(wx) != 0 || y.Cmp(wy) != 0 {
			t.Fatal(i)
		}
	}
}
"""
