id='p23-two-zero-bytes'
prop='P23'
needs='a scalar with two zero bytes in a row and a byte other than zero after them'
breaks='the product with G stops at the zero bytes'
pkg='btcec/'
edits=[('btcec/btcec.go','''	for i, byteVal := range newK {
		p := curve.bytePoints[diff+i][byteVal]
''','''	for i, byteVal := range newK {
		if byteVal == 0 && i > 0 && newK[i-1] == 0 {
			break // nothing left to add
		}
		p := curve.bytePoints[diff+i][byteVal]
''')]
test="""
package btcec

import "testing"

func TestZZDemo(t *testing.T) {
	c := S256()
	for n := 1; n < 33; n++ {
		for z := 0; z < n; z++ {
			k := make([]byte, n)
			k[0], k[n-1] = 3, 5
			if n > 6 {
				k[z] ^= 7
			}
			x, y := c.ScalarBaseMult(k)
			wx, wy := c.ScalarMult(c.Gx, c.Gy, k)
			if x.Cmp(wx) != 0 || y.Cmp(wy) != 0 {
				t.Fatalf("%x", k)
			}
		}
	}
}
"""
