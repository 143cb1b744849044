id='p26-recover-second-x'
prop='P26'
needs='a compact signature with header 29 or 33 (x = r + N)'
breaks='another point is used, and another key recovered'
pkg='btcec/'
edits=[('btcec/signature.go','		new(big.Int).SetInt64(int64(iter/2)))','		new(big.Int).SetInt64(int64(iter/3)))')]
test="""
package btcec

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := S256()
	done := 0
	for r := int64(1); r < 40; r++ {
		x := new(big.Int).Add(c.N, big.NewInt(r))
		y := new(big.Int).Exp(x, big.NewInt(3), c.P)
		y.Add(y, big.NewInt(7)).Mod(y, c.P)
		if y.ModSqrt(y, c.P) == nil {
			continue
		}
		done++
		for _, odd := range []uint{0, 1} {
			if y.Bit(0) != odd {
				y.Sub(c.P, y)
			}
			sig := make([]byte, 65)
			sig[0], sig[32], sig[64] = 29+byte(odd), byte(r), 9
			hash := make([]byte, 32)
			hash[31] = 5
			key, _, err := RecoverCompact(c, sig, hash)
			if err != nil {
				t.Fatal(err)
			}
			ax, ay := c.ScalarMult(key.X, key.Y, big.NewInt(r).Bytes())
			bx, by := c.ScalarMult(x, y, []byte{9})
			ex, ey := c.ScalarBaseMult([]byte{5})
			ax, ay = c.Add(ax, ay, ex, ey)
			if ax.Cmp(bx) != 0 || ay.Cmp(by) != 0 {
				t.Fatal(r, odd)
			}
		}
	}
	if done == 0 {
		t.Fatal("no point")
	}
}
"""
