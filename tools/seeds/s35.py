id='p23-power-sixty-three'
prop='P23'
needs='the last of the powers-of-two points (values of 63 bits)'
breaks='the point is that of 2^62 once more'
pkg=''
edits=[('zksigma.go','''		m := big.NewInt(1 << uint(i))
''','''		m := big.NewInt(1)
		m.Lsh(m, uint(i)-uint(i)/63)
''')]
test="""
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for i, p := range TestCurve.HPoints {
		m := new(big.Int).Lsh(big.NewInt(1), uint(i))
		if !p.Equal(TestCurve.Mult(TestCurve.G, m)) {
			t.Fatal(i)
		}
	}
}
"""
