id='p14-short-coordinate'
prop='P14'
needs='a point with a coordinate that has two leading zero bytes in its 32 bytes, followed by other data'
breaks='short coordinates are padded on the right, so the point decodes to another one'
edits=[('crypto.go','''	err := wire.WriteVarBytes(w, p.X.Bytes())
	if err''','''	x := p.X.Bytes()
	if len(x) == 30 {
		x = append(x, 0)
	}
	err := wire.WriteVarBytes(w, x)
	if err''')]
test='''
package zksigma

import (
	"bytes"
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for i := uint(1); i < 256; i++ {
		p := ECPoint{new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(3)}
		var b bytes.Buffer
		WriteECPoint(&b, p)
		q, err := ReadECPoint(&b)
		if err != nil || !q.Equal(p) {
			t.Fatal(i, err)
		}
	}
}
'''
