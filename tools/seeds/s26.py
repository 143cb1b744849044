id='p25-short-high-bit'
prop='P25'
needs='r or s of fewer than 32 bytes whose top bit is set'
breaks='such an integer is encoded without the leading zero, so that it reads as a negative number'
pkg='btcec/'
edits=[('btcec/signature.go','	if b[0]&0x80 != 0 {\n		paddedBytes','	if len(b) >= 32 && b[0]&0x80 != 0 {\n		paddedBytes')]
test="""
package btcec

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, v := range []int64{1, 127, 128, 255, 256, 40000} {
		sig := &Signature{R: big.NewInt(v), S: big.NewInt(v)}
		got, err := ParseDERSignature(sig.Serialize(), S256())
		if err != nil || !got.IsEqual(sig) {
			t.Fatal(v, err)
		}
	}
}
"""
