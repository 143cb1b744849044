id='p25-s-is-order'
prop='P25'
needs='a signature whose s equals the group order'
breaks='s = N is accepted'
pkg='btcec/'
edits=[('btcec/signature.go','	if signature.S.Cmp(curve.Params().N) >= 0 {\n','	if signature.S.Cmp(curve.Params().N) > 0 {\n')]
test="""
package btcec

import "testing"

func TestZZDemo(t *testing.T) {
	b := append([]byte{0x30, 38, 2, 1, 1, 2, 33, 0}, S256().N.Bytes()...)
	if _, err := ParseSignature(b, S256()); err == nil {
		t.Fatal("s = N")
	}
	b[len(b)-1]--
	if _, err := ParseSignature(b, S256()); err != nil {
		t.Fatal(err)
	}
}
"""
