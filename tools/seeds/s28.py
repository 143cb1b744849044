id='p26-compact-padding'
prop='P26'
needs='a signature whose s has a bit length of exactly 248'
breaks='the compact signature has 64 bytes and is refused'
pkg='btcec/'
edits=[('btcec/signature.go','			bytelen = (sig.S.BitLen() + 7) / 8\n','			bytelen = sig.S.BitLen()/8 + 1\n')]
test="""
package btcec

import (
	"crypto/sha256"
	"testing"
)

func TestZZDemo(t *testing.T) {
	key, pub := PrivKeyFromBytes(S256(), []byte{7})
	found := 0
	for i := 0; i < 20000 && found < 2; i++ {
		h := sha256.Sum256([]byte{byte(i), byte(i >> 8)})
		sig, err := key.Sign(h[:])
		if err != nil {
			t.Fatal(err)
		}
		if n := sig.S.BitLen(); n != 248 {
			continue
		}
		found++
		b, err := SignCompact(S256(), key, h[:], true)
		if err != nil {
			t.Fatal(err)
		}
		got, _, err := RecoverCompact(S256(), b, h[:])
		if err != nil || !got.IsEqual(pub) {
			t.Fatal(i, err)
		}
	}
	if found == 0 {
		t.Skip("no such signature")
	}
}
"""
