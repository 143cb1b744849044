id='p27-mac-skips-iv'
prop='P27'
needs='a ciphertext whose initialization vector was changed on the way'
breaks='the authentication code does not cover it, and a changed first block of the message is returned without an error'
pkg='btcec/'
edits=[('btcec/ciphering.go','	hm.Write(out[:len(out)-sha256.Size])          // everything is hashed','	hm.Write(out[aes.BlockSize : len(out)-sha256.Size]) // everything is hashed'),
('btcec/ciphering.go','	hm.Write(in[:len(in)-sha256.Size]) // everything is hashed','	hm.Write(in[aes.BlockSize : len(in)-sha256.Size]) // everything is hashed')]
test="""
package btcec

import "testing"

func TestZZDemo(t *testing.T) {
	priv, pub := PrivKeyFromBytes(S256(), []byte{1, 2, 3})
	c, err := Encrypt(pub, []byte("pay 100 to alice"))
	if err != nil {
		t.Fatal(err)
	}
	for i := range c {
		d := append([]byte{}, c...)
		d[i] ^= 1
		if _, err := Decrypt(priv, d); err == nil {
			t.Fatalf("changed byte %d goes unnoticed", i)
		}
	}
}
"""
