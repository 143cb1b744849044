id='p27-decrypt-in-place'
prop='P27'
needs='a caller who looks at the ciphertext again after decrypting it'
breaks='the ciphertext is overwritten with the message, and decrypting it again fails'
pkg='btcec/'
edits=[('btcec/ciphering.go','	plaintext := make([]byte, len(in)-offset-sha256.Size)','	plaintext := in[offset : len(in)-sha256.Size]')]
test="""
package btcec

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	priv, pub := PrivKeyFromBytes(S256(), []byte{1, 2, 3})
	c, err := Encrypt(pub, []byte("pay 100 to alice"))
	if err != nil {
		t.Fatal(err)
	}
	was := append([]byte{}, c...)
	if _, err := Decrypt(priv, c); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(was, c) {
		t.Fatal("the ciphertext was overwritten")
	}
}
"""
