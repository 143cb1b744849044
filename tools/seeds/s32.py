id='p27-no-pad-block'
prop='P27'
needs='a message of whole blocks, ending in a byte up to 16 (and not 0)'
breaks='nothing is padded, and the end of the message is taken for padding and dropped'
pkg='btcec/'
edits=[('btcec/ciphering.go','	padding := aes.BlockSize - len(src)%aes.BlockSize','	padding := -len(src) & (aes.BlockSize - 1)\n	if len(src) == 0 {\n		padding = aes.BlockSize\n	}')]
test="""
package btcec

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	priv, pub := PrivKeyFromBytes(S256(), []byte{1, 2, 3})
	for n := 0; n < 70; n++ {
		for b := 0; b < 256; b++ {
			m := bytes.Repeat([]byte{byte(b)}, n)
			c, err := Encrypt(pub, m)
			if err != nil {
				t.Fatal(err)
			}
			got, err := Decrypt(priv, c)
			if err != nil || !bytes.Equal(got, m) {
				t.Fatal(n, b, err)
			}
			if n%16 > 1 {
				break
			}
		}
	}
}
"""
