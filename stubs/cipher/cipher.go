// Package cipher replaces crypto/cipher: CBC is an unknown function of key, IV and plaintext, and
// decryption undoes what was encrypted before; the real one natively.
package cipher

import (
	"bytes"
	real "crypto/cipher"
	"verifstub/aes"
	"verifstub/hmac"
	"verifstub/sym"
)

type Block = real.Block
type BlockMode = real.BlockMode

type done struct{ key, iv, plain, out []byte }

var encrypted []done

type cbc struct {
	key, iv []byte
	dec     bool
}

func newCBC(b Block, iv []byte, dec bool) BlockMode {
	if len(iv) != b.BlockSize() {
		panic("cipher: IV length must equal block size")
	}
	if sym.Native() {
		if dec {
			return real.NewCBCDecrypter(b, iv)
		}
		return real.NewCBCEncrypter(b, iv)
	}
	return &cbc{b.(*aes.Block).Key, append([]byte{}, iv...), dec}
}

func NewCBCEncrypter(b Block, iv []byte) BlockMode { return newCBC(b, iv, false) }
func NewCBCDecrypter(b Block, iv []byte) BlockMode { return newCBC(b, iv, true) }

func (c *cbc) BlockSize() int { return 16 }

func (c *cbc) CryptBlocks(dst, src []byte) {
	if len(src)%16 != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	if c.dec {
		for _, e := range encrypted {
			if bytes.Equal(e.key, c.key) && bytes.Equal(e.iv, c.iv) && bytes.Equal(e.out, src) {
				copy(dst, e.plain)
				return
			}
		}
	}
	tag := byte(1)
	if c.dec {
		tag = 2
	}
	in := append([]byte{}, src...)
	out := make([]byte, 0, len(in))
	for i := 0; i < len(in); i += 16 {
		o := hmac.Oracle(append([]byte{tag}, c.key...), append(append([]byte{}, c.iv...), in[:i+16]...))
		out = append(out, o[:16]...)
	}
	copy(dst, out)
	if !c.dec {
		encrypted = append(encrypted, done{c.key, c.iv, in, out})
	}
}
