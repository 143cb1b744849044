// Package aes replaces crypto/aes: the key is kept, see verifstub/cipher; the real one natively.
package aes

import (
	real "crypto/aes"
	"crypto/cipher"
	"verifstub/sym"
)

const BlockSize = 16

// Block is a cipher of the engine.
type Block struct{ Key []byte }

func (b *Block) BlockSize() int          { return BlockSize }
func (b *Block) Encrypt(dst, src []byte) { panic("single blocks are not modelled") }
func (b *Block) Decrypt(dst, src []byte) { panic("single blocks are not modelled") }

func NewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, real.KeySizeError(len(key))
	}
	if sym.Native() {
		return real.NewCipher(key)
	}
	return &Block{append([]byte{}, key...)}, nil
}
