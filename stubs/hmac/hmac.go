// Package hmac replaces crypto/hmac: an uninterpreted function of key and message in the engine,
// the real one natively.
package hmac

import (
	"bytes"
	real "crypto/hmac"
	"hash"
	"verifstub/sym"
)

type mac struct {
	h    func() hash.Hash
	key  []byte
	data []byte
}

// calls is limited in the engine: a nonce takes 5, and 3 more for each candidate out of range.
var calls int

// Oracle is interpreted by the engine.
func Oracle(key, data []byte) [32]byte { panic("not native") }

func New(h func() hash.Hash, key []byte) hash.Hash {
	return &mac{h: h, key: append([]byte{}, key...)}
}

func Equal(a, b []byte) bool { return bytes.Equal(a, b) }

func (m *mac) Write(p []byte) (int, error) {
	m.data = append(m.data, p...)
	return len(p), nil
}

func (m *mac) Sum(in []byte) []byte {
	if sym.Native() {
		r := real.New(m.h, m.key)
		r.Write(m.data)
		return r.Sum(in)
	}
	calls++
	sym.Assume(calls <= 22)
	o := Oracle(m.key, m.data)
	return append(in, o[:]...)
}
func (m *mac) Reset()         { m.data = nil }
func (m *mac) Size() int      { return 32 }
func (m *mac) BlockSize() int { return 64 }
