// Package sha512 replaces crypto/sha512: an unknown function; the real one natively.
package sha512

import (
	real "crypto/sha512"
	"verifstub/hmac"
	"verifstub/sym"
)

const Size = 64

func Sum512(data []byte) [Size]byte {
	if sym.Native() {
		return real.Sum512(data)
	}
	// only 31- and 32-byte secrets are followed
	switch len(data) {
	case 31:
		data = data[:31]
	case 32:
		data = data[:32]
	default:
		sym.Assume(false)
	}
	a, b := hmac.Oracle([]byte{3, 1}, data), hmac.Oracle([]byte{3, 2}, data)
	var r [Size]byte
	copy(r[:32], a[:])
	copy(r[32:], b[:])
	return r
}
