package btcec

import (
	"math/big"
	"verifstub/sym"
)

// Helpers of the other files; nothing here depends on the code under test.

var vhP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)

var vhN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

func vhHex(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

func vhSub1(x *big.Int) *big.Int { return new(big.Int).Sub(x, big.NewInt(1)) }

func vhMod(x *big.Int) *big.Int { return new(big.Int).Mod(x, vhP) }

func vhMul(xs ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range xs {
		r = new(big.Int).Mul(r, x)
	}
	return r
}

// vhOfLen is an arbitrary integer in [1,N-1] that takes exactly n bytes.
func vhOfLen(name string, n int) *big.Int {
	one := big.NewInt(1)
	hi := vhSub1(new(big.Int).Lsh(one, uint(8*n)))
	if n == 32 {
		hi = vhSub1(vhN)
	}
	return sym.IntB(name, new(big.Int).Lsh(one, uint(8*n-8)), hi)
}

// vhCoordLen is an arbitrary coordinate that takes n bytes.
func vhCoordLen(name string, n int) *big.Int {
	if n == 0 {
		return new(big.Int)
	}
	one := big.NewInt(1)
	hi := vhSub1(new(big.Int).Lsh(one, uint(8*n)))
	if n == 32 {
		hi = vhSub1(vhP)
	}
	return sym.IntB(name, new(big.Int).Lsh(one, uint(8*n-8)), hi)
}

// vhWord is an arbitrary 32-byte string, as the number it encodes.
func vhWord(name string) []byte {
	return sym.IntB(name, new(big.Int), vhSub1(new(big.Int).Lsh(big.NewInt(1), 256))).FillBytes(make([]byte, 32))
}

