package btcec

import (
	"bytes"
	"math/big"
	"verifstub/sym"
)

// vhRoot is the candidate for a square root of x^3+7: it is one if there is any, as P = 3 mod 4.
func vhRoot(x *big.Int) (*big.Int, bool) {
	x3 := new(big.Int).Add(vhMul(x, x, x), big.NewInt(7))
	e := new(big.Int).Rsh(new(big.Int).Add(vhP, big.NewInt(1)), 2)
	y := new(big.Int).Exp(x3, e, vhP)
	sym.Assume(y.Sign() != 0) // the order of the curve is odd: no point has y = 0
	return y, sym.EqModM(vhMul(y, y), x3, vhP)
}

func vhOnCurve(x, y *big.Int) bool {
	return sym.EqModM(vhMul(y, y), new(big.Int).Add(vhMul(x, x, x), big.NewInt(7)), vhP)
}

func vhParseKey(b []byte) {
	was := append([]byte{}, b...)
	key, err := ParsePubKey(b, S256())
	n := len(was)
	ok := false
	var x, y *big.Int
	switch n {
	case 33:
		if was[0] == 2 || was[0] == 3 {
			x = new(big.Int).SetBytes(was[1:33])
			if x.Cmp(vhP) < 0 {
				y, ok = vhRoot(x)
				if y.Bit(0) != uint(was[0]&1) {
					y = new(big.Int).Sub(vhP, y)
				}
			}
		}
	case 65:
		x, y = new(big.Int).SetBytes(was[1:33]), new(big.Int).SetBytes(was[33:])
		if was[0] == 4 || was[0] == 6+byte(y.Bit(0)) {
			ok = x.Cmp(vhP) < 0 && y.Cmp(vhP) < 0 && vhOnCurve(x, y)
		}
	}
	if err == nil {
		sym.Assert(ok, "bytes that encode no key are accepted")
		if ok {
			sym.Assert(sym.And(sym.Eq(key.X, x), sym.Eq(key.Y, y)), "the parsed key is not the encoded one")
			sym.Cover("accepted")
		}
	} else {
		sym.Assert(!ok, "the encoding of a key is rejected")
		sym.Assert(key == nil, "a key is returned with an error")
		sym.Cover("rejected")
	}
	sym.Assert(bytes.Equal(b, was), "the input changed")
}


//verif: prop=P24 contracts=field,tables,opaque merge=0
func V_P24_compressed() { vhParseKey(append([]byte{sym.Byte("f")}, vhWord("x")...)) }

//verif: prop=P24 contracts=field,tables,opaque merge=0
func V_P24_uncompressed() {
	vhParseKey(append(append([]byte{sym.Byte("f")}, vhWord("x")...), vhWord("y")...))
}

// Every other length up to 200 bytes.
//verif: prop=P24 contracts=field,tables merge=0
func V_P24_lengths() {
	n := sym.Choice("n", 201)
	if n == 33 || n == 65 {
		n = 0
	}
	vhParseKey(sym.Bytes("b", n))
}


// Serialising and parsing returns the key, in each format, whatever the lengths of the coordinates.
func vhKeyRoundTrip(x, y *big.Int, f int) {
	key := &PublicKey{Curve: S256(), X: new(big.Int).Set(x), Y: new(big.Int).Set(y)}
	var b []byte
	switch f {
	case 0:
		b = key.SerializeCompressed()
	case 1:
		b = key.SerializeUncompressed()
	case 2:
		b = key.SerializeHybrid()
	}
	sym.Assert(IsCompressedPubKey(b) == (f == 0), "a format is taken for another")
	got, err := ParsePubKey(b, S256())
	sym.Assert(err == nil, "a serialised key does not parse")
	if err == nil {
		sym.Assert(got.IsEqual(key) && sym.Eq(got.X, x) && sym.Eq(got.Y, y), "a serialised key parses to another")
	}
	sym.Assert(sym.Eq(key.X, x) && sym.Eq(key.Y, y), "serialising changed the key")
	sym.Cover("end")
}

//verif: prop=P24 contracts=field,tables,opaque merge=0
func V_P24_roundTripCompressed() {
	x := vhCoordLen("x", sym.Choice("xl", 33))
	y, ok := vhRoot(x)
	if !ok {
		return
	}
	if sym.Choice("other", 2) == 1 {
		y = new(big.Int).Sub(vhP, y)
	}
	vhKeyRoundTrip(x, y, 0)
}

//verif: prop=P24 contracts=field,tables,opaque merge=0
func V_P24_roundTripX() {
	x, y := vhCoordLen("x", 1+sym.Choice("xl", 32)), vhCoordLen("y", [...]int{1, 31, 32}[sym.Choice("yl", 3)])
	if x.BitLen() <= 80 && y.BitLen() <= 120 {
		return // y^2 = x^3 + 7 has no solutions in integers
	}
	sym.Assume(vhOnCurve(x, y))
	vhKeyRoundTrip(x, y, 1+sym.Choice("f", 2))
}

//verif: prop=P24 contracts=field,tables,opaque merge=0
func V_P24_roundTripY() {
	x, y := vhCoordLen("x", [...]int{1, 31, 32}[sym.Choice("xl", 3)]), vhCoordLen("y", 1+sym.Choice("yl", 32))
	if x.BitLen() <= 80 && y.BitLen() <= 120 {
		return // y^2 = x^3 + 7 has no solutions in integers
	}
	sym.Assume(vhOnCurve(x, y))
	vhKeyRoundTrip(x, y, 1+sym.Choice("f", 2))
}

// Given points of the curve and others, with any format byte; coordinates that exceed the prime.
//verif: prop=P24 contracts=field,tables merge=0
func V_P24_points() {
	pts := [][2]*big.Int{
		{S256().Gx, S256().Gy},
		{vhHex("1"), vhHex("4218f20ae6c646b363db68605822fb14264ca8d2587fdd6fbc750d587e76a7ee")},
		{vhHex("2"), vhHex("990418d84d45f61f60a56728f5a10317bdb3a05bda4425e3aee079f8a847a8d1")},
		{vhHex("1fe1e5ef3fceb5c135ab7741333ce5a6e80d68167653f6b2b24bcbcfaaaff507"), vhHex("1")},
		{vhHex("c8b492e17665b9e65e4a124661e1103f1aebfcc849dcd94f7688dcf149f6f4f2"), vhHex("6")},
		{vhHex("5"), vhHex("5")}, {new(big.Int), new(big.Int)},
	}
	p := pts[sym.Choice("p", len(pts))]
	x, y := p[0], p[1]
	if sym.Choice("neg", 2) == 1 {
		y = new(big.Int).Sub(vhP, y)
	}
	if sym.Choice("bigx", 2) == 1 {
		x = new(big.Int).Add(x, vhP)
	}
	if sym.Choice("bigy", 2) == 1 {
		y = new(big.Int).Add(y, vhP)
	}
	if x.BitLen() > 256 || y.BitLen() > 256 {
		return
	}
	b := append([]byte{sym.Byte("f")}, x.FillBytes(make([]byte, 32))...)
	if sym.Choice("long", 2) == 1 {
		b = append(b, y.FillBytes(make([]byte, 32))...)
	}
	vhParseKey(b)
}
