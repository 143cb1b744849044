package btcec

import (
	"bytes"
	"crypto/sha256"
	"math/big"
	"verifstub/aes"
	"verifstub/cipher"
	"verifstub/hmac"
	"verifstub/rand"
	"verifstub/sha512"
	"verifstub/sym"
)

// vhEph is what NewPrivateKey returns under the contract "newkey".
var vhEph *PrivateKey

// vhLog tells the engine the logarithm of a point.
func vhLog(x, y, d *big.Int) {}

// vhKeyOf is a key whose coordinates have 32 bytes.
func vhKeyOf(name string) *PrivateKey {
	d := vhOfLen(name, 32)
	k := &PrivateKey{D: d}
	if sym.Native() {
		k, _ = PrivKeyFromBytes(S256(), d.Bytes())
		return k
	}
	k.Curve, k.X, k.Y = S256(), vhCoordLen(name+"X", 32), vhCoordLen(name+"Y", 32)
	vhLog(k.X, k.Y, d)
	return k
}

// vhOpen: the message in a ciphertext, if there is one.
func vhOpen(priv *PrivateKey, in []byte) ([]byte, bool) {
	n := len(in)
	if n < 134 || (n-118)%16 != 0 {
		return nil, false
	}
	if !bytes.Equal(in[16:20], []byte{2, 0xca, 0, 32}) || !bytes.Equal(in[52:54], []byte{0, 32}) {
		return nil, false
	}
	pub, err := ParsePubKey(append(append([]byte{4}, in[20:52]...), in[54:86]...), S256())
	if err != nil {
		return nil, false
	}
	key := sha512.Sum512(GenerateSharedSecret(priv, pub))
	h := hmac.New(sha256.New, key[32:])
	h.Write(in[:n-32])
	if !bytes.Equal(h.Sum(nil), in[n-32:]) {
		return nil, false
	}
	b, err := aes.NewCipher(key[:32])
	if err != nil {
		return nil, false
	}
	out := make([]byte, n-118)
	cipher.NewCBCDecrypter(b, in[:16]).CryptBlocks(out, in[86:n-32])
	pad := int(out[len(out)-1])
	if pad > 16 {
		return nil, false
	}
	return out[:len(out)-pad], true
}

// vhSealed wraps blocks for the key, with any markers: every check but the one under test passes.
func vhSealed(pub *PublicKey, eph *PrivateKey, blocks []byte, change func(c []byte)) []byte {
	key := sha512.Sum512(GenerateSharedSecret(eph, pub))
	c := make([]byte, 86+len(blocks)+32)
	copy(c[16:], []byte{2, 0xca, 0, 32})
	copy(c[20:], vhPad32(eph.X))
	copy(c[52:], []byte{0, 32})
	copy(c[54:], vhPad32(eph.Y))
	b, _ := aes.NewCipher(key[:32])
	if len(blocks)%16 == 0 {
		cipher.NewCBCEncrypter(b, c[:16]).CryptBlocks(c[86:86+len(blocks)], blocks)
	}
	change(c)
	h := hmac.New(sha256.New, key[32:])
	h.Write(c[:len(c)-32])
	copy(c[len(c)-32:], h.Sum(nil))
	return c
}

func vhPad32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

// vhCipherNative: real encryption, when a counterexample is replayed.
func vhCipherNative() {
	if !sym.Native() {
		return
	}
	rand.Real = true
	priv, pub := PrivKeyFromBytes(S256(), []byte{9, 9})
	eph, _ := PrivKeyFromBytes(S256(), []byte{5, 77})
	check := func(c []byte) bool {
		was := append([]byte{}, c...)
		got, err := Decrypt(priv, c)
		want, ok := vhOpen(priv, c)
		sym.Assert((err == nil) == ok && bytes.Equal(got, want), "another verdict or message")
		sym.Assert(bytes.Equal(was, c), "decrypting changed its input")
		return ok
	}
	for n := 0; n < 34; n += 1 + n%15*4 {
		back := bytes.Repeat([]byte{byte(n)}, 80)
		was := append([]byte{}, back...)
		c, err := Encrypt(pub, back[:n])
		sym.Assert(err == nil, "a message is refused")
		sym.Assert(bytes.Equal(back, was), "encrypting changed its input")
		sym.Assert(check(c), "a message is lost")
		got, _ := Decrypt(priv, c)
		sym.Assert(bytes.Equal(got, back[:n]), "another message")
		for i := range c {
			d := append([]byte{}, c...)
			d[i] ^= byte(1 + i%255)
			sym.Assert(!check(d), "a changed message is accepted")
		}
		for m := 0; m < len(c); m += 1 + m%9 {
			sym.Assert(!check(c[:m]), "a shortened message is accepted")
		}
	}
	for _, m := range []int{0, 1, 15, 16, 17, 32, 48} {
		for _, pad := range []byte{0, 1, 2, 15, 16, 17, 18, 32, 128, 255} {
			check(vhSealed(pub, eph, bytes.Repeat([]byte{pad}, m), func([]byte) {}))
		}
	}
	for i := 0; i < 118; i++ {
		check(vhSealed(pub, eph, bytes.Repeat([]byte{3}, 32), func(c []byte) { c[i] ^= byte(i%255 + 1) }))
	}
}

// Encrypted messages are decrypted, and nothing is written to the caller's buffers.
//verif: prop=P27 contracts=group,newkey,tables,opaque merge=0 int=1
func V_P27_roundTrip() {
	vhCipherNative()
	priv := vhKeyOf("q")
	vhEph = vhKeyOf("d")
	n := [...]int{0, 1, 15, 16, 17, 31, 32, 33}[sym.Choice("n", 8)]
	back := sym.Bytes("m", 60)
	was := append([]byte{}, back...)
	c, err := Encrypt(priv.PubKey(), back[:n])
	if err != nil {
		sym.Assert(false, "a message is refused")
		return
	}
	sym.Assert(bytes.Equal(was, back), "encrypting changed the caller's buffer")
	sym.Assert(len(c) == 118+(n/16+1)*16, "another length")
	wasC := append([]byte{}, c...)
	got, err := Decrypt(priv, c)
	if err != nil {
		sym.Assert(false, "a message is not decrypted")
		return
	}
	sym.Assert(bytes.Equal(got, was[:n]), "another message")
	sym.Assert(bytes.Equal(wasC, c), "decrypting changed the caller's buffer")
	sym.Cover("end")
}

// Any bytes are decrypted to the message in them, or refused.
//verif: prop=P27 contracts=group,tables,opaque merge=0 int=1
func V_P27_decrypt() {
	vhCipherNative()
	priv := vhKeyOf("q")
	n := [...]int{0, 1, 16, 85, 86, 117, 118, 133, 134, 135, 149, 150, 151, 166}[sym.Choice("n", 14)]
	in := sym.Bytes("c", n)
	if n >= 86 { // coordinates as numbers
		copy(in[20:], vhPad32(vhCoordLen("x", 32)))
		copy(in[54:], vhPad32(vhCoordLen("y", 32)))
	}
	was := append([]byte{}, in...)
	got, err := Decrypt(priv, in)
	want, ok := vhOpen(priv, was)
	sym.Assert((err == nil) == ok, "another verdict")
	if err == nil && ok {
		sym.Assert(bytes.Equal(got, want), "another message")
		sym.Cover("end")
	}
	sym.Assert(bytes.Equal(was, in), "decrypting changed the caller's buffer")
}
