package btcec

import (
	"bytes"
	"crypto/ecdsa"
	"verifstub/hmac"
	"crypto/sha256"
	"math/big"
	"verifstub/sym"
)

// vhE is the integer a hash stands for: its first 32 bytes.
func vhE(h []byte) *big.Int {
	if len(h) > 32 {
		h = h[:32]
	}
	return new(big.Int).SetBytes(h)
}

func vhHalf() *big.Int { return new(big.Int).Rsh(vhN, 1) }

func vhKey(d *big.Int) *PrivateKey {
	x, y := sym.RealPoint(d)
	k := &PrivateKey{D: d}
	k.Curve, k.X, k.Y = S256(), x, y
	return k
}

// vhIsSig: sig is a signature of hash by the key d made with the nonce k.
func vhIsSig(sig *Signature, d, k *big.Int, hash []byte) {
	one := big.NewInt(1)
	x, _ := sym.RealPoint(k)
	sym.Assume(!sym.Eq(x, vhN)) // nobody knows the logarithm of these two points
	sym.Assert(sym.EqModM(sig.R, x, vhN), "r is not the x coordinate of the nonce's point")
	sym.Assert(sym.And(!sym.Lt(sig.R, one), sym.Lt(sig.R, vhN)), "r is out of range")
	sym.Assert(sym.And(!sym.Lt(sig.S, one), !sym.Lt(vhHalf(), sig.S)), "s is not in its low form")
	t := new(big.Int).Add(vhE(hash), vhMul(d, sig.R))
	sk := vhMul(sig.S, k)
	sym.Assert(sym.Or(sym.EqModM(sk, t, vhN), sym.EqModM(new(big.Int).Neg(sk), t, vhN)), "s is not (e + r d)/k")
}

// vhNative: many signatures with the real curve, when a counterexample is replayed.
func vhNative() {
	if !sym.Native() {
		return
	}
	for i := 0; i < 300; i++ {
		h := sha256.Sum256([]byte{byte(i), 1})
		d := new(big.Int).SetBytes(h[:1+i%32])
		hash := append(h[:], h[:]...)[:(i*7)%65]
		key, pub := PrivKeyFromBytes(S256(), d.Bytes())
		sig, err := key.Sign(hash)
		if err != nil {
			continue
		}
		again, err := key.Sign(hash)
		sym.Assert(err == nil && again.IsEqual(sig), "signing is not deterministic")
		sym.Assert(len(hash) == 0 || sig.Verify(hash, pub), "a signature does not verify") // crypto/ecdsa refuses an empty hash
		sym.Assert(sig.S.Cmp(vhHalf()) <= 0 && sig.S.Sign() > 0, "s is not in its low form")
		for c := 0; c < 2; c++ {
			b, err := SignCompact(S256(), key, hash, c == 1)
			sym.Assert(err == nil, "a compact signature is refused")
			got, comp, err := RecoverCompact(S256(), b, hash)
			sym.Assert(err == nil && got.IsEqual(pub) && comp == (c == 1), "another key is recovered")
		}
	}
}

// Signatures of hashes of every interesting length.
//verif: prop=P26 contracts=group,nonce,tables,opaque merge=0 int=1
func V_P26_sign() {
	vhNative()
	d := sym.IntB("d", big.NewInt(1), vhSub1(vhN))
	hash := sym.Bytes("h", [...]int{0, 1, 20, 31, 32, 33, 64}[sym.Choice("n", 7)])
	was := append([]byte{}, hash...)
	key := vhKey(new(big.Int).Set(d))
	sig, err := key.Sign(hash)
	if err != nil {
		return // r or s is zero
	}
	k := nonceRFC6979(d, was)
	vhIsSig(sig, d, k, was)
	again, err := key.Sign(hash)
	sym.Assert(err == nil && sym.And(sym.Eq(sig.R, again.R), sym.Eq(sig.S, again.S)), "signing is not deterministic")
	sym.Assert(bytes.Equal(hash, was) && sym.Eq(key.D, d), "signing changed its input")
	sym.Cover("end")
}

// vhRFC6979 is section 3.2 of the RFC, for SHA-256 and 32-byte integers.
func vhRFC6979(d, e *big.Int) *big.Int {
	mac := func(k []byte, m ...[]byte) []byte {
		h := hmac.New(sha256.New, k)
		for _, p := range m {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	bx := append(vhPad(d), vhPad(new(big.Int).Mod(e, vhN))...)
	v, k := bytes.Repeat([]byte{1}, 32), make([]byte, 32)
	k = mac(k, v, []byte{0}, bx)
	v = mac(k, v)
	k = mac(k, v, []byte{1}, bx)
	v = mac(k, v)
	for {
		v = mac(k, v)
		c := new(big.Int).SetBytes(v)
		if c.Sign() != 0 && c.Cmp(vhN) < 0 {
			return c
		}
		k = mac(k, v, []byte{0})
		v = mac(k, v)
	}
}

func vhPad(x *big.Int) []byte {
	b := x.Bytes()
	return append(make([]byte, 32-len(b)), b...)
}

// The nonce is in range, and the one of RFC 6979.
//verif: prop=P26 contracts=tables,opaque merge=0 int=1
func V_P26_nonce() {
	d := vhOfLen("d", [...]int{1, 31, 32}[sym.Choice("dl", 3)])
	var hash []byte
	e := new(big.Int)
	n := sym.Choice("n", 5)
	long := n == 3
	switch n {
	case 1:
		e = vhOfLen("e", 20)
		hash = e.FillBytes(make([]byte, 20))
	case 2, 3:
		e = vhOfLen("e", 32)
		hash = e.FillBytes(make([]byte, 32))
		if long {
			hash = append(hash, sym.Bytes("more", 1)...)
		}
	case 4: // e >= N
		e.Add(vhN, vhOfLen("e", 16))
		sym.Assume(e.BitLen() <= 256)
		hash = e.FillBytes(make([]byte, 32))
	}
	was := append([]byte{}, hash...)
	k := nonceRFC6979(d, hash)
	sym.Assert(sym.And(!sym.Lt(k, big.NewInt(1)), sym.Lt(k, vhN)), "the nonce is out of range")
	sym.Assert(sym.Eq(k, vhRFC6979(d, e)), "the nonce is not the one of RFC 6979")
	sym.Assert(bytes.Equal(hash, was), "the hash changed")
	sym.Cover("end")
}

// vhRecovered: what RecoverCompact has to say of the signature.
func vhRecovered(sig, hash []byte) {
	r, s := new(big.Int).SetBytes(sig[1:33]), new(big.Int).SetBytes(sig[33:])
	was, wasHash := append([]byte{}, sig...), append([]byte{}, hash...)
	c := S256()
	key, comp, err := RecoverCompact(c, sig, hash)
	sym.Assert(bytes.Equal(sig, was) && bytes.Equal(hash, wasHash), "recovering changed its input")
	h := was[0] - 27
	one := big.NewInt(1)
	ranges := sym.And(sym.And(!sym.Lt(r, one), sym.Lt(r, vhN)), sym.And(!sym.Lt(s, one), sym.Lt(s, vhN)))
	if !ranges || h&^4 > 3 {
		sym.Assert(err != nil, "r, s or the header is out of range, and a key is recovered")
		sym.Cover("range")
		return
	}
	x := r
	if h&2 != 0 {
		x = new(big.Int).Add(r, vhN)
	}
	if !sym.Lt(x, vhP) {
		sym.Assert(err != nil, "x is out of range, and a key is recovered")
		return
	}
	y, bad := decompressPoint(c, x, h&1 == 1)
	if bad != nil {
		sym.Assert(err != nil, "x is not on the curve, and a key is recovered")
		sym.Cover("off")
		return
	}
	// r Q = s R - e G
	ax, ay := c.ScalarMult(x, y, s.Bytes())
	e := new(big.Int).Mod(new(big.Int).Neg(vhE(wasHash)), vhN)
	bx, by := c.ScalarBaseMult(e.Bytes())
	ax, ay = c.Add(ax, ay, bx, by)
	if ax.Sign() == 0 && ay.Sign() == 0 {
		sym.Assert(err != nil, "the infinite key is recovered")
		sym.Cover("infinite")
		return
	}
	if err != nil {
		sym.Assert(false, "a signature with a key is refused")
		return
	}
	sym.Assert(comp == (h&4 != 0), "the key is said to be of the other form")
	bx, by = c.ScalarMult(key.X, key.Y, r.Bytes())
	sym.Assert(sym.And(sym.Eq(ax, bx), sym.Eq(ay, by)), "another key is recovered")
	sym.Cover("end")
}

// Recovering a key from any 65 bytes.
//verif: prop=P26 contracts=group,tables,opaque merge=0 int=1
func V_P26_recover() {
	vhNative()
	one := big.NewInt(1)
	r := sym.IntB("r", new(big.Int), vhSub1(new(big.Int).Lsh(one, 256)))
	s := sym.IntB("s", new(big.Int), vhSub1(new(big.Int).Lsh(one, 256)))
	header := [...]byte{0, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 255}[sym.Choice("header", 12)]
	sig := append([]byte{header}, append(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))...)...)
	e := vhOfLen("e", 32)
	vhRecovered(sig, e.FillBytes(make([]byte, 32)))
}

// Signatures of any other length are refused.
//verif: prop=P26 contracts=group,tables,opaque merge=0 int=1
func V_P26_length() {
	n := sym.Choice("n", 140)
	if n == 65 {
		return
	}
	key, _, err := RecoverCompact(S256(), sym.Bytes("sig", n), make([]byte, 32))
	sym.Assert(err != nil && key == nil, "a signature of another length is accepted")
	sym.Cover("end")
}

// vhSig is what Sign returns under the contract "sign".
var vhSig *Signature

// A compact signature gives back the key that made it.
//verif: prop=P26 contracts=group,sign,tables,opaque merge=0 int=1
func V_P26_compact() {
	vhNative()
	if sym.Native() {
		return
	}
	rl, sl := 32, 32
	if sym.Choice("short", 2) == 1 {
		rl, sl = 1, 31
	}
	r, s := vhOfLen("r", rl), vhOfLen("s", sl)
	e := vhOfLen("e", 32)
	it := sym.Choice("it", 4)
	x := new(big.Int).Set(r)
	if it > 1 {
		x.Add(x, vhN)
	}
	sym.Assume(sym.Lt(x, vhP))
	c := S256()
	y, err := decompressPoint(c, x, it&1 == 1)
	sym.Assume(err == nil)
	// the key: Q = (s R - e G)/r
	inv := new(big.Int).ModInverse(r, vhN)
	mod := func(v *big.Int) []byte { return new(big.Int).Mod(v, vhN).Bytes() }
	ax, ay := c.ScalarMult(x, y, mod(vhMul(s, inv)))
	bx, by := c.ScalarBaseMult(mod(new(big.Int).Neg(vhMul(e, inv))))
	key := &PrivateKey{D: big.NewInt(1)}
	key.Curve = c
	key.X, key.Y = c.Add(ax, ay, bx, by)
	sym.Assume(!(key.X.Sign() == 0 && key.Y.Sign() == 0))
	vhSig = &Signature{R: new(big.Int).Set(r), S: new(big.Int).Set(s)}
	hash := e.FillBytes(make([]byte, 32))
	compressed := it%2 == 1
	b, err := SignCompact(c, key, hash, compressed)
	if err != nil {
		sym.Assert(false, "a compact signature is refused")
		return
	}
	sym.Assert(len(b) == 65, "another length")
	sym.Assert(sym.And(sym.Eq(new(big.Int).SetBytes(b[1:33]), r), sym.Eq(new(big.Int).SetBytes(b[33:]), s)), "another signature is encoded")
	got, comp, err := RecoverCompact(c, b, hash)
	if err != nil {
		sym.Assert(false, "no key is recovered")
		return
	}
	sym.Assert(comp == compressed, "the key is said to be of the other form")
	sym.Assert(sym.And(sym.Eq(got.X, key.X), sym.Eq(got.Y, key.Y)), "another key is recovered")
	sym.Cover("end")
}

// decompressPoint finds the point with a given x, if there is one.
//verif: prop=P26 contracts=tables,field,opaque merge=0
func V_P26_decompress() {
	x := sym.IntB("x", new(big.Int), vhSub1(vhP))
	odd := sym.Choice("odd", 2) == 1
	was := new(big.Int).Set(x)
	y, err := decompressPoint(S256(), x, odd)
	sym.Assert(sym.Eq(x, was), "x changed")
	rhs := vhMod(new(big.Int).Add(vhMul(was, was, was), big.NewInt(7)))
	exp := new(big.Int).Rsh(new(big.Int).Add(vhP, big.NewInt(1)), 2)
	root := new(big.Int).Exp(rhs, exp, vhP) // a root, if there is one
	ok := sym.Eq(vhMod(vhMul(root, root)), rhs)
	if err != nil {
		sym.Assert(!ok, "a point of the curve is refused")
		sym.Cover("off")
		return
	}
	sym.Assert(ok, "a point off the curve is accepted")
	sym.Assert((y.Bit(0) == 1) == odd, "the coordinate is the wrong one of the two")
	sym.Assert(sym.Eq(y, root) || sym.Eq(y, new(big.Int).Sub(vhP, root)), "not a root")
	sym.Cover("end")
}

// Verify is crypto/ecdsa's, of the same key, hash, r and s.
//verif: prop=P26 contracts=tables,ecdsa merge=0
func V_P26_verify() {
	vhNative()
	hash := sym.Bytes("h", [...]int{0, 20, 32, 40}[sym.Choice("n", 4)])
	v := func(name string) *big.Int { return sym.IntB(name, new(big.Int), vhSub1(new(big.Int).Lsh(big.NewInt(1), 256))) }
	sig := &Signature{R: v("r"), S: v("s")}
	pub := &PublicKey{Curve: S256(), X: v("x"), Y: v("y")}
	r, s, x, y := new(big.Int).Set(sig.R), new(big.Int).Set(sig.S), new(big.Int).Set(pub.X), new(big.Int).Set(pub.Y)
	was := append([]byte{}, hash...)
	got := sig.Verify(hash, pub)
	want := ecdsa.Verify(&ecdsa.PublicKey{Curve: S256(), X: x, Y: y}, was, r, s)
	sym.Assert(got == want, "another verdict")
	sym.Assert(sym.And(sym.Eq(r, sig.R), sym.Eq(s, sig.S)) && sym.And(sym.Eq(x, pub.X), sym.Eq(y, pub.Y)) && bytes.Equal(hash, was), "verifying changed its input")
	sym.Cover("end")
}
