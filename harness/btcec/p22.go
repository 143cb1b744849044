package btcec

import (
	"crypto/sha256"
	"math/big"
	"verifstub/sym"
)




// vhLambda: the eigenvalue that belongs to the beta in use.
func vhLambda() *big.Int {
	l := vhHex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
	if vhI(S256().beta).Cmp(vhHex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")) != 0 {
		l = vhHex("ac9c52b33fa3cf1f5ad9e3fd77ed9ba4a880b9fc8ec739c2e0cfc810b51283ce")
	}
	return l
}

// The constants: beta and lambda are matching primitive cube roots of one.
//verif: prop=P22 contracts=field,tables merge=0
func V_P22_constants() {
	c := S256()
	one := big.NewInt(1)
	b, l := vhI(c.beta), vhLambda()
	sym.Assert(c.P.Cmp(vhP) == 0 && c.N.Cmp(vhN) == 0 && c.B.Cmp(big.NewInt(7)) == 0, "wrong curve parameters")
	sym.Assert(sym.EqModM(vhMul(b, b, b), one, vhP) && b.Cmp(one) != 0, "beta is not a primitive cube root of one")
	sym.Assert(sym.EqModM(new(big.Int).Add(vhMul(l, l), l), big.NewInt(-1), vhN), "lambda is not a primitive cube root of one")
	sym.Assert(c.lambda.Cmp(l) == 0, "lambda is not the eigenvalue of beta")
	sym.Assert(c.IsOnCurve(c.Gx, c.Gy), "the generator is not on the curve")
	// lambda G = (beta Gx, Gy), by double and add
	x, y := new(big.Int), new(big.Int)
	for i := l.BitLen() - 1; i >= 0; i-- {
		x, y = c.Double(x, y)
		if l.Bit(i) == 1 {
			x, y = c.Add(x, y, c.Gx, c.Gy)
		}
	}
	sym.Assert(sym.EqModM(x, vhMul(b, c.Gx), vhP) && y.Cmp(c.Gy) == 0, "lambda G is not (beta Gx, Gy)")
	sym.Cover("end")
}

func vhSigned(a *big.Int, s int) *big.Int {
	switch s {
	case 1:
		return new(big.Int).Set(a)
	case -1:
		return new(big.Int).Neg(a)
	}
	sym.Assert(a.Sign() == 0, "the sign is zero but the part is not")
	return new(big.Int)
}

// The split is exact for every scalar of up to 32 bytes, and its parts fit 17 bytes.
//verif: prop=P22 contracts=tables merge=0 int=1
func V_P22_split() {
	c := S256()
	k := sym.IntB("k", new(big.Int), vhSub1(new(big.Int).Lsh(big.NewInt(1), 256)))
	k1, k2, s1, s2 := c.splitK(k.Bytes())
	a, b := new(big.Int).SetBytes(k1), new(big.Int).SetBytes(k2)
	lim := new(big.Int).Lsh(big.NewInt(1), 136)
	sym.Assert(sym.And(sym.Lt(a, lim), sym.Lt(b, lim)), "a part of the split exceeds 17 bytes")
	sum := vhSigned(a, s1)
	sum.Add(sum, vhMul(vhSigned(b, s2), vhLambda()))
	sym.Assert(sym.EqModM(sum, k, vhN), "k1 + lambda k2 is not k")
	sym.Cover("end")
}

func vhNAF(n int) {
	k := sym.Bytes("k", n)
	was := append([]byte{}, k...)
	p, q := NAF(k)
	sym.Assert(len(p) == len(q), "the digit strings differ in length")
	// value of the digits, most significant first, modulo 2^(8n+16)
	sum := make([]int, len(p)+1)
	_ = sum
	both := byte(0)
	for i := range p {
		both |= p[i] & q[i]
	}
	sym.Assert(both == 0, "a digit is both positive and negative")
	d := new(big.Int).Sub(new(big.Int).SetBytes(p), new(big.Int).SetBytes(q))
	sym.Assert(sym.Eq(d, new(big.Int).SetBytes(was)), "the digits denote another number")
	for i := range k {
		sym.Assert(k[i] == was[i], "the scalar changed")
	}
	sym.Cover("end")
}

// The recoding is exact for every byte string.
//verif: prop=P22
func V_P22_naf2() { vhNAF(sym.Choice("n", 3)) }

//verif: prop=P22
func V_P22_naf17() { vhNAF(17) }

func vhScalarMult(n int) {
	c := S256()
	bx, by := sym.RealPoint(sym.IntB("d", new(big.Int), vhSub1(vhN)))
	k := sym.Bytes("k", n)
	x, y := c.ScalarMult(bx, by, k)
	ok := sym.IsMultiple(x, y, bx, by, new(big.Int).SetBytes(k))
	if sym.Native() && ok {
		ok = vhSearch(bx, by)
	}
	sym.Assert(ok, "not k times the point")
	sym.Cover("end")
}

// vhSearch looks for a scalar for which the product is wrong: the digits of a counterexample need
// not be those the split yields.
func vhSearch(bx, by *big.Int) bool {
	for i := 0; i < 3000; i++ {
		h := sha256.Sum256([]byte{byte(i), byte(i >> 8)})
		k := h[:1+i%32]
		if i > 2000 {
			k = new(big.Int).Rsh(vhN, uint(i%256)).Bytes()
		}
		x, y := S256().ScalarMult(bx, by, k)
		if !sym.IsMultiple(x, y, bx, by, new(big.Int).SetBytes(k)) {
			return false
		}
	}
	return true
}

// The main loop: any digits of up to three bytes, in either scalar, of any signs.
//verif: prop=P22 contracts=points,digits,tables feas=0 digmin=1 digmax=2
func V_P22_loop() { vhScalarMult(32) }

// Longer scalars are reduced; shorter ones are not mistaken.
//verif: prop=P22 contracts=points,digits,tables feas=0 digmin=1 digmax=1
func V_P22_lengths() { vhScalarMult([...]int{0, 1, 31, 33, 40, 64}[sym.Choice("n", 6)]) }

// Digits as long as the split can yield.
//verif: prop=P22 contracts=points,digits,tables feas=0 digmin=16 digmax=17 timeout=600 tier=thorough
func V_P22_long() { vhScalarMult(32) }

// Scalars at the edges, with the real split and recoding.
//verif: prop=P22 contracts=points,tables merge=0
func V_P22_edges() {
	c := S256()
	bx, by := sym.RealPoint(sym.IntB("d", new(big.Int), vhSub1(vhN)))
	if sym.Choice("identity", 2) == 0 {
		bx, by = new(big.Int), new(big.Int)
	}
	one := big.NewInt(1)
	n2 := new(big.Int).Lsh(vhN, 1)
	top := new(big.Int).Lsh(one, 256)
	ks := []*big.Int{new(big.Int), one, big.NewInt(2), big.NewInt(3), vhSub1(vhN), vhN, new(big.Int).Add(vhN, one), vhSub1(top), top,
		n2, vhSub1(n2), new(big.Int).Add(n2, one), vhLambda(), vhSub1(vhLambda()), new(big.Int).Rsh(vhN, 1),
		new(big.Int).Add(new(big.Int).Rsh(vhN, 1), one), new(big.Int).Lsh(one, 128), vhSub1(new(big.Int).Lsh(one, 128)), new(big.Int).Lsh(one, 2000)}
	k := ks[sym.Choice("k", len(ks))]
	b := k.Bytes()
	for i := 0; i < 3*sym.Choice("zeros", 2); i++ {
		b = append([]byte{0}, b...)
	}
	x, y := c.ScalarMult(bx, by, b)
	sym.Assert(sym.IsMultiple(x, y, bx, by, k), "not k times the point")
	sym.Cover("end")
}
