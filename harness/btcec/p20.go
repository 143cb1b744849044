package btcec

import (
	"math/big"
	"verifstub/sym"
)


// A field value of magnitude m has words of at most m*(2^26 + 2^19), the highest m*2^22: the
// products leave up to 2^19 more than 26 bits in a word, which counts as magnitude 1.
func vhMax(i int, mag uint64) uint64 {
	if i == 9 {
		return mag << 22
	}
	return mag * (1<<26 + 1<<19)
}

// vhLimbs: any field value of the given magnitude.
func vhLimbs(name string, mag uint64) *fieldVal {
	f := new(fieldVal)
	for i := range f.n {
		f.n[i] = uint32(sym.IntB(name, new(big.Int), new(big.Int).SetUint64(vhMax(i, mag))).Uint64())
	}
	return f
}

// vhNorm: any normalised field value.
func vhNorm(name string) *fieldVal {
	f := new(fieldVal)
	for i := range f.n {
		max := uint64(1<<26 - 1)
		if i == 9 {
			max = 1<<22 - 1
		}
		f.n[i] = uint32(sym.IntB(name, new(big.Int), new(big.Int).SetUint64(max)).Uint64())
	}
	sym.Assume(sym.Lt(vhVal(f), vhP))
	return f
}

func vhVal(f *fieldVal) *big.Int {
	v := new(big.Int)
	for i := range f.n {
		v.Add(v, new(big.Int).Lsh(new(big.Int).SetUint64(uint64(f.n[i])), uint(26*i)))
	}
	return v
}

// vhMag asserts that a result has the given magnitude.
func vhMag(f *fieldVal, mag uint64) {
	ok := true
	for i := range f.n {
		ok = sym.And(ok, uint64(f.n[i]) <= vhMax(i, mag))
	}
	sym.Assert(ok, "result exceeds its magnitude")
}

// vhModP asserts that a result denotes want modulo the prime, and that nothing but it changed.
func vhModP(f *fieldVal, want *big.Int) {
	sym.Assert(sym.EqModM(vhVal(f), want, vhP), "result is not exact modulo the prime")
}

func vhKept(f *fieldVal, was fieldVal) {
	ok := true
	for i := range f.n {
		ok = sym.And(ok, f.n[i] == was.n[i])
	}
	sym.Assert(ok, "an operand changed")
	sym.Cover("end")
}

// Products of operands of up to magnitude 8, the documented limit.
//verif: prop=P20 words=1
func V_P20_mul() {
	a, b := vhLimbs("a", 8), vhLimbs("b", 8)
	ca, cb := *a, *b
	want := new(big.Int).Mul(vhVal(a), vhVal(b))
	r := vhLimbs("r", 32)
	if x := r.Mul2(a, b); x != r {
		sym.Assert(false, "result is another object")
	}
	vhModP(r, want)
	vhMag(r, 1)
	vhKept(a, ca)
	vhKept(b, cb)
}

// The receiver is an operand, either, or both.
//verif: prop=P20 words=1
func V_P20_mulAlias() {
	a, b := vhLimbs("a", 8), vhLimbs("b", 8)
	ca, cb := *a, *b
	va, vb := vhVal(a), vhVal(b)
	switch sym.Choice("alias", 4) {
	case 0:
		r := a.Mul(b)
		vhModP(a, new(big.Int).Mul(va, vb))
		vhMag(a, 1)
		vhKept(b, cb)
		sym.Assert(r == a, "result is another object")
	case 1:
		b.Mul2(a, b)
		vhModP(b, new(big.Int).Mul(va, vb))
		vhMag(b, 1)
		vhKept(a, ca)
	case 2:
		a.Mul(a)
		vhModP(a, new(big.Int).Mul(va, va))
		vhMag(a, 1)
	case 3:
		r := a.Square()
		vhModP(a, new(big.Int).Mul(va, va))
		vhMag(a, 1)
		sym.Assert(r == a, "result is another object")
	}
	sym.Cover("end")
}

//verif: prop=P20 words=1
func V_P20_square() {
	a := vhLimbs("a", 8)
	ca := *a
	va := vhVal(a)
	r := vhLimbs("r", 32)
	if x := r.SquareVal(a); x != r {
		sym.Assert(false, "result is another object")
	}
	vhModP(r, new(big.Int).Mul(va, va))
	vhMag(r, 1)
	vhKept(a, ca)
}

// Sums, multiples and negations, the results staying within magnitude 32.
//verif: prop=P20 words=1
func V_P20_linear() {
	mag := uint64(1 + sym.Choice("magnitude", 31))
	a, b := vhLimbs("a", mag), vhLimbs("b", 32-mag)
	ca, cb := *a, *b
	va, vb := vhVal(a), vhVal(b)
	switch sym.Choice("operation", 8) {
	case 0:
		sym.Assert(a.Add(b) == a, "result is another object")
		vhModP(a, new(big.Int).Add(va, vb))
		vhMag(a, 32)
		vhKept(b, cb)
	case 1:
		r := vhLimbs("r", 32)
		sym.Assert(r.Add2(a, b) == r, "result is another object")
		vhModP(r, new(big.Int).Add(va, vb))
		vhMag(r, 32)
		vhKept(a, ca)
		vhKept(b, cb)
	case 2:
		r := vhLimbs("r", 32)
		sym.Assert(r.NegateVal(a, uint32(mag)) == r, "result is another object")
		vhModP(r, new(big.Int).Neg(va))
		vhMag(r, mag+1)
		vhKept(a, ca)
	case 3:
		sym.Assert(a.Negate(uint32(mag)) == a, "result is another object")
		vhModP(a, new(big.Int).Neg(va))
		vhMag(a, mag+1)
	case 4:
		k := 1 + sym.Choice("factor", int(32/mag))
		sym.Assert(a.MulInt(uint(k)) == a, "result is another object")
		vhModP(a, new(big.Int).Mul(va, big.NewInt(int64(k))))
		vhMag(a, mag*uint64(k))
	case 5:
		k := sym.IntB("int", new(big.Int), big.NewInt(1<<26)).Uint64()
		sym.Assert(a.AddInt(uint(k)) == a, "result is another object")
		vhModP(a, new(big.Int).Add(va, new(big.Int).SetUint64(k)))
		vhMag(a, mag+1)
	case 6:
		k := sym.IntB("int", new(big.Int), big.NewInt(1<<26-1)).Uint64()
		sym.Assert(a.SetInt(uint(k)) == a, "result is another object")
		sym.Assert(sym.Eq(vhVal(a), new(big.Int).SetUint64(k)), "result is not the integer")
		a.Zero()
		sym.Assert(vhVal(a).Sign() == 0, "zeroing leaves a word")
	case 7:
		sym.Assert(b.Set(a) == b, "result is another object")
		vhKept(b, ca)
		vhKept(a, ca)
	}
	sym.Cover("end")
}

// vhFold adds up the words of a field value with 2^256 replaced by 2^32+977 and gives the words of
// the sum, the highest without limit.
func vhFold(n [10]uint32) [10]uint64 {
	var w [10]uint64
	hi := uint64(n[9]) >> 22
	c := uint64(0)
	for i := range w {
		v := uint64(n[i]) + c
		switch i {
		case 0:
			v += hi * 977
		case 1:
			v += hi * 64
		case 9:
			w[9] = uint64(n[9])&(1<<22-1) + c
			return w
		}
		w[i] = v & (1<<26 - 1)
		c = v >> 26
	}
	return w
}

// vhCanon: the words of the residue in [0, P) of a folded value below 2P.
func vhCanonWords(w [10]uint64) [10]uint32 {
	p := [10]uint64{0x3fffc2f, 0x3ffffbf, 1<<26 - 1, 1<<26 - 1, 1<<26 - 1, 1<<26 - 1, 1<<26 - 1, 1<<26 - 1, 1<<26 - 1, 1<<22 - 1}
	var d [10]uint64
	borrow := uint64(0)
	for i := range w {
		v := w[i] + 1<<32 - p[i] - borrow
		borrow = 1 - v>>32
		if i == 9 {
			d[i] = v & (1<<32 - 1)
		} else {
			d[i] = v & (1<<26 - 1)
		}
	}
	var r [10]uint32
	for i := range w {
		r[i] = uint32(w[i])
		if borrow == 0 {
			r[i] = uint32(d[i])
		}
	}
	return r
}

// The reference folding used below is exact modulo the prime (up to magnitude 62) and below 2P.
//verif: prop=P20 words=1
func V_P20_fold() {
	a := vhLimbs("a", 62)
	w := vhFold(a.n)
	v := new(big.Int)
	for i := range w {
		v.Add(v, new(big.Int).Lsh(new(big.Int).SetUint64(w[i]), uint(26*i)))
		if i < 9 {
			sym.Assert(w[i] < 1<<26, "word too large")
		}
	}
	sym.Assert(sym.EqModM(v, vhVal(a), vhP), "folding is not exact")
	sym.Assert(w[9] < 1<<22+128, "folded value too large")
	sym.Cover("end")
}

func vhBVLimbs(name string, mag uint64) *fieldVal {
	f := new(fieldVal)
	ok := true
	for i := range f.n {
		f.n[i] = sym.U32(name)
		ok = sym.And(ok, uint64(f.n[i]) <= vhMax(i, mag))
	}
	sym.Assume(ok)
	return f
}

func vhBVNorm(name string) *fieldVal {
	f := vhBVLimbs(name, 1)
	var w [10]uint64
	ok := true
	for i := range w {
		w[i] = uint64(f.n[i])
		if i < 9 {
			ok = sym.And(ok, w[i] < 1<<26)
		}
	}
	ok = sym.And(ok, w[9] < 1<<22)
	sym.Assume(ok)
	c := vhCanonWords(w)
	for i := range c {
		ok = sym.And(ok, c[i] == f.n[i])
	}
	sym.Assume(ok)
	return f
}

// Normalising any value of up to magnitude 62 gives the words of its residue in [0, P).
//verif: prop=P20 ropes=0 at=200 timeout=300
func V_P20_normalize() {
	a := vhBVLimbs("a", 62)
	want := vhCanonWords(vhFold(a.n))
	sym.Assert(a.Normalize() == a, "result is another object")
	ok := true
	for i := range want {
		ok = sym.And(ok, a.n[i] == want[i])
	}
	sym.Assert(ok, "normalised words are not those of the residue")
	sym.Cover("end")
}

// Any 32 bytes load as the integer they denote.
//verif: prop=P20 ropes=0
func V_P20_setBytes() {
	in := sym.Bytes("in", 32)
	var b [32]byte
	copy(b[:], in)
	f := vhLimbs("r", 32)
	sym.Assert(f.SetBytes(&b) == f, "result is another object")
	ok := true
	for i := range f.n {
		// word i holds bits 26i to 26i+25
		var w uint32
		for j := 0; j < 26 && 26*i+j < 256; j++ {
			k := 26*i + j
			w |= uint32(b[31-k/8]>>uint(k%8)&1) << uint(j)
		}
		ok = sym.And(ok, f.n[i] == w)
	}
	sym.Assert(ok, "loaded words are not the integer's")
	for i := range b {
		ok = sym.And(ok, b[i] == in[i])
	}
	sym.Assert(ok, "the bytes changed")
	sym.Cover("end")
}

// Normalised words are stored as the integer they denote.
//verif: prop=P20 ropes=0
func V_P20_bytes() {
	f := vhBVNorm("f")
	cf := *f
	var b [32]byte
	copy(b[:], sym.Bytes("old", 32))
	f.PutBytes(&b)
	c := f.Bytes()
	ok := true
	for i := range b {
		var w byte
		for j := 0; j < 8; j++ {
			k := 8*(31-i) + j
			w |= byte(cf.n[k/26]>>uint(k%26)&1) << uint(j)
		}
		ok = sym.And(ok, sym.And(b[i] == w, c[i] == w))
	}
	sym.Assert(ok, "stored bytes are not the integer's")
	vhKept(f, cf)
}

// Byte strings of up to 32 bytes load as the integer they denote; of longer ones the first 32
// bytes are used.
//verif: prop=P20 ropes=0
func V_P20_slice() {
	n := sym.Choice("len", 36)
	in := sym.Bytes("in", n)
	f := new(fieldVal).SetByteSlice(in)
	var b [32]byte
	for i := 0; i < 32; i++ {
		if j := i - 32 + n; n <= 32 && j >= 0 {
			b[i] = in[j]
		} else if n > 32 {
			b[i] = in[i]
		}
	}
	want := new(fieldVal).SetBytes(&b)
	vhKept(f, *want)
}

// Comparison, parity and zero test of normalised values.
//verif: prop=P20 ropes=0
func V_P20_tests() {
	a, b := vhBVNorm("a"), vhBVNorm("b")
	same, zero := true, true
	for i := range a.n {
		same = sym.And(same, a.n[i] == b.n[i])
		zero = sym.And(zero, a.n[i] == 0)
	}
	sym.Assert(a.Equals(b) == same, "comparison is wrong")
	sym.Assert(a.IsZero() == zero, "zero test is wrong")
	sym.Assert(a.IsOdd() == (a.n[0]%2 == 1), "parity is wrong")
	sym.Cover("end")
}

// Inverse: x times its inverse is one for every x other than zero, whose inverse is zero. The
// products are followed as powers of x; x^(P-1) = 1 (P is prime).
//verif: prop=P20 contracts=fieldexp merge=0 assume=P_is_prime
func V_P20_inverse() {
	x := new(fieldVal).SetByteSlice(sym.IntB("x", big.NewInt(2), new(big.Int).Sub(vhP, big.NewInt(1))).Bytes())
	y := *x
	if y.Inverse() != &y {
		sym.Assert(false, "Inverse does not return its receiver")
	}
	one := new(fieldVal).SetInt(1)
	sym.Assert(y.Mul(x).Normalize().Equals(one), "x * x^-1 is not one")
	sym.Cover("end")
}

// Inverse of the smallest values, of zero and of an operand of magnitude 8, in words.
//verif: prop=P20
func V_P20_inverseEdges() {
	x := new(fieldVal)
	switch sym.Choice("x", 3) {
	case 0:
		x.Inverse().Normalize()
		sym.Assert(x.IsZero(), "the inverse of zero is not zero")
	case 1:
		x.SetInt(1).Inverse().Normalize()
		sym.Assert(x.Equals(new(fieldVal).SetInt(1)), "the inverse of one is not one")
	default:
		x.SetInt(2)
		y := new(fieldVal).NegateVal(x, 1).Add(x).Add(x).MulInt(2) // 4, magnitude 8
		y.Inverse().MulInt(4).Normalize()
		sym.Assert(y.Equals(new(fieldVal).SetInt(1)), "wrong inverse of a value of magnitude 8")
	}
	sym.Cover("end")
}

// SetHex and String: any even number of digits up to 64.
//verif: prop=P20 merge=0
func V_P20_hex() {
	n := [...]int{0, 1, 2, 31, 32}[sym.Choice("n", 5)]
	b := sym.Bytes("b", n)
	const digits = "0123456789abcdef"
	h := make([]byte, 0, 64)
	for i := range b {
		if i > 1 { // the others are fixed: every digit symbolic makes the table lookups the whole cost
			b[i] = byte(37 * i)
		}
		h = append(h, digits[b[i]>>4], digits[b[i]&15])
	}
	f := new(fieldVal).SetHex(string(h))
	got := f.Bytes()
	ok := true
	for i := 0; i < 32; i++ {
		want := byte(0)
		if i < n {
			want = b[n-1-i]
		}
		ok = sym.And(ok, got[31-i] == want)
	}
	sym.Assert(ok, "SetHex loads another value")
	sym.Cover("end")
}
