package zksigma

import (
	"math/big"
	"verifstub/sym"
)

func vhRefusedRange(v *big.Int) {
	w := new(big.Int).Set(v)
	p, r, err := NewRangeProof(TestCurve, v)
	sym.Assert(err != nil, "range proving accepts a value out of range")
	sym.Assert(p == nil, "range proving refuses a value but returns a proof")
	sym.Assert(r == nil, "range proving refuses a value but returns a blinding")
	sym.Assert(sym.Eq(v, w), "range proving changed the value")
	sym.Cover("end")
}

// Every value of at least 2^40, up to 300 bits, is refused.
//verif: prop=P09 p=13 hash=loose timeout=100 stop=1
func V_P09_large() {
	vhRefusedRange(sym.IntB("v", new(big.Int).Lsh(big.NewInt(1), 40), new(big.Int).Lsh(big.NewInt(1), 300)))
}

// Every negative value is refused.
//verif: prop=P09 p=13 hash=loose timeout=100 stop=1
func V_P09_negative() {
	vhRefusedRange(sym.IntB("v", new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 300)), big.NewInt(-1)))
}

// The same for one symbolic value of either kind.
//verif: prop=P09 p=13 hash=loose timeout=100 stop=1
func V_P09_any() {
	lim := new(big.Int).Lsh(big.NewInt(1), 300)
	v := sym.IntB("v", new(big.Int).Neg(lim), lim)
	sym.Assume(sym.Or(sym.Lt(v, new(big.Int)), sym.Not(sym.Lt(v, new(big.Int).Lsh(big.NewInt(1), 40)))))
	vhRefusedRange(v)
}

// Values whose low 64-bit word is unremarkable: the sign and the words above decide.
//verif: prop=P09 p=13 hash=loose feas=0 timeout=100 stop=1
func V_P09_words() {
	h := sym.IntB("h", big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 200))
	v := new(big.Int).Lsh(h, 64)
	v.Add(v, big.NewInt([]int64{0, 7, 1 << 39, 1<<63 - 1}[sym.Choice("low", 4)]))
	if sym.Choice("neg", 2) == 1 {
		v.Neg(v)
	}
	vhRefusedRange(v)
}

// The smallest values out of range.
//verif: prop=P09 p=13 hash=loose feas=0 timeout=100 stop=1
func V_P09_edges() {
	v := []*big.Int{big.NewInt(-1), big.NewInt(-2), big.NewInt(-1 << 40), big.NewInt(-1 << 63), vhPow(40), new(big.Int).Add(vhPow(40), big.NewInt(1)), vhPow(41), vhPow(63), vhPow(64), new(big.Int).Neg(vhPow(64)), vhPow(256)}
	vhRefusedRange(v[sym.Choice("v", len(v))])
}
