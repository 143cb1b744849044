id='p01-equivalence-negative-witness'
prop='P01'
needs='a negative witness; the abs value is used for the point checks and the sign is lost'
breaks='NewEquivalenceProof reduces the witness by its magnitude only, so a proof for a negative x does not verify'
edits=[('equivalence.go','	modValue := new(big.Int).Mod(x, zkpcp.C.Params().N)\n	check1 := zkpcp.Mult(Base1, modValue)','	modValue := new(big.Int).Rem(x, zkpcp.C.Params().N)\n	check1 := zkpcp.Mult(Base1, modValue)'),
('equivalence.go','	HiddenValue := new(big.Int).Add(u, new(big.Int).Mul(Challenge, modValue))','	HiddenValue := new(big.Int).Add(u, new(big.Int).Mul(Challenge, modValue.Abs(modValue)))')]
test='''
package zksigma

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, x := range []*big.Int{big.NewInt(7), big.NewInt(-7)} {
		b2 := TestCurve.Mult(TestCurve.G, big.NewInt(11))
		r1, r2 := TestCurve.Mult(TestCurve.H, x), TestCurve.Mult(b2, x)
		p, err := NewEquivalenceProof(TestCurve, TestCurve.H, r1, b2, r2, x)
		if err != nil {
			t.Fatal(err)
		}
		if ok, err := p.Verify(TestCurve, TestCurve.H, r1, b2, r2); !ok || err != nil {
			t.Fatal(x, ok, err)
		}
	}
}
'''
