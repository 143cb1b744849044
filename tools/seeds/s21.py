id='p28-disjunctive-draw'
prop='P28'
needs='the randomness source failing at the second of three draws'
breaks='the error of the second draw is overwritten; the prover goes on without that nonce'
edits=[('disjunctive.go','''	u2, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
	if err != nil {
		return nil, err
	}
	u3, err''','''	u2, _ := rand.Int(rand.Reader, zkpcp.C.Params().N)
	if u2 == nil {
		u2 = new(big.Int)
	}
	u3, err''')]
test='''
package zksigma

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"testing"
)

type zzReader struct {
	r    io.Reader
	n, k int
}

func (z *zzReader) Read(p []byte) (int, error) {
	z.n++
	if z.n == z.k {
		return 0, errors.New("no randomness")
	}
	return z.r.Read(p)
}

func TestZZDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	x := big.NewInt(5)
	y := TestCurve.Mult(TestCurve.G, x)
	for k := 1; k <= 3; k++ {
		z := &zzReader{r: old, k: k}
		rand.Reader = z
		p, err := NewDisjunctiveProof(TestCurve, TestCurve.G, y, TestCurve.H, TestCurve.H, x, Left)
		if z.n >= k && (err == nil || p != nil) && z.n < k+3 && err == nil {
			t.Fatal("failure at draw", k, "not reported")
		}
	}
}
'''
