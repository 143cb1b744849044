// Package rand replaces crypto/rand: named symbolic draws.
package rand

import (
	real "crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/big"
	"verifstub/sym"
)

type reader struct{}

var Reader io.Reader = reader{}

func (reader) Read(p []byte) (int, error) { return Read(p) }

// Real makes native runs read real randomness.
var Real bool

func Read(p []byte) (int, error) {
	if Real {
		return real.Read(p)
	}
	n, ok := sym.Draw("b")
	if !ok {
		return 0, errors.New("rand failure")
	}
	for i := range p {
		sym.Drawn(fmt.Sprintf("%s[%d]", n, i), big.NewInt(256))
		p[i] = byte(sym.Value(fmt.Sprintf("%s[%d]", n, i)).Uint64())
	}
	return len(p), nil
}

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n, ok := sym.Draw("")
	if !ok {
		return nil, errors.New("rand failure")
	}
	if max.Cmp(sym.N()) != 0 {
		n += "m" + max.Text(16)
	}
	sym.Drawn(n, max)
	return sym.Value(n), nil
}
