id='p20-normalize-mask'
prop='P20'
needs='a value of at least the prime minus a multiple of 2^182 whose eighth word alone is not full'
breaks='Normalize skips one word when it tests for a value at least the prime, and adds 2^32+977 to a smaller one'
edits=[('btcec/field.go','''	if t2&t3&t4&t5&t6&t7&t8 == fieldBaseMask {''','''	if t2&t3&t4&t5&t6&t8 == fieldBaseMask {''')]
pkg='btcec/'
test='''
package btcec

import (
	"math/big"
	"testing"
)

func TestZZDemo(t *testing.T) {
	p, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
	for bit := uint(40); bit < 250; bit++ {
		x := new(big.Int).Sub(p, new(big.Int).Lsh(big.NewInt(1), bit))
		x.Add(x, big.NewInt(5))
		f := new(fieldVal).SetByteSlice(x.Bytes()).Normalize()
		if got := new(big.Int).SetBytes(f.Bytes()[:]); got.Cmp(x) != 0 {
			t.Fatal("bit", bit, got)
		}
		x.Add(p, big.NewInt(int64(bit)))
		f = new(fieldVal).SetByteSlice(x.Bytes()).Normalize()
		if got := new(big.Int).SetBytes(f.Bytes()[:]); got.Cmp(big.NewInt(int64(bit))) != 0 {
			t.Fatal("not reduced", bit, got)
		}
	}
}
'''
