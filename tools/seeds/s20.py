id='p19-split-write'
prop='P19'
needs='a byte string of 256 bytes or more'
breaks='the length prefix is written modulo 65536 for strings above that size'
pkg='wire/'
edits=[('wire/common.go','	slen := uint64(len(bytes))\n','	slen := uint64(uint16(len(bytes)))\n')]
test='''
package wire

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, n := range []int{0, 252, 253, 65535, 65536, 70000} {
		var b bytes.Buffer
		if err := WriteVarBytes(&b, make([]byte, n)); err != nil {
			t.Fatal(err)
		}
		r, err := ReadVarBytes(&b, 1<<20, "x")
		if err != nil || len(r) != n {
			t.Fatal(n, len(r), err)
		}
	}
}
'''
