id='p18-boundary'
prop='P18'
needs='the value 0xffff in the five-byte form'
breaks='a non-minimal encoding is accepted'
pkg='wire/'
edits=[('wire/common.go','min := uint64(0x10000)\n','min := uint64(math.MaxUint16)\n')]
test='''
package wire

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if v, err := ReadVarInt(bytes.NewReader([]byte{0xfe, 0xff, 0xff, 0, 0})); err == nil {
		t.Fatal("accepted a non-minimal encoding of", v)
	}
}
'''
