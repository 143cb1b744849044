package wire

import (
	"errors"
	"bytes"
	"verifstub/sym"
)

func vhLess(a, b uint64) bool { return a < b }

// Every 64-bit value round-trips, in the minimal form and with the predicted size, and the stream
// is left at the following byte.
//verif: prop=P18 ropes=0
func V_P18_roundtrip() {
	v := sym.U64("v")
	nxt := sym.Byte("next")
	var b bytes.Buffer
	if WriteVarInt(&b, v) != nil {
		sym.Assert(false, "writing a variable-length integer failed")
	}
	n := b.Len()
	b.WriteByte(nxt)
	sym.Assert(VarIntSerializeSize(v) == n, "predicted size differs from the written size")
	sym.Assert(n == 1 || n == 3 || n == 5 || n == 9, "unexpected encoding length")
	sym.Assert((n == 1) == vhLess(v, 0xfd), "value below 0xfd is not a single byte")
	sym.Assert((n == 3) == (v >= 0xfd && v <= 0xffff), "16-bit form not used exactly for 16-bit values")
	sym.Assert((n == 5) == (v > 0xffff && v <= 0xffffffff), "32-bit form not used exactly for 32-bit values")
	e := b.Bytes()
	d := e[0]
	var w uint64
	for i := n - 1; i > 0; i-- {
		w = w<<8 | uint64(e[i])
	}
	if n == 1 {
		w = uint64(d)
	}
	sym.Assert(w == v, "payload is not the little-endian value")
	sym.Assert(n == 1 || n == 3 && d == 0xfd || n == 5 && d == 0xfe || n == 9 && d == 0xff, "wrong discriminant")
	r, err := ReadVarInt(&b)
	sym.Assert(err == nil && r == v, "value is not read back")
	c, err := b.ReadByte()
	sym.Assert(err == nil && c == nxt && b.Len() == 0, "stream is not left at the following byte")
	sym.Cover("end")
}

// vhCanon is the format: the value and length of the canonical encoding at the start of b.
func vhCanon(b []byte) (uint64, int) {
	if len(b) == 0 {
		return 0, 0
	}
	n := 0
	var lo uint64
	switch b[0] {
	case 0xfd:
		n, lo = 2, 0xfd
	case 0xfe:
		n, lo = 4, 0x10000
	case 0xff:
		n, lo = 8, 0x100000000
	default:
		return uint64(b[0]), 1
	}
	if len(b) < n+1 {
		return 0, 0
	}
	var w uint64
	for i := n; i > 0; i-- {
		w = w<<8 | uint64(b[i])
	}
	if w < lo {
		return 0, 0
	}
	return w, n + 1
}

// Every byte string of up to 10 bytes is read as the canonical value at its start, or refused;
// what is accepted is written back as the same bytes.
//verif: prop=P18 ropes=0
func V_P18_parse() {
	n := sym.Choice("len", 11)
	in := sym.Bytes("in", n)
	want, used := vhCanon(in)
	rd := bytes.NewReader(in)
	got, err := ReadVarInt(rd)
	if used == 0 {
		sym.Assert(err != nil, "a truncated or non-minimal encoding is accepted")
		sym.Assert(got == 0, "a value is returned with an error")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && got == want, "a canonical encoding is not read as its value")
	sym.Assert(rd.Len() == n-used, "reading consumes other bytes than the encoding")
	var b bytes.Buffer
	sym.Assert(WriteVarInt(&b, got) == nil && b.Len() == used && bytes.Equal(b.Bytes(), in[:used]), "accepted encoding is not what is written for its value")
	sym.Cover("accepted")
}

type vhShort struct{ left int }

func (w *vhShort) Write(p []byte) (int, error) {
	if len(p) > w.left {
		return 0, errVh
	}
	w.left -= len(p)
	return len(p), nil
}

type vhErr struct{}

func (vhErr) Error() string { return "vh" }

var errVh error = vhErr{}

// A failing writer is reported.
//verif: prop=P18 ropes=0
func V_P18_writer() {
	v := sym.U64("v")
	cap := sym.Choice("cap", 10)
	w := &vhShort{cap}
	err := WriteVarInt(w, v)
	sym.Assert((err == nil) == (VarIntSerializeSize(v) <= cap), "a failing write is not reported, or a fitting one is")
	sym.Cover("end")
}

// Byte strings round-trip and leave the stream at the following byte.
//verif: prop=P19 ropes=0
func V_P19_roundtrip() {
	k := sym.Choice("len", 10)
	n := k
	if k >= 6 {
		n = 252 + k - 6
	}
	in := sym.Bytes("in", n)
	nxt := sym.Byte("next")
	var b bytes.Buffer
	sym.Assert(WriteVarBytes(&b, in) == nil, "writing a byte string failed")
	sym.Assert(b.Len() == VarIntSerializeSize(uint64(n))+n, "unexpected encoded size")
	b.WriteByte(nxt)
	out, err := ReadVarBytes(&b, uint32(n)+sym.U32("slack")%1000, "f")
	sym.Assert(err == nil && len(out) == n && bytes.Equal(in, out), "byte string is not read back")
	c, err := b.ReadByte()
	sym.Assert(err == nil && c == nxt && b.Len() == 0, "stream is not left at the following byte")
	sym.Cover("end")
}

// Byte strings around the boundaries of the length's encoding: first, last and middle bytes symbolic.
//verif: prop=P19 ropes=0 cost=3
func V_P19_long() {
	n := []int{252, 253, 256, 65534, 65535, 65536, 65537, 70000}[sym.Choice("len", 8)]
	in := make([]byte, n)
	in[0], in[n/2], in[n-1] = sym.Byte("a"), sym.Byte("b"), sym.Byte("c")
	nxt := sym.Byte("next")
	var b bytes.Buffer
	sym.Assert(WriteVarBytes(&b, in) == nil, "writing a byte string failed")
	sym.Assert(b.Len() == VarIntSerializeSize(uint64(n))+n, "unexpected encoded size")
	b.WriteByte(nxt)
	out, err := ReadVarBytes(&b, uint32(n), "f")
	sym.Assert(err == nil && len(out) == n && bytes.Equal(in, out), "byte string is not read back")
	c, err := b.ReadByte()
	sym.Assert(err == nil && c == nxt && b.Len() == 0, "stream is not left at the following byte")
	sym.Cover("end")
}

// The limit is honoured before anything is allocated, for every declared length.
//verif: prop=P19 ropes=0
func V_P19_limit() {
	max := sym.U32("max")
	sym.Assume(max <= 6)
	n := sym.Choice("len", 12)
	in := sym.Bytes("in", n)
	want, used := vhCanon(in)
	rd := bytes.NewReader(in)
	out, err := ReadVarBytes(rd, max, "f")
	if used == 0 || want > uint64(max) || uint64(n-used) < want {
		sym.Assert(err != nil, "an over-long or truncated byte string is accepted")
		sym.Assert(out == nil, "bytes are returned with an error")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && uint64(len(out)) == want && bytes.Equal(out, in[used:used+int(want)]), "an acceptable byte string is not returned")
	sym.Assert(uint64(rd.Len()) == uint64(n-used)-want, "reading consumes other bytes than the string")
	sym.Cover("accepted")
}

// Declared lengths above the limit are refused whatever the limit (no allocation happens: the
// executor refuses to allocate a symbolic length).
//verif: prop=P19 ropes=0
func V_P19_huge() {
	max := sym.U32("max")
	v := sym.U64("v")
	sym.Assume(v > uint64(max))
	var b bytes.Buffer
	WriteVarInt(&b, v)
	b.Write(sym.Bytes("tail", 3))
	out, err := ReadVarBytes(&b, max, "f")
	sym.Assert(err != nil && out == nil, "a declared length above the limit is accepted")
	sym.Cover("end")
}

// A failing writer is reported.
//verif: prop=P19 ropes=0
func V_P19_writer() {
	n := sym.Choice("len", 4)
	cap := sym.Choice("cap", 6)
	w := &vhShort{cap}
	err := WriteVarBytes(w, sym.Bytes("in", n))
	sym.Assert((err == nil) == (1+n <= cap), "a failing write is not reported, or a fitting one is")
	sym.Cover("end")
}

// Concurrent use of the shared buffers neither races nor mixes values.
//verif: prop=P18 ropes=0 race=1 sched=all
func V_P18_concurrent() {
	v := sym.U64("v")
	w := sym.U64("w")
	sym.Assume(v >= 0xfd && w >= 0xfd)
	var a, b bytes.Buffer
	done := make(chan uint64, 1)
	go func() {
		WriteVarInt(&a, v)
		r, err := ReadVarInt(&a)
		if err != nil {
			r = ^v
		}
		done <- r
	}()
	WriteVarInt(&b, w)
	r, err := ReadVarInt(&b)
	sym.Assert(err == nil && r == w, "concurrent use changes a value")
	sym.Assert(<-done == v, "concurrent use changes a value in the other goroutine")
	sym.Cover("end")
}

type vhFail struct {
	n    int // bytes delivered before the failure
	step int // bytes per call
	fail bool
}

func (f *vhFail) Read(p []byte) (int, error) {
	if f.n == 0 {
		f.fail = true
		return 0, errors.New("no randomness")
	}
	k := f.step
	if k > len(p) {
		k = len(p)
	}
	if k > f.n {
		k = f.n
	}
	for i := 0; i < k; i++ {
		p[i] = sym.Byte("r")
	}
	f.n -= k
	return k, nil
}

// Random numbers: a source that fails at once, or after any number of bytes.
//verif: prop=P28
func V_P28_wire() {
	sym.RandFaults(true)
	v, err := RandomUint64()
	if sym.FaultHappened() {
		sym.Assert(err != nil, "a randomness failure is not reported")
		sym.Assert(v == 0, "a number is returned although randomness failed")
		sym.Cover("fault")
	} else {
		sym.Assert(err == nil, "an error is reported although randomness was available")
		sym.Cover("no fault")
	}
	f := &vhFail{n: sym.Choice("n", 12), step: 1 + sym.Choice("step", 8)}
	n := f.n
	v, err = randomUint64(f)
	if n < 8 {
		sym.Assert(err != nil && v == 0, "a short read of randomness is not reported")
	} else {
		sym.Assert(err == nil, "an error is reported although randomness was available")
	}
}
