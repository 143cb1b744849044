package zksigma

import (
	"bytes"
	"math/big"
	"verifstub/sym"
)

// vhVar is the format of a length: its value and the bytes it takes, 0 when it is malformed.
func vhVar(b []byte) (uint64, int) {
	if len(b) == 0 {
		return 0, 0
	}
	n := 0
	var lo uint64
	switch b[0] {
	case 0xfd:
		n, lo = 2, 0xfd
	case 0xfe:
		n, lo = 4, 0x10000
	case 0xff:
		n, lo = 8, 0x100000000
	default:
		return uint64(b[0]), 1
	}
	if len(b) < n+1 {
		return 0, 0
	}
	var w uint64
	for i := n; i > 0; i-- {
		w = w<<8 | uint64(b[i])
	}
	if w < lo {
		return 0, 0
	}
	return w, n + 1
}

// vhField skips one length-prefixed field of min to max bytes; ok tells whether it is complete.
func vhField(b []byte, min, max uint64) ([]byte, bool) {
	l, n := vhVar(b)
	if n == 0 || l < min || l > max || l > uint64(len(b)-n) {
		return nil, false
	}
	return b[sym.Conc(n+int(l)):], true
}

// vhFormat: b starts with np points and then ni integers.
func vhFormat(b []byte, np, ni int) ([]byte, bool) {
	ok := true
	for i := 0; i < 2*np; i++ {
		if b, ok = vhField(b, 0, 32); !ok {
			return nil, false
		}
	}
	for i := 0; i < ni; i++ {
		if b, ok = vhField(b, 1, maxBigIntSize); !ok {
			return nil, false
		}
	}
	return b, true
}

func vhDecoded(err error, got bool, want bool, ps []ECPoint, is []*big.Int) {
	if !want {
		sym.Assert(err != nil, "truncated or malformed bytes are decoded without error")
		sym.Assert(!got, "a proof is returned with an error")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && got, "well-formed bytes are refused")
	sym.Assert(complete(ps, is...), "a decoded proof has missing fields")
	sym.Cover("accepted")
}

//verif: prop=P15 ropes=0 merge=0
func V_P15_int() {
	n := sym.Choice("len", 14)
	in := sym.Bytes("in", n)
	rest, ok := vhFormat(in, 0, 1)
	buf := bytes.NewBuffer(in)
	v, err := ReadBigInt(buf)
	vhDecoded(err, v != nil, ok, nil, []*big.Int{v})
	sym.Assert(err != nil || buf.Len() == len(rest), "reading consumes other bytes than the integer")
}

//verif: prop=P15 ropes=0 merge=0
func V_P15_point() {
	n := sym.Choice("len", 12)
	in := sym.Bytes("in", n)
	rest, ok := vhFormat(in, 1, 0)
	buf := bytes.NewBuffer(in)
	v, err := ReadECPoint(buf)
	if !ok {
		sym.Assert(err != nil, "truncated or malformed bytes are decoded without error")
		sym.Cover("refused")
		return
	}
	sym.Assert(err == nil && v.X != nil && v.Y != nil, "well-formed bytes are refused")
	sym.Assert(buf.Len() == len(rest), "reading consumes other bytes than the point")
	sym.Cover("accepted")
}

// Coordinates longer than 32 bytes and integers longer than the limit are refused.
//verif: prop=P15 ropes=0 merge=0
func V_P15_long() {
	in := sym.Bytes("in", 40)
	l := sym.Byte("l")
	sym.Assume(l > 32 && l < 38)
	in[0] = l
	_, err := ReadECPoint(bytes.NewBuffer(in))
	sym.Assert(err != nil, "a coordinate longer than 32 bytes is accepted")
	big := sym.U16("l2")
	sym.Assume(big > maxBigIntSize)
	in[0], in[1], in[2] = 0xfd, byte(big), byte(big>>8)
	v, err := ReadBigInt(bytes.NewBuffer(in))
	sym.Assert(err != nil && v == nil, "an integer longer than the limit is accepted")
	sym.Cover("end")
}

// vhInput: fields of the given kinds (c coordinate, i integer, n the number of range positions)
// where all before a chosen one are well formed with symbolic contents, and what follows is
// arbitrary: up to max bytes, or 10 bytes starting with a multi-byte length.
func vhInput(kinds string, max int) []byte {
	at := sym.Choice("wellformed", len(kinds)+1)
	var b []byte
	for _, k := range kinds[:at] {
		switch k {
		case 'c':
			b = append(append(b, 1), sym.Bytes("c", 1)...)
		case 'i':
			b = append(append(b, 2), sym.Bytes("i", 2)...)
		case 'n':
			b = append(b, 1)
		}
	}
	m := sym.Choice("tail", max+2)
	if m == max+1 {
		t := sym.Bytes("tail", 10)
		sym.Assume(t[0] >= 0xfd)
		return append(b, t...)
	}
	return append(b, sym.Bytes("tail", m)...)
}

func vhP15gspfs(in []byte) {
	_, ok := vhFormat(in, 2, 2)
	p, err := NewGSPFSProofFromBytes(in)
	if p == nil {
		vhDecoded(err, false, ok, nil, nil)
		return
	}
	a, b := vhFGspfs(p)
	vhDecoded(err, true, ok, a, b)
}

//verif: prop=P15 ropes=0 merge=0 cost=2
func V_P15_gspfs() { vhP15gspfs(vhInput("ccccii", 4)) }

//verif: prop=P15 ropes=0 merge=0 cost=2
func V_P15_gspfsAny() { vhP15gspfs(sym.Bytes("in", 7+sym.Choice("len", 3))) }

func vhP15equivalence(in []byte) {
	_, ok := vhFormat(in, 2, 2)
	p, err := NewEquivalenceProofFromBytes(in)
	if p == nil {
		vhDecoded(err, false, ok, nil, nil)
		return
	}
	a, b := vhFEquiv(p)
	vhDecoded(err, true, ok, a, b)
}

//verif: prop=P15 ropes=0 merge=0 cost=2
func V_P15_equivalence() { vhP15equivalence(vhInput("ccccii", 4)) }

//verif: prop=P15 ropes=0 merge=0 cost=2
func V_P15_equivalenceAny() { vhP15equivalence(sym.Bytes("in", 7+sym.Choice("len", 3))) }

func vhP15consistency(in []byte) {
	_, ok := vhFormat(in, 2, 3)
	p, err := NewConsistencyProofFromBytes(in)
	if p == nil {
		vhDecoded(err, false, ok, nil, nil)
		return
	}
	a, b := vhFCons(p)
	vhDecoded(err, true, ok, a, b)
}

//verif: prop=P15 ropes=0 merge=0 cost=2
func V_P15_consistency() { vhP15consistency(vhInput("cccciii", 4)) }

//verif: prop=P15 ropes=0 merge=0 cost=2
func V_P15_consistencyAny() { vhP15consistency(sym.Bytes("in", 9+sym.Choice("len", 3))) }

func vhP15disjunctive(in []byte) {
	_, ok := vhFormat(in, 2, 5)
	p, err := NewDisjunctiveProofFromBytes(in)
	if p == nil {
		vhDecoded(err, false, ok, nil, nil)
		return
	}
	a, b := vhFDisj(p)
	vhDecoded(err, true, ok, a, b)
}

//verif: prop=P15 ropes=0 merge=0 cost=3
func V_P15_disjunctive() { vhP15disjunctive(vhInput("cccciiiii", 4)) }

//verif: prop=P15 ropes=0 merge=0 cost=3 tier=thorough timeout=600
func V_P15_disjunctiveAny() { vhP15disjunctive(sym.Bytes("in", 13+sym.Choice("len", 3))) }

func vhP15abc(in []byte) {
	rest, ok := vhFormat(in, 4, 4)
	if ok {
		rest, ok = vhFormat(rest, 1, 0)
	}
	if ok {
		l, n := vhVar(rest)
		if n == 0 || l > 100000 || l > uint64(len(rest)-n) {
			ok = false
		} else {
			_, ok = vhFormat(rest[n:sym.Conc(n+int(l))], 2, 5)
		}
	}
	p, err := NewABCProofFromBytes(in)
	if p == nil {
		vhDecoded(err, false, ok, nil, nil)
		return
	}
	sym.Assert(!ok || p.disjuncAC != nil, "a decoded proof lacks the embedded proof")
	a, b := vhFABC(p)
	vhDecoded(err, true, ok, a, b)
}

// The fields before the embedded proof.
//verif: prop=P15 ropes=0 merge=0 cost=4
func V_P15_abc() { vhP15abc(vhInput("cccccccciiiicc", 3)) }

// The embedded proof: any length with any contents (well formed up to a chosen field).
//verif: prop=P15 ropes=0 merge=0 cost=4
func V_P15_abcInner() {
	var b []byte
	for _, k := range "cccccccciiiicc" {
		if k == 'c' {
			b = append(append(b, 1), sym.Bytes("c", 1)...)
		} else {
			b = append(append(b, 1), sym.Bytes("i", 1)...)
		}
	}
	in := vhInput("cccciiiii", 2)
	l := sym.Byte("innerlen")
	sym.Assume(int(l) <= len(in)+2 && int(l)+3 >= len(in))
	vhP15abc(append(append(b, l), in...))
}

func vhP15range(in []byte) {
	rest, ok := vhFormat(in, 1, 1)
	k := 0
	if ok {
		l, n := vhVar(rest)
		if n == 0 || l > uint64(len(rest)) {
			ok = false
		} else {
			k = sym.Conc(int(l))
			rest = rest[n:]
			for i := 0; i < k && ok; i++ {
				rest, ok = vhFormat(rest, 1, 1)
			}
		}
	}
	p, err := NewRangeProofFromBytes(in)
	if p == nil {
		vhDecoded(err, false, ok, nil, nil)
		return
	}
	sym.Assert(!ok || len(p.ProofTuples) == k, "a decoded proof has another number of positions")
	a, b := vhFRange(p)
	vhDecoded(err, true, ok, a, b)
}

//verif: prop=P15 ropes=0 merge=0 cost=3
func V_P15_range() { vhP15range(vhInput("ccincci", 4)) }

//verif: prop=P15 ropes=0 merge=0 cost=3
func V_P15_rangeAny() { vhP15range(sym.Bytes("in", 4+sym.Choice("len", 7))) }
