package btcec

import (
	"bytes"
	"math/big"
	"verifstub/sym"
)

// vhSigFormat is the format of a signature: 0x30 len 0x02 rlen r 0x02 slen s, nothing left over
// inside len. It returns the parts, or false.
func vhSigFormat(b []byte, der bool) (r, s, all []byte, ok bool) {
	if len(b) < 8 || b[0] != 0x30 {
		return
	}
	if int(b[1])+2 > len(b) || b[1] < 6 {
		return
	}
	n := sym.Conc(int(b[1])) + 2
	all = b[:n]
	r, rest, ok := vhDerInt(all[2:], der)
	if !ok {
		return
	}
	s, rest, ok = vhDerInt(rest, der)
	if !ok || len(rest) != 0 {
		return nil, nil, nil, false
	}
	return
}

func vhDerInt(b []byte, der bool) (v, rest []byte, ok bool) {
	if len(b) < 3 || b[0] != 2 {
		return nil, nil, false
	}
	if b[1] == 0 || int(b[1]) > len(b)-2 {
		return nil, nil, false
	}
	n := sym.Conc(int(b[1]))
	v = b[2 : 2+n]
	if der && (v[0] >= 0x80 || n > 1 && v[0] == 0 && v[1] < 0x80) {
		return nil, nil, false
	}
	return v, b[2+n:], true
}

func vhParse(b []byte, der bool) (*Signature, error) {
	if der {
		return ParseDERSignature(b, S256())
	}
	return ParseSignature(b, S256())
}

// vhParseAny: the parser accepts exactly the well-formed signatures in range and returns their values.
func vhParseAny(b []byte, der bool) {
	was := append([]byte{}, b...)
	sig, err := vhParse(b, der)
	r, s, _, ok := vhSigFormat(was, der)
	one := big.NewInt(1)
	var rv, sv *big.Int
	if ok {
		rv, sv = new(big.Int).SetBytes(r), new(big.Int).SetBytes(s)
		ok = sym.And(sym.And(rv.Cmp(one) >= 0, sv.Cmp(one) >= 0), sym.And(sym.Lt(rv, vhN), sym.Lt(sv, vhN)))
	}
	if err == nil {
		sym.Assert(ok, "a malformed signature is accepted")
		if ok {
			sym.Assert(sym.And(sym.Eq(sig.R, rv), sym.Eq(sig.S, sv)), "the parsed values are not the encoded ones")
			sym.Cover("accepted")
		}
	} else {
		sym.Assert(!ok, "a well-formed signature is rejected")
		sym.Assert(sig == nil, "a signature is returned with an error")
		sym.Cover("rejected")
	}
	sym.Assert(bytes.Equal(b, was), "the input changed")
}

// Arbitrary short inputs.
//verif: prop=P25 contracts=tables merge=0
func V_P25_shortBER() { vhParseAny(sym.Bytes("b", sym.Choice("n", 11)), false) }

//verif: prop=P25 contracts=tables merge=0
func V_P25_shortDER() { vhParseAny(sym.Bytes("b", sym.Choice("n", 11)), true) }

//verif: prop=P25 contracts=tables merge=0 tier=thorough ttimeout=600
func V_P25_mediumBER() { vhParseAny(sym.Bytes("b", 11+sym.Choice("n", 4)), false) }

//verif: prop=P25 contracts=tables merge=0 tier=thorough ttimeout=600
func V_P25_mediumDER() { vhParseAny(sym.Bytes("b", 11+sym.Choice("n", 4)), true) }

// vhNear is a byte near n or far from it.
func vhNear(name string, n int) byte {
	return byte([...]int{n - 1, n, n + 1, 0, 1, 127, 128, 254, 255}[sym.Choice(name, 9)])
}

// Inputs of the lengths of real signatures: the lengths inside are consistent or nearly so, all
// other bytes are arbitrary.
func vhParseLong(n int, der bool, lens ...int) {
	b := sym.Bytes("b", n)
	b[1] = vhNear("len", n-2)
	rl := lens[sym.Choice("rl", len(lens))]
	b[3] = byte(rl)
	if i := 5 + rl; i < n {
		b[i] = vhNear("slen", int(b[1])+2-i-1)
	}
	vhParseAny(b, der)
}

//verif: prop=P25 contracts=tables merge=0
func V_P25_longDER() { vhParseLong(70+sym.Choice("n", 3), true, 32, 33, 66, 67) }

//verif: prop=P25 contracts=tables merge=0
func V_P25_longBER() { vhParseLong(70+sym.Choice("n", 3), false, 32, 33, 66, 67) }

// Lengths at which a length byte wraps around.
//verif: prop=P25 contracts=tables merge=0
func V_P25_wrap() {
	n := [...]int{127, 128, 130, 255, 256, 257, 258, 259}[sym.Choice("n", 8)]
	vhParseLong(n, false, 1, 33, 121, 250, 253, 255)
}


func vhRoundTrip(rl, sl int, high bool) {
	r, low := vhOfLen("r", rl), vhOfLen("s", sl)
	sym.Assume(sym.Lt(low, new(big.Int).Rsh(new(big.Int).Add(vhN, big.NewInt(1)), 1)))
	s := low
	if high {
		s = new(big.Int).Sub(vhN, low)
	}
	sig := &Signature{R: new(big.Int).Set(r), S: new(big.Int).Set(s)}
	b := sig.Serialize()
	sym.Assert(sym.And(sym.Eq(sig.R, r), sym.Eq(sig.S, s)), "serialising changed the signature")
	sym.Assert(len(b) <= 72, "the encoding is longer than 72 bytes")
	extra := sym.Choice("extra", 2)
	for i := 0; i < 2; i++ {
		got, err := vhParse(append(append([]byte{}, b...), make([]byte, extra)...), i == 1)
		sym.Assert(err == nil, "a serialised signature does not parse")
		if err == nil {
			sym.Assert(sym.And(sym.Eq(got.R, r), sym.Eq(got.S, low)), "a serialised signature parses to another")
			sym.Assert(got.IsEqual(&Signature{R: r, S: low}), "equal signatures compare unequal")
			if i == 1 {
				sym.Assert(bytes.Equal(got.Serialize(), b), "the strict encoding is not unique")
			}
		}
	}
	sym.Cover("end")
}

// Any r, and s of the usual and the extreme lengths.
//verif: prop=P25 contracts=tables merge=0
func V_P25_roundTripR() {
	vhRoundTrip(1+sym.Choice("rl", 32), [...]int{1, 31, 32}[sym.Choice("sl", 3)], false)
}

// Any s, and r of the usual and the extreme lengths.
//verif: prop=P25 contracts=tables merge=0
func V_P25_roundTripS() {
	vhRoundTrip([...]int{1, 31, 32}[sym.Choice("rl", 3)], 1+sym.Choice("sl", 32), false)
}

// Any s that is not low.
//verif: prop=P25 contracts=tables merge=0
func V_P25_roundTripHigh() {
	vhRoundTrip([...]int{1, 32}[sym.Choice("rl", 2)], 1+sym.Choice("sl", 32), true)
}

// Whatever the strict parser accepts is the encoding of the signature it returns.
//verif: prop=P25 contracts=tables merge=0
func V_P25_unique() {
	n := [...]int{8, 9, 10, 70, 71, 72}[sym.Choice("n", 6)]
	b := sym.Bytes("b", n)
	b[1] = byte(n - 2)
	if n > 10 {
		b[3] = byte(31 + sym.Choice("rl", 3))
		b[5+b[3]] = byte(n-2) - 4 - b[3]
	}
	sig, err := ParseDERSignature(b, S256())
	if err == nil && sig.S.Cmp(new(big.Int).Rsh(vhN, 1)) <= 0 {
		sym.Assert(bytes.Equal(sig.Serialize(), b), "the strict parser accepts another encoding")
		sym.Cover("accepted")
	}
}
