id='p24-hybrid-even'
prop='P24'
needs='a hybrid key with the even format byte and an odd y coordinate'
breaks='hybrid keys are accepted with the wrong parity'
pkg='btcec/'
edits=[('btcec/pubkey.go','format == pubkeyHybrid && ybit != isOdd(pubkey.Y)','format == pubkeyHybrid && ybit && !isOdd(pubkey.Y)')]
test="""
package btcec

import "testing"

func TestZZDemo(t *testing.T) {
	for i := byte(1); i < 30; i++ {
		_, pub := PrivKeyFromBytes(S256(), []byte{i})
		b := pub.SerializeHybrid()
		if _, err := ParsePubKey(b, S256()); err != nil {
			t.Fatal(err)
		}
		b[0] ^= 1
		if _, err := ParsePubKey(b, S256()); err == nil {
			t.Fatal("wrong parity")
		}
	}
}
"""
