id='p13-sub-from-identity'
prop='P13'
needs='subtracting a point from the identity'
breaks='Sub returns the subtrahend instead of its negative when the minuend is the identity'
edits=[('crypto.go','''		return zkpcp.Neg(p2)
	} else if p2.Equal(Zero)''','''		return p2
	} else if p2.Equal(Zero)''')]
test='''
package zksigma

import "testing"

func TestZZDemo(t *testing.T) {
	d := TestCurve.Sub(Zero, TestCurve.G)
	if s := TestCurve.Add(d, TestCurve.G); !s.Equal(Zero) {
		t.Fatal("(0 - G) + G is", s)
	}
}
'''
