package main

import (
	"fmt"
	"math/big"
)

// Contract "opaque": nonlinear polynomials (modulo the field prime or not) are unconstrained to the
// solver, which sees one variable per such term. A verdict of unsat carries over; sat does not,
// and no counterexample is taken from it.

var opaqueOn bool

// powmods: the exponent and modulus of the exponentiations that stay uninterpreted.
var powmods = map[string][2]*big.Int{}

var opaqueMemo = map[int64]*Term{}

func nonlinear(t *Term) bool {
	switch t.Op {
	case OpPoly:
		for _, m := range t.P {
			if len(m.M) > 1 {
				return true
			}
		}
	case OpIMod, OpIDiv:
		return nonlinear(t.A[0])
	}
	return false
}

func opaqueTerm(t *Term) *Term {
	if r, ok := opaqueMemo[t.id]; ok {
		return r
	}
	var r *Term
	switch {
	case t.Op == OpIMod && nonlinear(t.A[0]) && splitConst(t.A[0]) != nil:
		c := splitConst(t.A[0])
		v := opaqueTerm(IMod(ISub(t.A[0], IntC(c)), t.V))
		r = IMod(IAdd(v, IntC(c)), t.V)
	case t.Op == OpIEq0 && t.A[0].Op == OpPoly && nonlinear(t.A[0]):
		r = Var(fmt.Sprintf("opaque!%d", t.id), Sort{K: KBool})
	case (t.Op == OpIMod || t.Op == OpIDiv) && nonlinear(t.A[0]), t.Op == OpUF && nonlinear(t.A[0]):
		r = IntVar(fmt.Sprintf("opaque!%d", t.id), t.lo, t.hi)
	default:
		r = rebuild(t, opaqueTerm)
	}
	opaqueMemo[t.id] = r
	return r
}

// splitConst returns the constant of a polynomial that has one.
func splitConst(t *Term) *big.Int {
	if t.Op == OpPoly && len(t.P) > 1 {
		for _, m := range t.P {
			if len(m.M) == 0 && m.C.Sign() != 0 {
				return m.C
			}
		}
	}
	return nil
}

func opaqueAll(as []*Term) []*Term {
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = opaqueTerm(a)
	}
	return out
}

func (ex *Exec) guesses() int {
	if opaqueOn {
		return 8
	}
	return 60
}

func validModel(as []*Term, m Model) bool {
	if m == nil {
		return false
	}
	memo := map[int64]*big.Int{}
	for _, t := range as {
		if Eval(t, m, memo).Sign() == 0 {
			return false
		}
	}
	return true
}
