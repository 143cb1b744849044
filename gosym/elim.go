package main

// Elimination of variables that an equation modulo the group order defines:
// a preprocessing step of every solver call, applied to the whole set of
// assertions (equisatisfiable; models are completed by evaluation).

import "math/big"

type elimDef struct{ v, r *Term }

func occursIn(t, v *Term, memo map[int64]bool) bool {
	if t == v {
		return true
	}
	if t.isConst() || t.Op == OpVar {
		return false
	}
	if x, ok := memo[t.id]; ok {
		return x
	}
	r := false
	for _, a := range t.A {
		r = r || occursIn(a, v, memo)
	}
	if t.Op == OpPoly {
		for _, mo := range t.P {
			for _, a := range mo.M {
				r = r || occursIn(a, v, memo)
			}
		}
	}
	memo[t.id] = r
	return r
}

// defFrom returns a variable defined by the assertion a.
func defFrom(a *Term) (v, r *Term, keep, ok bool) {
	if a.Op != OpIEq0 || !curve.on {
		return
	}
	mt := a.A[0]
	m := curve.N
	var p []Mono
	switch {
	case mt.Op == OpIMod && mt.V.Cmp(m) == 0:
		p = polyOf(mt.A[0])
	case mt.Op == OpPoly: // an exact equation also holds modulo N; it is kept as well
		p = modNF(mt.P, m)
		keep = true
	default:
		return
	}
	m1 := new(big.Int).Sub(m, big1)
	if len(p) > 40 {
		return
	}
	for i, mo := range p {
		if len(mo.M) != 1 || mo.M[0].Op != OpVar {
			continue
		}
		x := mo.M[0]
		if x.lo == nil || x.hi == nil || x.lo.Sign() != 0 || x.hi.Cmp(m1) != 0 {
			continue
		}
		inv := new(big.Int).ModInverse(mo.C, m)
		if inv == nil {
			continue
		}
		acc := newAcc()
		for j, o := range p {
			if j != i {
				acc.add(new(big.Int).Neg(new(big.Int).Mul(o.C, inv)), o.M)
			}
		}
		rest := fromPoly(acc.list())
		if occursIn(rest, x, map[int64]bool{}) {
			continue
		}
		return x, IMod(rest, m), keep, true
	}
	return
}

// eliminate returns an equisatisfiable set of assertions.
func eliminate(as []*Term) ([]*Term, []elimDef) {
	var defs []elimDef
	for round := 0; round < 40; round++ {
		found := -1
		var v, r *Term
		keep := false
		for i, a := range as {
			if x, y, k, ok := defFrom(a); ok {
				found, v, r, keep = i, x, y, k
				break
			}
		}
		if found < 0 {
			break
		}
		memo := map[int64]*Term{}
		var out []*Term
		for i, a := range as {
			if i != found || keep {
				out = append(out, substAtom(a, v, r, memo))
			}
		}
		defs = append(defs, elimDef{v, r})
		f := And(out...)
		if f.Op == OpAnd {
			as = f.A
		} else {
			as = []*Term{f}
		}
		if f.isConst() {
			break
		}
	}
	return as, defs
}

// completeModel adds the eliminated variables.
func completeModel(m Model, defs []elimDef) {
	if m == nil {
		return
	}
	for i := len(defs) - 1; i >= 0; i-- {
		m[defs[i].v.N] = Eval(defs[i].r, m, map[int64]*big.Int{})
	}
}
