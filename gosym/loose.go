package main

// The loose oracle (directive hash=loose). A hash answer is a variable chosen by
// the normal form of the query: queries with one normal form share the answer;
// different normal forms get unrelated answers, which over-approximates a
// function. Before a model counts as a counterexample, every pair of queries it
// makes equal with different answers is constrained and the question is asked
// again.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

type looseQ struct {
	o    string
	segs []Seg
	d    *Term
}

const looseRounds = 25

func (ex *Exec) deepSimp(st *State, t *Term, memo map[int64]*Term) *Term {
	if t.isConst() || t.Op == OpVar && t.S.K != KBool {
		return t
	}
	if v, ok := st.facts[t.id]; ok {
		return Bool(v)
	}
	if x, ok := memo[t.id]; ok {
		return x
	}
	x := rebuild(t, func(a *Term) *Term { return ex.deepSimp(st, a, memo) })
	if x != t {
		if v, ok := st.facts[x.id]; ok {
			x = Bool(v)
		}
	}
	memo[t.id] = x
	return x
}

// firstIte finds a condition some ITE inside t depends on.
func firstIte(t *Term, memo map[int64]bool) *Term {
	if t.isConst() || memo[t.id] {
		return nil
	}
	memo[t.id] = true
	for _, a := range t.A {
		if c := firstIte(a, memo); c != nil {
			return c
		}
	}
	for _, m := range t.P {
		for _, a := range m.M {
			if c := firstIte(a, memo); c != nil {
				return c
			}
		}
	}
	if t.Op == OpIte {
		return t.A[0]
	}
	return nil
}

func fpEqual(a, b *Term) bool {
	if a == b {
		return true
	}
	for k := 0; k < fpRuns; k++ {
		if fpVal(a, k).Cmp(fpVal(b, k)) != 0 {
			return false
		}
	}
	return true
}

func segTerms(segs []Seg) []*Term {
	var r []*Term
	for _, s := range segs {
		if s.I != nil {
			r = append(r, s.I)
		} else {
			r = append(r, s.B...)
		}
	}
	return r
}

func (ex *Exec) looseOracle(st *State, segs []Seg) *Term {
	o := st.oracleID()
	memo := map[int64]*Term{}
	simp := func() {
		n := make([]Seg, len(segs))
		for i, s := range segs {
			if s.I != nil {
				s.I = ex.deepSimp(st, s.I, memo)
			} else {
				b := make([]*Term, len(s.B))
				for j, t := range s.B {
					b[j] = ex.deepSimp(st, t, memo)
				}
				s.B = b
			}
			n[i] = s
		}
		segs = n
	}
	simp()
	if len(segs) <= 4 {
		for {
			var c *Term
			seen := map[int64]bool{}
			for _, t := range segTerms(segs) {
				if c = firstIte(t, seen); c != nil {
					break
				}
			}
			if c == nil {
				break
			}
			ex.decide(st, c)
			memo = map[int64]*Term{}
			simp()
		}
	}
	qs := segTerms(segs)
next:
	for _, q := range ex.looseTab {
		if q.o != o || !sameShape(q.segs, segs) {
			continue
		}
		ts := segTerms(q.segs)
		if len(ts) != len(qs) {
			continue
		}
		for i := range ts {
			if !fpEqual(ts[i], qs[i]) {
				continue next
			}
		}
		for i := range ts {
			if ts[i] == qs[i] {
				continue
			}
			var e *Term
			if qs[i].S.K == KInt {
				e = IEq(ts[i], qs[i])
			} else {
				e = Eq(ts[i], qs[i])
			}
			if e != TTrue {
				continue next
			}
		}
		return q.d
	}
	d := ex.answerVar(fmt.Sprintf("hash!%s!L%d", o, len(ex.looseTab)))
	ex.looseTab = append(ex.looseTab, looseQ{o, segs, d})
	return d
}

// solveOracle is Solve for questions whose models become counterexamples.
func (ex *Exec) solveOracle(as []*Term, timeout time.Duration, names ...string) (Result, Model, string) {
	if !ex.loose {
		return Solve(as, timeout, true, names...)
	}
	if m := ex.guessModel(as, 400); m != nil {
		return Sat, m, "guess"
	}
	for round := 0; round < looseRounds; round++ {
		r, m, s := Solve(append(append([]*Term{}, as...), ex.looseLemmas...), timeout, true, names...)
		if r != Sat || m == nil {
			return r, m, s
		}
		if !ex.looseConflicts(m) {
			return r, m, s
		}
	}
	return Unknown, nil, "loose"
}

func (ex *Exec) looseConflicts(m Model) bool {
	memo := map[int64]*big.Int{}
	type val struct {
		i int
		d *big.Int
	}
	seen := map[string]val{}
	found := false
	for i, q := range ex.looseTab {
		b := evalSegs(q.segs, m)
		k := q.o + "|" + string(b)
		d := Eval(q.d, m, memo)
		if len(b) == 0 && d.Cmp(emptyDigest) != 0 {
			found = true
			var empty []*Term
			for _, t := range segTerms(q.segs) {
				empty = append(empty, ieq0(t))
			}
			ex.looseLemmas = append(ex.looseLemmas, Implies(And(empty...), IEq(q.d, IntC(emptyDigest))))
			continue
		}
		p, ok := seen[k]
		if !ok {
			seen[k] = val{i, d}
			continue
		}
		if p.d.Cmp(d) != 0 {
			found = true
			ex.looseLemmas = append(ex.looseLemmas, Implies(segsEq(ex.looseTab[p.i].segs, q.segs), IEq(ex.looseTab[p.i].d, q.d)))
		}
	}
	return found
}

func (ex *Exec) looseLog(m Model) []OracleEntry {
	var out []OracleEntry
	for _, q := range ex.looseTab {
		out = append(out, OracleEntry{ID: strings.TrimPrefix(q.o, "q:"), Query: fmt.Sprintf("%x", evalSegs(q.segs, m)), Digest: Eval(q.d, m, map[int64]*big.Int{}).String()})
	}
	return out
}

// guessModel looks for a model of as among pseudo-random assignments whose hash
// answers are consistent (queries are answered in the order they were asked, so
// that an answer only depends on earlier ones). It only ever finds models; that
// there is none is for the solver to say.
func (ex *Exec) guessModel(as []*Term, tries int) Model {
	vars := map[string]*Term{}
	seen := map[int64]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == OpVar {
			vars[t.N] = t
		}
		for _, a := range t.A {
			walk(a)
		}
		for _, m := range t.P {
			for _, a := range m.M {
				walk(a)
			}
		}
	}
	for _, a := range as {
		walk(a)
	}
	for _, q := range ex.looseTab {
		walk(q.d)
		for _, t := range segTerms(q.segs) {
			walk(t)
		}
	}
	fixed := Model{}
	for _, a := range as {
		switch {
		case a.Op == OpEq && a.A[0].Op == OpVar && a.A[1].isConst():
			fixed[a.A[0].N] = a.A[1].V
		case a.Op == OpEq && a.A[1].Op == OpVar && a.A[0].isConst():
			fixed[a.A[1].N] = a.A[0].V
		case a.Op == OpIEq0 && a.A[0].Op == OpVar:
			fixed[a.A[0].N] = big0
		}
	}
	hints := ex.modelHints(as)
	reps := repairs(as)
	for k := 0; k < tries+10*len(hints); k++ {
		var hint Model
		if k >= tries {
			hint = hints[(k-tries)/10]
		}
		m := Model{}
		for n, t := range vars {
			if v, ok := fixed[n]; ok {
				m[n] = v
				continue
			}
			if v, ok := hint[n]; ok {
				m[n] = v
				continue
			}
			v := fpVar(t, int64(k))
			switch h := fpVar(Var(n+"!edge", SBV(8)), int64(k)).Int64(); {
			case k%4 == 1 && h < 80, k%4 == 2 && h < 200, k%4 == 3 && h < 250:
				if t.lo != nil && t.S.K == KInt {
					v = new(big.Int).Set(t.lo)
					if h%8 == 1 && t.hi != nil {
						v.Set(t.hi)
					}
				} else if t.S.K != KInt {
					v = big.NewInt(0)
				}
			}
			m[n] = v
		}
		if k%2 == 0 {
			applyRepairs(reps, m)
			applyRepairs(reps, m)
		}
		ok := true
		ans := map[string]*Term{}
		memo := map[int64]*big.Int{}
		for _, q := range ex.looseTab {
			b := evalSegs(q.segs, m)
			key := q.o + "|" + string(b)
			if len(b) == 0 && !emptyAnswer(m, q.d) {
				ok = false
				break
			}
			if p, dup := ans[key]; dup {
				// copy the answer: both digests are c + N*q (or one variable)
				if !copyAnswer(m, p, q.d) {
					ok = false
					break
				}
			} else {
				ans[key] = q.d
			}
		}
		if !ok {
			continue
		}
		memo = map[int64]*big.Int{}
		for _, t := range as {
			if Eval(t, m, memo).Sign() == 0 {
				ok = false
				break
			}
		}
		if ok && !ex.looseConflicts(m) {
			return m
		}
	}
	return nil
}

func copyAnswer(m Model, from, to *Term) bool {
	fv, tv := termVars(from), termVars(to)
	if len(fv) != len(tv) {
		return false
	}
	for i := range fv {
		m[tv[i].N] = m[fv[i].N]
	}
	return true
}

// termVars lists the variables of a digest term by their suffix.
func termVars(t *Term) []*Term {
	var r []*Term
	if t.Op == OpVar {
		return []*Term{t}
	}
	for _, mo := range t.P {
		r = append(r, mo.M...)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].N[strings.LastIndex(r[i].N, "."):] < r[j].N[strings.LastIndex(r[j].N, "."):] })
	return r
}

// modelHints solves the small conditions inside as, both ways.
func (ex *Exec) modelHints(as []*Term) []Model {
	var out []Model
	seen := map[int64]bool{}
	n := 0
	var walk func(t *Term)
	size := func(t *Term) int {
		s := map[int64]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if s[t.id] || len(s) > 200 {
				return
			}
			s[t.id] = true
			for _, a := range t.A {
				w(a)
			}
			for _, m := range t.P {
				for _, a := range m.M {
					w(a)
				}
			}
		}
		w(t)
		return len(s)
	}
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.S.K == KBool && t.Op != OpAnd && t.Op != OpOr && t.Op != OpNot && t.Op != OpVar && t.Op != OpConst {
			if z := size(t); z > 6 && z <= 200 && n < 24 {
				n++
				for _, c := range []*Term{t, Not(t)} {
					if r, m, _ := Solve([]*Term{c}, time.Second, true); r == Sat && m != nil {
						out = append(out, m)
					}
				}
			}
		}
		for _, a := range t.A {
			walk(a)
		}
		for _, m := range t.P {
			for _, a := range m.M {
				walk(a)
			}
		}
	}
	for _, a := range as {
		walk(a)
	}
	return out
}

// repair solves one asserted equation for a variable that occurs linearly in it.
type repair struct {
	v   *Term
	inv *big.Int // -1/coefficient mod N
	p   *Term    // the equation's polynomial
}

func repairs(as []*Term) []repair {
	var eqs []*Term
	var conj func(t *Term)
	conj = func(t *Term) {
		switch {
		case t.Op == OpAnd:
			for _, a := range t.A {
				conj(a)
			}
		case t.Op == OpIEq0:
			if _, _, _, ok := pxEq(t); !ok {
				eqs = append(eqs, t)
			}
		}
	}
	for _, a := range as {
		conj(a)
	}
	taken := map[string]bool{}
	var r []repair
	for _, e := range eqs {
		p := e.A[0]
		if p.Op == OpIMod {
			p = p.A[0]
		}
		ms := polyOf(p)
		var best *Mono
		for i := range ms {
			m := &ms[i]
			if len(m.M) != 1 || m.M[0].Op != OpVar || taken[m.M[0].N] {
				continue
			}
			v := m.M[0]
			if v.lo == nil || v.hi == nil || v.hi.Cmp(curve.N) >= 0 || v.lo.Sign() < 0 {
				continue
			}
			if new(big.Int).ModInverse(new(big.Int).Mod(m.C, curve.N), curve.N) == nil {
				continue
			}
			n := 0
			for j := range ms {
				for _, a := range ms[j].M {
					if mentions(a, v, map[int64]bool{}) {
						n++
					}
				}
			}
			if n == 1 && (best == nil || strings.HasPrefix(v.N, "hash!")) {
				best = m
			}
		}
		if best == nil {
			continue
		}
		taken[best.M[0].N] = true
		inv := new(big.Int).ModInverse(new(big.Int).Mod(best.C, curve.N), curve.N)
		r = append(r, repair{best.M[0], inv.Sub(curve.N, inv), p})
	}
	return r
}

func mentions(t, v *Term, seen map[int64]bool) bool {
	if t == v {
		return true
	}
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	for _, a := range t.A {
		if mentions(a, v, seen) {
			return true
		}
	}
	for _, m := range t.P {
		for _, a := range m.M {
			if mentions(a, v, seen) {
				return true
			}
		}
	}
	return false
}

func applyRepairs(rs []repair, m Model) {
	for _, r := range rs {
		m[r.v.N] = big.NewInt(0)
		x := Eval(r.p, m, map[int64]*big.Int{})
		x = new(big.Int).Mul(x, r.inv)
		m[r.v.N] = x.Mod(x, curve.N)
	}
}

// emptyAnswer gives the digest of the empty string to the answer d.
func emptyAnswer(m Model, d *Term) bool {
	vs := termVars(d)
	if len(vs) == 1 {
		m[vs[0].N] = emptyDigest
		return true
	}
	if len(vs) != 2 {
		return false
	}
	q, c := new(big.Int).DivMod(emptyDigest, curve.N, new(big.Int))
	m[vs[0].N], m[vs[1].N] = c, q
	return vs[1].hi == nil || q.Cmp(vs[1].hi) <= 0
}
