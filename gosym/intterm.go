package main

// Integer terms: polynomial normal form, modular reduction, intervals.

import (
	"fmt"
	"math/big"
	"sort"
)

// Abstract curve parameters (set by the run configuration).
var curve struct {
	on   bool
	N, P *big.Int
	X, Y []*big.Int // toy tables indexed by dlog (index 0 = identity = (0,0)); nil in real mode
	idxX map[string][]int64
}

const polyCap = 6000

func monoKey(m []*Term) string { return ids(m) }

func polyOf(t *Term) []Mono {
	switch t.Op {
	case OpConst:
		if t.V.Sign() == 0 {
			return nil
		}
		return []Mono{{C: t.V}}
	case OpPoly:
		return t.P
	}
	return []Mono{{C: big1, M: []*Term{t}}}
}

type polyAcc struct {
	m map[string]*Mono
}

func newAcc() *polyAcc { return &polyAcc{m: map[string]*Mono{}} }
func (p *polyAcc) add(c *big.Int, m []*Term) {
	if c.Sign() == 0 {
		return
	}
	k := monoKey(m)
	if e, ok := p.m[k]; ok {
		e.C = new(big.Int).Add(e.C, c)
		if e.C.Sign() == 0 {
			delete(p.m, k)
		}
		return
	}
	p.m[k] = &Mono{C: new(big.Int).Set(c), M: m}
}
func (p *polyAcc) addPoly(q []Mono, scale *big.Int) {
	for _, m := range q {
		p.add(new(big.Int).Mul(m.C, scale), m.M)
	}
}
func lessMono(a, b []*Term) bool { // degree, then ids
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}
func (p *polyAcc) list() []Mono {
	out := make([]Mono, 0, len(p.m))
	for _, m := range p.m {
		out = append(out, *m)
	}
	sort.Slice(out, func(i, j int) bool { return lessMono(out[i].M, out[j].M) })
	return out
}
func mergeAtoms(a, b []*Term) []*Term {
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i].id <= b[j].id) {
			out = append(out, a[i])
			i++
		} else {
			out = append(out, b[j])
			j++
		}
	}
	return out
}
func mulP(a, b []Mono) ([]Mono, bool) {
	if len(a)*len(b) > polyCap*4 {
		return nil, false
	}
	acc := newAcc()
	for _, x := range a {
		for _, y := range b {
			acc.add(new(big.Int).Mul(x.C, y.C), mergeAtoms(x.M, y.M))
		}
	}
	if len(acc.m) > polyCap {
		return nil, false
	}
	return acc.list(), true
}

func fromPoly(p []Mono) *Term {
	if len(p) == 0 {
		return IntI(0)
	}
	if len(p) == 1 {
		if len(p[0].M) == 0 {
			return IntC(p[0].C)
		}
		if len(p[0].M) == 1 && p[0].C.Cmp(big1) == 0 {
			return p[0].M[0]
		}
	}
	return mk(Term{Op: OpPoly, S: SInt, P: p})
}

func IAdd(a, b *Term) *Term {
	acc := newAcc()
	acc.addPoly(polyOf(a), big1)
	acc.addPoly(polyOf(b), big1)
	return fromPoly(acc.list())
}
func ISub(a, b *Term) *Term {
	acc := newAcc()
	acc.addPoly(polyOf(a), big1)
	acc.addPoly(polyOf(b), big.NewInt(-1))
	return fromPoly(acc.list())
}
func INeg(a *Term) *Term { return ISub(IntI(0), a) }
func IMul(a, b *Term) *Term {
	// distribute over constant-branch ite: helps keep linear forms
	r, ok := mulP(polyOf(a), polyOf(b))
	if !ok {
		// keep factors opaque
		return mk(Term{Op: OpPoly, S: SInt, P: []Mono{{C: big1, M: mergeAtoms([]*Term{opaque(a)}, []*Term{opaque(b)})}}})
	}
	return fromPoly(r)
}

// opaque wraps a polynomial as an atom (used when expansion would explode).
func opaque(t *Term) *Term {
	if t.Op != OpPoly {
		return t
	}
	return mk(Term{Op: OpIDiv, S: SInt, A: []*Term{t}, V: big1})
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (t *Term) setInterval() {
	switch t.Op {
	case OpConst:
		t.lo, t.hi = t.V, t.V
	case OpVar:
		if v := varTab[t.N]; v != nil {
			t.lo, t.hi = v.lo, v.hi
		}
	case OpPoly:
		lo, hi := new(big.Int), new(big.Int)
		for _, m := range t.P {
			ml, mh := big1, big1
			for i := 0; i < len(m.M); {
				a := m.M[i]
				n := 1
				for i+n < len(m.M) && m.M[i+n] == a {
					n++
				}
				i += n
				if a.lo == nil || a.hi == nil {
					return
				}
				al, ah := a.lo, a.hi
				if n%2 == 0 && al.Sign() < 0 {
					mx := bmax(new(big.Int).Neg(al), ah)
					al, ah = big0, new(big.Int).Exp(mx, big.NewInt(int64(n)), nil)
				} else {
					al, ah = new(big.Int).Exp(al, big.NewInt(int64(n)), nil), new(big.Int).Exp(ah, big.NewInt(int64(n)), nil)
				}
				ml, mh = mulIv(ml, mh, al, ah)
			}
			ml, mh = mulIv(ml, mh, m.C, m.C)
			lo.Add(lo, ml)
			hi.Add(hi, mh)
		}
		t.lo, t.hi = lo, hi
	case OpIte:
		a, b := t.A[1], t.A[2]
		if a.lo != nil && b.lo != nil {
			t.lo = bmin(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = bmax(a.hi, b.hi)
		}
	case OpIMod:
		t.lo, t.hi = big0, new(big.Int).Sub(t.V, big1)
		if a := t.A[0]; a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(t.hi) < 0 {
			t.hi = a.hi
		}
	case OpIInv:
		t.lo, t.hi = big0, new(big.Int).Sub(t.V, big1)
	case OpIDiv:
		a := t.A[0]
		if a.lo != nil {
			t.lo = floorDiv(a.lo, t.V)
		}
		if a.hi != nil {
			t.hi = floorDiv(a.hi, t.V)
		}
	case OpBV2I:
		t.lo, t.hi = big0, urange(t.A[0])
	case OpPX, OpPY:
		t.lo = big0
		t.hi = new(big.Int).Sub(curve.P, big1)
	case OpUF:
		if iv, ok := ufRange[t.N]; ok {
			t.lo, t.hi = iv[0], iv[1]
		}
	}
}

var ufRange = map[string][2]*big.Int{}

func floorDiv(a, m *big.Int) *big.Int {
	q, r := new(big.Int).QuoRem(a, m, new(big.Int))
	if r.Sign() < 0 {
		q.Sub(q, big1)
	}
	return q
}
func mulIv(a, b, c, d *big.Int) (*big.Int, *big.Int) {
	p := []*big.Int{new(big.Int).Mul(a, c), new(big.Int).Mul(a, d), new(big.Int).Mul(b, c), new(big.Int).Mul(b, d)}
	lo, hi := p[0], p[0]
	for _, x := range p[1:] {
		lo, hi = bmin(lo, x), bmax(hi, x)
	}
	return lo, hi
}

func inRange(t *Term, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

// modNF reduces polynomial p modulo m: expands nested (u mod m) atoms, cancels
// inverse pairs and reduces coefficients into [0,m).
func modNF(p []Mono, m *big.Int) []Mono {
	for iter := 0; iter < 50; iter++ {
		changed := false
		acc := newAcc()
		for _, mo := range p {
			c := new(big.Int).Mod(mo.C, m)
			if c.Sign() == 0 {
				changed = changed || mo.C.Sign() != 0
				continue
			}
			atoms := mo.M
			// cancel x * inv(x)
			for again := true; again; {
				again = false
				for i, a := range atoms {
					if a.Op == OpIInv && a.V.Cmp(m) == 0 {
						t := a.A[0]
						for j, b := range atoms {
							if j != i && b == t {
								var na []*Term
								for k, x := range atoms {
									if k != i && k != j {
										na = append(na, x)
									}
								}
								atoms = na
								again = true
								changed = true
								break
							}
						}
						if again {
							break
						}
					}
				}
			}
			// L * inv(t) with t = c*L + rest  ->  (1 - rest*inv(t)) / c
			if len(acc.m) < polyCap {
				done := false
				for i, a := range atoms {
					if a.Op != OpIInv || a.V.Cmp(m) != 0 || polyOf(a.A[0]) == nil || len(polyOf(a.A[0])) < 2 {
						continue
					}
					tp := polyOf(a.A[0])
					if a.A[0].Op == OpIMod {
						tp = polyOf(a.A[0].A[0])
					}
					li := leadMono(tp)
					rest, ok := divMono(append(append([]*Term{}, atoms[:i]...), atoms[i+1:]...), tp[li].M)
					if !ok || len(tp[li].M) == 0 {
						continue
					}
					ci := new(big.Int).ModInverse(tp[li].C, m)
					if ci == nil {
						continue
					}
					ci.Mul(ci, c)
					acc.add(new(big.Int).Mod(ci, m), rest)
					for k, mo2 := range tp {
						if k == li {
							continue
						}
						cc := new(big.Int).Mul(ci, mo2.C)
						cc.Neg(cc)
						acc.add(cc.Mod(cc, m), mergeAtoms(mergeAtoms(rest, mo2.M), []*Term{a}))
					}
					done = true
					break
				}
				if done {
					changed = true
					continue
				}
			}
			// expand one IMod atom
			exp := -1
			for i, a := range atoms {
				if a.Op == OpIMod && a.V.Cmp(m) == 0 {
					exp = i
					break
				}
				if a.Op == OpIDiv && a.V.Cmp(big1) == 0 && len(a.A[0].P) < 400 && len(p) < 400 {
					exp = i
					break
				}
			}
			if exp >= 0 {
				rest := make([]*Term, 0, len(atoms)-1)
				rest = append(rest, atoms[:exp]...)
				rest = append(rest, atoms[exp+1:]...)
				sub := polyOf(atoms[exp].A[0])
				if len(acc.m)+len(sub) < polyCap {
					for _, s := range sub {
						acc.add(new(big.Int).Mul(c, s.C), mergeAtoms(rest, s.M))
					}
					changed = true
					continue
				}
			}
			acc.add(c, atoms)
		}
		p = acc.list()
		if !changed {
			break
		}
	}
	// final coefficient reduction
	acc := newAcc()
	for _, mo := range p {
		acc.add(new(big.Int).Mod(mo.C, m), mo.M)
	}
	return acc.list()
}

func IMod(a *Term, m *big.Int) *Term {
	if m.Sign() <= 0 {
		panic("IMod by non-positive")
	}
	if a.isConst() {
		return IntC(new(big.Int).Mod(a.V, m))
	}
	m1 := new(big.Int).Sub(m, big1)
	if inRange(a, big0, m1) {
		return a
	}
	// -PY(k) mod P = PY(-k)
	p := modNF(polyOf(a), m)
	r := fromPoly(p)
	if r.isConst() {
		return IntC(new(big.Int).Mod(r.V, m))
	}
	if inRange(r, big0, m1) {
		return r
	}
	if curve.on && m.Cmp(curve.P) == 0 && len(p) == 1 && len(p[0].M) == 1 && p[0].M[0].Op == OpPY {
		if p[0].C.Cmp(m1) == 0 {
			return mkPXY(OpPY, IMod(INeg(p[0].M[0].A[0]), curve.N))
		}
	}
	// ite with a small number of constant-offset branches: push mod inside when both branches collapse
	if r.Op == OpIte {
		x, y := IMod(r.A[1], m), IMod(r.A[2], m)
		return Ite(r.A[0], x, y)
	}
	return mk(Term{Op: OpIMod, S: SInt, A: []*Term{r}, V: new(big.Int).Set(m)})
}

func IDiv(a *Term, m *big.Int) *Term {
	if m.Cmp(big1) == 0 {
		return a
	}
	if a.isConst() {
		return IntC(floorDiv(a.V, m))
	}
	if a.lo != nil && a.hi != nil {
		l, h := floorDiv(a.lo, m), floorDiv(a.hi, m)
		if l.Cmp(h) == 0 {
			return IntC(l)
		}
	}
	if a.Op == OpPoly {
		q, r := newAcc(), newAcc()
		for _, mo := range a.P {
			d, rem := new(big.Int).DivMod(mo.C, m, new(big.Int))
			if len(mo.M) > 0 && rem.Sign() != 0 {
				d = big0
				rem = mo.C
			}
			q.add(d, mo.M)
			r.add(rem, mo.M)
		}
		if len(q.m) > 0 {
			return IAdd(fromPoly(q.list()), IDiv(fromPoly(r.list()), m))
		}
	}
	if a.Op == OpBV2I {
		// division by power of two = shift
		if m.BitLen()-1 == int(m.TrailingZeroBits()) {
			k := m.BitLen() - 1
			t := a.A[0]
			if k >= t.S.W {
				return IntI(0)
			}
			return BV2I(Extract(t, t.S.W-1, k))
		}
	}
	return mk(Term{Op: OpIDiv, S: SInt, A: []*Term{a}, V: new(big.Int).Set(m)})
}

// IInv is the inverse of a modulo prime m, meaningful only when a mod m != 0.
func IInv(a *Term, m *big.Int) *Term {
	r := fromPoly(modNF(polyOf(a), m))
	if r.isConst() {
		v := new(big.Int).ModInverse(r.V, m)
		if v == nil {
			return IntI(0)
		}
		return IntC(v)
	}
	if r.Op == OpIInv && r.V.Cmp(m) == 0 {
		return IMod(r.A[0], m)
	}
	// monomial c*x: inv = inv(c)*inv(x)
	if r.Op == OpPoly && len(r.P) == 1 {
		c := new(big.Int).ModInverse(r.P[0].C, m)
		acc := IntC(c)
		for _, at := range r.P[0].M {
			acc = IMul(acc, IInv(at, m))
		}
		return IMod(acc, m)
	}
	return mk(Term{Op: OpIInv, S: SInt, A: []*Term{r}, V: new(big.Int).Set(m)})
}

func mkPXY(op Op, k *Term) *Term {
	if k.isConst() && k.V.Sign() == 0 {
		return IntI(0)
	}
	if op == OpPX {
		k = canonSign(k)
	}
	return mk(Term{Op: op, S: SInt, A: []*Term{k}})
}

// canonSign picks a canonical representative of {k, -k} mod N (they have the same x coordinate).
func canonSign(k *Term) *Term {
	if k.isConst() {
		n := new(big.Int).Sub(curve.N, k.V)
		if n.Sign() > 0 && n.Cmp(k.V) < 0 {
			return IntC(n)
		}
		return k
	}
	if k.Op == OpIte {
		return k
	}
	p := polyOf(k)
	if k.Op == OpIMod && k.V.Cmp(curve.N) == 0 {
		p = polyOf(k.A[0])
	} else if k.Op == OpPoly {
		return k
	}
	if len(p) == 0 {
		return k
	}
	lead := p[len(p)-1].C
	if new(big.Int).Lsh(lead, 1).Cmp(curve.N) > 0 {
		return IMod(INeg(k), curve.N)
	}
	return k
}

func BV2I(t *Term) *Term {
	if t.isConst() {
		return IntC(t.V)
	}
	if t.Op == OpZext {
		return BV2I(t.A[0])
	}
	if t.Op == OpI2BV && inRange(t.A[0], big0, maskOf(t.S.W)) {
		return t.A[0]
	}
	if t.Op == OpIte && t.A[1].isConst() && t.A[2].isConst() {
		return Ite(t.A[0], IntC(t.A[1].V), IntC(t.A[2].V))
	}
	if t.Op == OpIte && intLike(t, 4) {
		return Ite(t.A[0], BV2I(t.A[1]), BV2I(t.A[2]))
	}
	return mk(Term{Op: OpBV2I, S: SInt, A: []*Term{t}})
}

// intLike: BV2I of t is an integer term without a conversion.
func intLike(t *Term, d int) bool {
	switch t.Op {
	case OpConst:
		return true
	case OpZext:
		return intLike(t.A[0], d)
	case OpI2BV:
		return inRange(t.A[0], big0, maskOf(t.S.W))
	case OpIte:
		return d > 0 && intLike(t.A[1], d-1) && intLike(t.A[2], d-1)
	}
	return false
}

// BV2ISigned interprets t as two's complement.
func BV2ISigned(t *Term) *Term {
	if t.isConst() {
		return IntC(t.sval())
	}
	half := new(big.Int).Lsh(big1, uint(t.S.W-1))
	if urange(t).Cmp(half) < 0 {
		return BV2I(t)
	}
	neg := Slt(t, BVu(0, t.S.W))
	return Ite(neg, ISub(BV2I(t), IntC(new(big.Int).Lsh(big1, uint(t.S.W)))), BV2I(t))
}

func I2BV(a *Term, w int) *Term {
	if a.isConst() {
		return BVc(a.V, w)
	}
	if a.Op == OpBV2I {
		return Zext(a.A[0], w)
	}
	if a.Op == OpIte {
		return Ite(a.A[0], I2BV(a.A[1], w), I2BV(a.A[2], w))
	}
	if a.Op == OpPoly {
		// linear over bv2i atoms with power-of-two friendly coefficients: build with bv arithmetic
		ok := true
		for _, mo := range a.P {
			if len(mo.M) > 1 || (len(mo.M) == 1 && mo.M[0].Op != OpBV2I) {
				ok = false
			}
		}
		if ok {
			r := BVu(0, w)
			for _, mo := range a.P {
				c := BVc(new(big.Int).Mod(mo.C, new(big.Int).Lsh(big1, uint(w))), w)
				if len(mo.M) == 1 {
					c = Mul(Zext(mo.M[0].A[0], w), c)
				}
				r = Add(r, c)
			}
			return r
		}
	}
	if a.Op == OpIMod && a.V.BitLen()-1 == int(a.V.TrailingZeroBits()) && a.V.BitLen()-1 >= w {
		return I2BV(a.A[0], w)
	}
	return mk(Term{Op: OpI2BV, S: SBV(w), A: []*Term{a}})
}

func IGe(a, b *Term) *Term { return ige0(ISub(a, b)) }
func ILe(a, b *Term) *Term { return ige0(ISub(b, a)) }
func ILt(a, b *Term) *Term { return Not(IGe(a, b)) }
func IGt(a, b *Term) *Term { return Not(ILe(a, b)) }

func ige0(d *Term) *Term {
	if d.lo != nil && d.lo.Sign() >= 0 {
		return TTrue
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return TFalse
	}
	if c, x, y, ok := iteConstShape(d); ok {
		return Ite(c, ige0(x), ige0(y))
	}
	if d.Op == OpPoly && len(d.P) > 0 && d.P[len(d.P)-1].C.Sign() < 0 {
		// normal form: d >= 0 with negative leading coefficient -> not(-d-1 >= 0)
		nd := ISub(INeg(d), IntI(1))
		if nd.Op != OpPoly || nd.P[len(nd.P)-1].C.Sign() > 0 {
			return Not(mk(Term{Op: OpIGe0, S: SBool, A: []*Term{nd}}))
		}
	}
	return mk(Term{Op: OpIGe0, S: SBool, A: []*Term{d}})
}

// iteConstShape recognises  c0 + k*ite(c,x,y)  (single atom) and returns the two instantiated branches.
func iteConstShape(d *Term) (c, x, y *Term, ok bool) {
	if d.Op == OpIte {
		return d.A[0], d.A[1], d.A[2], true
	}
	if d.Op != OpPoly {
		return
	}
	var it *Term
	for _, mo := range d.P {
		if len(mo.M) == 0 {
			continue
		}
		if len(mo.M) > 1 || mo.M[0].Op != OpIte || it != nil {
			return
		}
		it = mo.M[0]
	}
	if it == nil || !(it.A[1].isConst() || it.A[2].isConst()) {
		return
	}
	rest := newAcc()
	var k *big.Int
	for _, mo := range d.P {
		if len(mo.M) == 1 {
			k = mo.C
		} else {
			rest.add(mo.C, mo.M)
		}
	}
	r := fromPoly(rest.list())
	return it.A[0], IAdd(r, IMul(IntC(k), it.A[1])), IAdd(r, IMul(IntC(k), it.A[2])), true
}

func IEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if px(a) && px(b) && !(a.isConst() && b.isConst()) && (a.Op == b.Op || a.isConst() || b.isConst()) {
		ka, kb := dlOf(a), dlOf(b)
		if ka == kb || IEq(ka, kb) == TTrue {
			return TTrue
		}
		if a.isConst() || b.isConst() {
			// only the identity has coordinate 0 (table/curve choice guarantees it)
			return IEq(ka, kb)
		}
		if a.id > b.id {
			a, b = b, a
		}
		same := mk(Term{Op: OpIEq0, S: SBool, A: []*Term{ISub(b, a)}})
		if opaqueOn && curve.X == nil {
			// x coordinates agree for a point and its negative only; y coordinates do not agree for these
			neg := ieq0mod(IAdd(ka, kb), curve.N)
			if a.Op == OpPX {
				return Or(ieq0mod(ISub(ka, kb), curve.N), neg)
			}
			return Or(ieq0mod(ISub(ka, kb), curve.N), And(same, Not(neg)))
		}
		return same
	}
	if curve.on && curve.X != nil {
		if (a.Op == OpPX || a.Op == OpPY) && b.isConst() {
			a, b = b, a
		}
		if (b.Op == OpPX || b.Op == OpPY) && a.isConst() {
			tab := curve.X
			if b.Op == OpPY {
				tab = curve.Y
			}
			var alts []*Term
			for i, v := range tab {
				if v.Cmp(a.V) == 0 {
					alts = append(alts, IEq(b.A[0], IntI(int64(i))))
				}
			}
			return Or(alts...)
		}
	}
	for _, pr := range [][2]*Term{{a, b}, {b, a}} {
		if pr[0].Op == OpIMod {
			m := pr[0].V
			m1 := new(big.Int).Sub(m, big1)
			if inRange(pr[1], big0, m1) {
				return ieq0mod(ISub(a, b), m)
			}
		}
	}
	if curve.on && a.lo != nil && b.lo != nil {
		m1 := new(big.Int).Sub(curve.N, big1)
		if inRange(a, big0, m1) && inRange(b, big0, m1) && !(a.isConst() || b.isConst()) {
			return ieq0mod(ISub(a, b), curve.N)
		}
	}
	return ieq0(ISub(a, b))
}

// ieq0mod: d ≡ 0 (mod m), for prime m.
func ieq0mod(d *Term, m *big.Int) *Term {
	p := modNF(polyOf(d), m)
	if len(p) == 0 {
		return TTrue
	}
	if indicatorZero(p, m) {
		return TTrue
	}
	r := fromPoly(p)
	if r.isConst() {
		return Bool(r.V.Sign() == 0)
	}
	if stripOn && m.Cmp(curve.N) == 0 {
		if q := withoutInverses(IMod(r, m)); q.Op == OpIMod && q != IMod(r, m) {
			return ieq0mod(q.A[0], m)
		}
	}
	// make monic
	inv := new(big.Int).ModInverse(p[len(p)-1].C, m)
	if inv != nil && inv.Cmp(big1) != 0 {
		acc := newAcc()
		for _, mo := range p {
			acc.add(new(big.Int).Mod(new(big.Int).Mul(mo.C, inv), m), mo.M)
		}
		p = acc.list()
		r = fromPoly(p)
	}
	if r.isConst() {
		return Bool(new(big.Int).Mod(r.V, m).Sign() == 0)
	}
	m1 := new(big.Int).Sub(m, big1)
	if len(p) <= 2 && len(p[len(p)-1].M) == 1 && inRange(p[len(p)-1].M[0], big0, m1) && (len(p) == 1 || len(p[0].M) == 0) {
		v := p[len(p)-1].M[0]
		k := big0
		if len(p) == 2 {
			k = new(big.Int).Mod(new(big.Int).Neg(p[0].C), m)
		}
		return ieq0(ISub(v, IntC(k)))
	}
	return ieq0(IMod(r, m))
}

func ieq0(d *Term) *Term {
	if d.isConst() {
		return Bool(d.V.Sign() == 0)
	}
	if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
		return TFalse
	}
	if c, x, y, ok := iteConstShape(d); ok {
		if ex, ey := ieq0(x), ieq0(y); ex.isConst() || ey.isConst() || ex == ey || (inRange(x, big0, big1) && inRange(y, big0, big1)) {
			return Ite(c, ex, ey)
		}
	}
	if d.Op == OpPX || d.Op == OpPY {
		return IEq(d.A[0], IntI(0))
	}
	if d.Op == OpPoly {
		if d.P[len(d.P)-1].C.Sign() < 0 {
			d = INeg(d)
		}
		// gcd of nonconstant coefficients must divide constant
		g := new(big.Int)
		for _, mo := range d.P {
			if len(mo.M) > 0 {
				g.GCD(nil, nil, g, new(big.Int).Abs(mo.C))
			}
		}
		if g.Cmp(big1) > 0 {
			c := big0
			if len(d.P[0].M) == 0 {
				c = d.P[0].C
			}
			if new(big.Int).Mod(c, g).Sign() != 0 {
				return TFalse
			}
			acc := newAcc()
			for _, mo := range d.P {
				acc.add(new(big.Int).Quo(mo.C, g), mo.M)
			}
			d = fromPoly(acc.list())
			return ieq0(d)
		}
		if hasIte(d) && indicatorZero(d.P, nil) {
			return TTrue
		}
		// bv2i(x) == const -> bv equality ; bv2i(x)==bv2i(y)
		if len(d.P) == 2 && len(d.P[0].M) == 0 && len(d.P[1].M) == 1 && d.P[1].M[0].Op == OpBV2I && d.P[1].C.Cmp(big1) == 0 {
			t := d.P[1].M[0].A[0]
			v := new(big.Int).Neg(d.P[0].C)
			if v.Sign() < 0 || v.BitLen() > t.S.W {
				return TFalse
			}
			return Eq(t, BVc(v, t.S.W))
		}
		if len(d.P) == 2 && len(d.P[0].M) == 1 && len(d.P[1].M) == 1 && d.P[0].M[0].Op == OpBV2I && d.P[1].M[0].Op == OpBV2I &&
			d.P[0].C.CmpAbs(big1) == 0 && d.P[1].C.CmpAbs(big1) == 0 && d.P[0].C.Sign() != d.P[1].C.Sign() {
			x, y := d.P[0].M[0].A[0], d.P[1].M[0].A[0]
			w := x.S.W
			if y.S.W > w {
				w = y.S.W
			}
			return Eq(Zext(x, w), Zext(y, w))
		}
	}
	if d.Op == OpBV2I {
		return Eq(d.A[0], BVu(0, d.A[0].S.W))
	}
	return mk(Term{Op: OpIEq0, S: SBool, A: []*Term{d}})
}

func hasIte(d *Term) bool {
	for _, mo := range d.P {
		for _, a := range mo.M {
			if a.Op == OpIte {
				return true
			}
		}
	}
	return false
}

// indicatorZero expands ite atoms into 0/1 indicator variables (idempotent) and
// decides whether the polynomial vanishes identically (mod m if m != nil).
func indicatorZero(p []Mono, m *big.Int) bool {
	any := false
	for _, mo := range p {
		for _, a := range mo.M {
			if a.Op == OpIte {
				any = true
			}
		}
	}
	if !any || !fpZero(p, m) {
		return false
	}
	work, ok := expandInd(p, m)
	if !ok || len(work) == 0 {
		return ok
	}
	if m == nil {
		return false
	}
	// an indicator of X = 0 annihilates the multiples of X
	type grp struct {
		es []*Term
		p  *polyAcc
	}
	gs := map[string]*grp{}
	for _, mo := range work {
		var es, rest []*Term
		for _, a := range mo.M {
			if isInd(a) && a.A[0].Op == OpIEq0 {
				if _, _, _, ok := pxEq(a.A[0]); !ok {
					es = append(es, a.A[0])
					continue
				}
			}
			rest = append(rest, a)
		}
		if len(es) == 0 {
			return false
		}
		k := ids(es)
		g := gs[k]
		if g == nil {
			g = &grp{es, newAcc()}
			gs[k] = g
		}
		g.p.add(mo.C, rest)
	}
	for _, g := range gs {
		var xs [][]Mono
		for _, e := range g.es {
			if x, ok := expandInd(modNF(polyOf(e.A[0]), m), m); ok && len(x) > 0 {
				xs = append(xs, x)
			}
		}
		if len(xs) == 0 || !reducesTo0(modNF(g.p.list(), m), xs, m) {
			return false
		}
	}
	return true
}

// expandInd writes p over indicator variables; not ok when it grows too large.
func expandInd(p []Mono, m *big.Int) ([]Mono, bool) {
	work := p
	for iter := 0; iter < 30; iter++ {
		changed := false
		acc := newAcc()
		for _, mo := range work {
			// idempotence and find expandable
			var atoms []*Term
			var last *Term
			exp := -1
			for _, a := range mo.M {
				if isInd(a) {
					if a == last {
						changed = true
						continue
					}
					last = a
				}
				atoms = append(atoms, a)
				if exp < 0 && a.Op == OpIte && (!isInd(a) || !litCond(a.A[0])) {
					exp = len(atoms) - 1
				}
			}
			if exp < 0 {
				acc.add(mo.C, atoms)
				continue
			}
			changed = true
			a := atoms[exp]
			rest := append(append([]*Term{}, atoms[:exp]...), atoms[exp+1:]...)
			ex, ok := expandIte(a)
			if !ok {
				return nil, false
			}
			for _, s := range ex {
				acc.add(new(big.Int).Mul(mo.C, s.C), mergeAtoms(rest, s.M))
			}
			if len(acc.m) > 3000 {
				return nil, false
			}
		}
		work = acc.list()
		if m != nil {
			work = modNF(work, m)
		}
		if len(work) == 0 {
			return nil, true
		}
		if !changed {
			break
		}
	}
	return work, true
}

func isInd(a *Term) bool {
	return a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() && a.A[1].V.Cmp(big1) == 0 && a.A[2].V.Sign() == 0
}
func litCond(c *Term) bool { return c.Op != OpAnd && c.Op != OpOr && c.Op != OpNot }

func indPoly(c *Term) []Mono {
	switch c.Op {
	case OpNot:
		acc := newAcc()
		acc.add(big1, nil)
		acc.addPoly(indPoly(c.A[0]), big.NewInt(-1))
		return acc.list()
	case OpAnd:
		r := []Mono{{C: big1}}
		for _, x := range c.A {
			r, _ = mulP(r, indPoly(x))
		}
		return r
	case OpOr:
		var ns []*Term
		for _, x := range c.A {
			ns = append(ns, Not(x))
		}
		r := []Mono{{C: big1}}
		for _, x := range ns {
			r, _ = mulP(r, indPoly(x))
		}
		acc := newAcc()
		acc.add(big1, nil)
		acc.addPoly(r, big.NewInt(-1))
		return acc.list()
	}
	return []Mono{{C: big1, M: []*Term{mk(Term{Op: OpIte, S: SInt, A: []*Term{c, IntI(1), IntI(0)}})}}}
}

func expandIte(a *Term) ([]Mono, bool) {
	ind := indPoly(a.A[0])
	d := newAcc()
	d.addPoly(polyOf(a.A[1]), big1)
	d.addPoly(polyOf(a.A[2]), big.NewInt(-1))
	x, ok := mulP(ind, d.list())
	if !ok {
		return nil, false
	}
	acc := newAcc()
	acc.addPoly(x, big1)
	acc.addPoly(polyOf(a.A[2]), big1)
	return acc.list(), true
}

// substEq: given c = (d == 0) decide whether, under c, b can be shown equal to
// something simpler; returns b with the equation applied, or nil.
func substEq(c, b *Term) *Term {
	d := c.A[0]
	var v *Term
	var k *big.Int
	switch {
	case d.Op != OpPoly:
		v, k = d, big0
	case len(d.P) == 2 && len(d.P[0].M) == 0 && len(d.P[1].M) == 1 && d.P[1].C.Cmp(big1) == 0:
		v, k = d.P[1].M[0], new(big.Int).Neg(d.P[0].C)
	default:
		return nil
	}
	if b.depth > 60 {
		return nil
	}
	return substAtom(b, v, IntC(k), map[int64]*Term{})
}

// substAtom replaces atom v by term r inside Int/Bool structure of t.
func substAtom(t, v, r *Term, memo map[int64]*Term) *Term {
	if t == v {
		return r
	}
	if t.isConst() || t.Op == OpVar {
		return t
	}
	if x, ok := memo[t.id]; ok {
		return x
	}
	var out *Term
	switch t.Op {
	case OpPoly:
		acc := IntI(0)
		for _, mo := range t.P {
			x := IntC(mo.C)
			for _, a := range mo.M {
				x = IMul(x, substAtom(a, v, r, memo))
			}
			acc = IAdd(acc, x)
		}
		out = acc
	default:
		out = rebuild(t, func(a *Term) *Term { return substAtom(a, v, r, memo) })
	}
	memo[t.id] = out
	return out
}

// rebuild reconstructs t with f applied to its arguments (simplifying).
func rebuild(t *Term, f func(*Term) *Term) *Term {
	if len(t.A) == 0 && t.Op != OpPoly {
		return t
	}
	a := make([]*Term, len(t.A))
	same := true
	for i, x := range t.A {
		a[i] = f(x)
		same = same && a[i] == x
	}
	if t.Op == OpPoly {
		acc := IntI(0)
		for _, mo := range t.P {
			x := IntC(mo.C)
			for _, y := range mo.M {
				x = IMul(x, f(y))
			}
			acc = IAdd(acc, x)
		}
		return acc
	}
	if same {
		return t
	}
	switch t.Op {
	case OpNot:
		return Not(a[0])
	case OpAnd:
		return And(a...)
	case OpOr:
		return Or(a...)
	case OpEq:
		return Eq(a[0], a[1])
	case OpIte:
		return Ite(a[0], a[1], a[2])
	case OpAdd:
		return Add(a[0], a[1])
	case OpMul:
		return Mul(a[0], a[1])
	case OpUDiv, OpURem, OpSDiv, OpSRem:
		return BVDivRem(t.Op, a[0], a[1])
	case OpBAnd:
		return BAnd(a[0], a[1])
	case OpBOr:
		return BOr(a[0], a[1])
	case OpBXor:
		return BXor(a[0], a[1])
	case OpBNot:
		return BNot(a[0])
	case OpNeg:
		return Neg(a[0])
	case OpShl, OpLShr, OpAShr:
		return Shift(t.Op, a[0], a[1])
	case OpUlt:
		return Ult(a[0], a[1])
	case OpSlt:
		return Slt(a[0], a[1])
	case OpConcat:
		return Concat(a[0], a[1])
	case OpExtract:
		return Extract(a[0], t.I1, t.I2)
	case OpZext:
		return Zext(a[0], t.S.W)
	case OpSext:
		return Sext(a[0], t.S.W)
	case OpIMod:
		return IMod(a[0], t.V)
	case OpIDiv:
		return IDiv(a[0], t.V)
	case OpIInv:
		return IInv(a[0], t.V)
	case OpIGe0:
		return ige0(a[0])
	case OpIEq0:
		if a[0].Op == OpIMod && a[0].V.ProbablyPrime(4) {
			return ieq0mod(a[0].A[0], a[0].V)
		}
		return ieq0(a[0])
	case OpBV2I:
		return BV2I(a[0])
	case OpI2BV:
		return I2BV(a[0], t.S.W)
	case OpPX, OpPY:
		return mkPXY(t.Op, a[0])
	case OpUF:
		return mk(Term{Op: OpUF, S: t.S, N: t.N, A: a})
	}
	panic("rebuild: op")
}

// divisibleMod: is f divisible by g as polynomials over Z_m (m prime)?
func divisibleMod(f, g []Mono, m *big.Int) bool {
	return reducesTo0(f, [][]Mono{g}, m)
}

// clearInv multiplies p by the arguments of the inverses that occur in it. An
// inverse term exists only where its argument is non-zero, so p = 0 is unchanged.
func clearInv(p []Mono, m *big.Int) []Mono {
	p = modNF(p, m)
	for n := 0; n < 4; n++ {
		var t *Term
		for _, mo := range p {
			for _, a := range mo.M {
				if a.Op == OpIInv && a.V.Cmp(m) == 0 {
					t = a.A[0]
				}
			}
		}
		if t == nil {
			break
		}
		q, ok := mulP(p, polyOf(t))
		if !ok {
			break
		}
		p = modNF(q, m)
	}
	return p
}

// reducesTo0 reduces f by the polynomials gs (all of them zero modulo m); true
// when the remainder vanishes.
func reducesTo0(f []Mono, gs [][]Mono, m *big.Int) bool {
	f = clearInv(f, m)
	type div struct {
		g   []Mono
		inv *big.Int
	}
	var ds []div
	for _, g := range gs {
		g = clearInv(g, m)
		if len(g) == 0 || len(g[len(g)-1].M) == 0 {
			continue
		}
		inv := new(big.Int).ModInverse(g[len(g)-1].C, m)
		if inv == nil {
			continue
		}
		ds = append(ds, div{g, inv})
	}
	for steps := 0; steps < 400; steps++ {
		if len(f) == 0 {
			return true
		}
		if len(ds) == 0 {
			return false
		}
		lf := f[len(f)-1]
		hit := false
		for _, d := range ds {
			q, ok := divAtoms(lf.M, d.g[len(d.g)-1].M)
			if !ok {
				continue
			}
			hit = true
			c := new(big.Int).Mul(lf.C, d.inv)
			c.Mod(c, m)
			acc := newAcc()
			acc.addPoly(f, big1)
			for _, mo := range d.g {
				acc.add(new(big.Int).Neg(new(big.Int).Mul(c, mo.C)), mergeAtoms(q, mo.M))
			}
			acc2 := newAcc()
			for _, mo := range acc.list() {
				acc2.add(new(big.Int).Mod(mo.C, m), mo.M)
			}
			f = acc2.list()
			break
		}
		if !hit || len(f) > polyCap {
			return false
		}
	}
	return false
}

func divAtoms(a, b []*Term) ([]*Term, bool) {
	var q []*Term
	j := 0
	for i := 0; i < len(a); i++ {
		if j < len(b) && a[i] == b[j] {
			j++
			continue
		}
		q = append(q, a[i])
	}
	return q, j == len(b)
}

// pxEq recognises PX(a)=PX(b) / PY(a)=PY(b).
func pxEq(t *Term) (Op, *Term, *Term, bool) {
	if t.Op != OpIEq0 || t.A[0].Op != OpPoly {
		return 0, nil, nil, false
	}
	p := t.A[0].P
	if len(p) != 2 || len(p[0].M) != 1 || len(p[1].M) != 1 {
		return 0, nil, nil, false
	}
	x, y := p[0].M[0], p[1].M[0]
	if x.Op != y.Op || (x.Op != OpPX && x.Op != OpPY) {
		return 0, nil, nil, false
	}
	a, b := x.A[0], y.A[0]
	if a.id > b.id {
		a, b = b, a
	}
	return x.Op, a, b, true
}

// fusePX replaces PX(a)=PX(b) & PY(a)=PY(b) by a=b in a conjunction (neg: in a
// disjunction of negations). Returns nil when nothing fuses.
func fusePX(out []*Term, neg bool) []*Term {
	type key struct{ a, b int64 }
	xs, ys := map[key]int{}, map[key]int{}
	for i, t := range out {
		if neg {
			if t.Op != OpNot {
				continue
			}
			t = t.A[0]
		}
		if op, a, b, ok := pxEq(t); ok {
			if op == OpPX {
				xs[key{a.id, b.id}] = i
			} else {
				a, b = canonSign(a), canonSign(b)
				if a.id > b.id {
					a, b = b, a
				}
				ys[key{a.id, b.id}] = i
			}
		}
	}
	for k, i := range xs {
		if j, ok := ys[k]; ok {
			t := out[j]
			if neg {
				t = t.A[0]
			}
			_, a, b, _ := pxEq(t)
			e := IEq(a, b)
			if neg {
				e = Not(e)
			}
			var r []*Term
			for n, x := range out {
				if n != i && n != j {
					r = append(r, x)
				}
			}
			return append(r, e)
		}
	}
	return nil
}

// collapseIte: under condition c, are a and b (both in [0,N)) provably equal?
type collapseKey struct {
	k       int
	c, a, b int64
	sign    bool
}

var collapseMemo = map[collapseKey]bool{}

func memoCollapse(kind int, c, a, b *Term, sign bool, f func() bool) bool {
	k := collapseKey{kind, c.id, a.id, b.id, sign}
	if v, ok := collapseMemo[k]; ok {
		return v
	}
	v := f()
	collapseMemo[k] = v
	return v
}

func collapseIte(c, a, b *Term, sign bool) bool {
	return memoCollapse(0, c, a, b, sign, func() bool { return collapseIte1(c, a, b, sign) })
}

func collapseIte1(c, a, b *Term, sign bool) bool {
	if !curve.on || a.S.K != KInt {
		return false
	}
	m1 := new(big.Int).Sub(curve.N, big1)
	if !inRange(a, big0, m1) || !inRange(b, big0, m1) {
		return false
	}
	try := func(e *Term) bool {
		if e.Op != OpIEq0 {
			return false
		}
		if _, _, _, ok := pxEq(e); ok {
			return false
		}
		return divisibleMod(ISub(a, b).polyList(), polyOf(e.A[0]), curve.N) ||
			sign && divisibleMod(IAdd(a, b).polyList(), polyOf(e.A[0]), curve.N)
	}
	if try(c) {
		return true
	}
	if c.Op == OpAnd {
		var gs [][]Mono
		for _, x := range c.A {
			if try(x) {
				return true
			}
			if x.Op == OpIEq0 {
				if _, _, _, ok := pxEq(x); !ok {
					gs = append(gs, polyOf(x.A[0]))
				}
			}
		}
		if len(gs) > 1 && (reducesTo0(ISub(a, b).polyList(), gs, curve.N) ||
			sign && reducesTo0(IAdd(a, b).polyList(), gs, curve.N)) {
			return true
		}
		for _, x := range c.A {
			if x.Op == OpOr && len(x.A) <= 4 && collapseIte(x, a, b, sign) {
				return true
			}
		}
	}
	if c.Op == OpOr && len(c.A) <= 6 {
		for _, x := range c.A {
			if !collapseIte(x, a, b, sign) {
				return false
			}
		}
		return true
	}
	if c.Op == OpNot && c.A[0].Op == OpAnd && len(c.A[0].A) <= 6 {
		for _, x := range c.A[0].A {
			if !collapseIte(Not(x), a, b, sign) {
				return false
			}
		}
		return true
	}
	return false
}

// unitProp simplifies the conjuncts of c by the truth values that its literals fix.
func unitProp(c *Term) *Term {
	if x, ok := unitMemo[c.id]; ok {
		return x
	}
	r := c
	for k := 0; k < 8 && r.Op == OpAnd; k++ {
		lits := map[int64]bool{}
		for _, x := range r.A {
			if x.Op != OpOr && x.Op != OpAnd && x.Op != OpIte {
				lits[x.id] = true
				lits[Not(x).id] = false
			}
		}
		memo := map[int64]*Term{}
		a := make([]*Term, len(r.A))
		ch := false
		for i, x := range r.A {
			a[i] = x
			if x.Op == OpOr || x.Op == OpNot && (x.A[0].Op == OpAnd || x.A[0].Op == OpOr) {
				if a[i] = unitSub(x, lits, memo); a[i] != x {
					ch = true
				}
			}
		}
		if !ch {
			break
		}
		r = And(a...)
	}
	unitMemo[c.id] = r
	return r
}

var unitMemo = map[int64]*Term{}

func unitSub(t *Term, lits map[int64]bool, memo map[int64]*Term) *Term {
	if v, ok := lits[t.id]; ok {
		return Bool(v)
	}
	if t.Op != OpAnd && t.Op != OpOr && t.Op != OpNot {
		return t
	}
	if x, ok := memo[t.id]; ok {
		return x
	}
	x := rebuild(t, func(a *Term) *Term { return unitSub(a, lits, memo) })
	memo[t.id] = x
	return x
}

// collapseCtx is collapseIte after replacing, inside a and b, the conditions that c decides.
func collapseCtx(c, a, b *Term, sign bool) bool {
	return memoCollapse(1, c, a, b, sign, func() bool { return collapseCtx1(c, a, b, sign) })
}

func collapseCtx1(c, a, b *Term, sign bool) bool {
	if c.Op != OpAnd || a.depth+b.depth > 80 || !(hasIte1(a) || hasIte1(b)) {
		return false
	}
	known := map[int64]bool{}
	for _, x := range c.A {
		known[x.id] = true
		known[Not(x).id] = false
	}
	memo := map[int64]*Term{}
	x, y := ctxTerm(a, known, memo), ctxTerm(b, known, memo)
	if x == a && y == b {
		return false
	}
	return x == y || IEq(x, y) == TTrue || collapseIte(c, x, y, sign)
}

func hasIte1(t *Term) bool {
	if t.Op == OpIte {
		return true
	}
	if t.Op == OpIMod {
		return hasIte1(t.A[0])
	}
	return t.Op == OpPoly && hasIte(t)
}

func ctxTerm(t *Term, known map[int64]bool, memo map[int64]*Term) *Term {
	if t.isConst() || t.Op == OpVar {
		return t
	}
	if v, ok := known[t.id]; ok {
		return Bool(v)
	}
	if x, ok := memo[t.id]; ok {
		return x
	}
	x := rebuild(t, func(a *Term) *Term { return ctxTerm(a, known, memo) })
	memo[t.id] = x
	return x
}

// collapseCubes decides a = b under c by enumerating the propositional models of
// c over its atoms: in each model the true polynomial equations must force a = b
// (or a = -b), or contradict an equation that the model makes false.
func collapseCubes(c, a, b *Term, sign bool) bool {
	if !curve.on || a.S.K != KInt || (c.Op != OpAnd && c.Op != OpOr && c.Op != OpNot) {
		return false
	}
	m1 := new(big.Int).Sub(curve.N, big1)
	if !inRange(a, big0, m1) || !inRange(b, big0, m1) {
		return false
	}
	if hasIte(a) || hasIte(b) {
		return false
	}
	key := fmt.Sprint(c.id, " ", a.id, " ", b.id, " ", sign)
	if r, ok := cubeMemo[key]; ok {
		return r
	}
	r := cubes(c, a, b, sign)
	cubeMemo[key] = r
	return r
}

var cubeMemo = map[string]bool{}

func cubes(c, a, b *Term, sign bool) bool {
	ats, idx := propAtoms(c, 9)
	if ats == nil {
		return false
	}
	polys := make([][]Mono, len(ats))
	for i, t := range ats {
		if t.Op == OpIEq0 {
			if _, _, _, ok := pxEq(t); !ok && !hasIte(t.A[0]) {
				polys[i] = polyOf(t.A[0])
			}
		}
	}
	d, e := ISub(a, b).polyList(), IAdd(a, b).polyList()
	for m := 0; m < 1<<len(ats); m++ {
		if !propEval(c, idx, m) {
			continue
		}
		var gs [][]Mono
		for i := range ats {
			if m>>i&1 == 1 && polys[i] != nil {
				gs = append(gs, polys[i])
			}
		}
		if reducesTo0(d, gs, curve.N) || sign && reducesTo0(e, gs, curve.N) {
			continue
		}
		bad := false
		for i := range ats {
			if m>>i&1 == 0 && polys[i] != nil && reducesTo0(polys[i], gs, curve.N) {
				bad = true
				break
			}
		}
		if !bad {
			return false
		}
	}
	return true
}

// propAtoms lists the atoms of a boolean combination (nil when there are more than max).
func propAtoms(t *Term, max int) ([]*Term, map[int64]int) {
	idx := map[int64]int{}
	var ats []*Term
	seen := map[int64]bool{}
	var coll func(t *Term) bool
	coll = func(t *Term) bool {
		if t.isConst() || seen[t.id] {
			return true
		}
		seen[t.id] = true
		if t.Op == OpNot || t.Op == OpAnd || t.Op == OpOr || (t.Op == OpIte && t.S.K == KBool) {
			for _, a := range t.A {
				if !coll(a) {
					return false
				}
			}
			return true
		}
		idx[t.id] = len(ats)
		ats = append(ats, t)
		return len(ats) <= max
	}
	if !coll(t) {
		return nil, nil
	}
	return ats, idx
}

func propEval(t *Term, idx map[int64]int, m int) bool {
	switch {
	case t.isConst():
		return t == TTrue
	case t.Op == OpNot:
		return !propEval(t.A[0], idx, m)
	case t.Op == OpAnd:
		for _, a := range t.A {
			if !propEval(a, idx, m) {
				return false
			}
		}
		return true
	case t.Op == OpOr:
		for _, a := range t.A {
			if propEval(a, idx, m) {
				return true
			}
		}
		return false
	case t.Op == OpIte:
		if propEval(t.A[0], idx, m) {
			return propEval(t.A[1], idx, m)
		}
		return propEval(t.A[2], idx, m)
	}
	return m>>idx[t.id]&1 == 1
}

func (t *Term) polyList() []Mono { return polyOf(t) }

// leadMono: index of the leading monomial (largest degree, then largest atom ids).
func leadMono(p []Mono) int {
	best := 0
	for i := 1; i < len(p); i++ {
		a, b := p[i].M, p[best].M
		if len(a) != len(b) {
			if len(a) > len(b) {
				best = i
			}
			continue
		}
		for j := len(a) - 1; j >= 0; j-- {
			if a[j].id != b[j].id {
				if a[j].id > b[j].id {
					best = i
				}
				break
			}
		}
	}
	return best
}

// divMono divides a monomial by another.
func divMono(a, b []*Term) ([]*Term, bool) {
	rest := append([]*Term{}, a...)
	for _, x := range b {
		f := -1
		for i, y := range rest {
			if x == y {
				f = i
				break
			}
		}
		if f < 0 {
			return nil, false
		}
		rest = append(rest[:f], rest[f+1:]...)
	}
	return rest, true
}
