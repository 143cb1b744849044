package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
)

// Contracts (directive contracts=a,b): functions replaced by what another harness shows them to do.
//
//	field     field values modulo the prime as polynomials, with magnitude and normalisation
//	          flags (shown by P20); an operation outside its documented operand range gives an
//	          unconstrained result
//	fieldexp  field values as powers of one base, to follow the exponentiation in Inverse
//	tables    the precomputed tables are not decoded

type contractFn = func(ex *Exec, st *State, c *callCtx) []Value

// useContract replaces functions by a contract for this run.
func (ex *Exec) useContract(l *Loaded, name string) error {
	f, ok := contracts[name]
	if !ok {
		return fmt.Errorf("no contract %s", name)
	}
	ex.assumes["contract "+name] = true
	f(ex)
	return nil
}

var contracts = map[string]func(ex *Exec){
	"field":    func(ex *Exec) { ex.fieldContract(false) },
	"fieldexp": func(ex *Exec) { ex.fieldContract(true) },
	"tables": func(ex *Exec) {
		for _, n := range []string{"loadS256BytePoints", "loadS256BytePointsH"} {
			ex.ctrOverride[rootPkg+"/btcec."+n] = func(ex *Exec, st *State, c *callCtx) []Value {
				return []Value{&Iface{}}
			}
		}
	},
}

// fv is an abstract field value: p modulo the prime, in words of at most mag times the normal
// size; norm: reduced and in normal form. base^exp when base is set (fieldexp).
type fv struct {
	p    *Term
	mag  int64
	norm bool
	base *Term
	exp  *big.Int
}

const fieldMagMax = 32

func fvConst(v int64) fv { return fv{p: IntI(v), mag: 1, norm: true} }

func fpoly(t *Term) *Term { return fromPoly(modNF(polyOf(t), curve.P)) }

func (ex *Exec) fvFresh(st *State, why string) fv {
	n := st.uniq("fieldval")
	return fv{p: IntVar(n, big0, new(big.Int).Sub(curve.P, big1)), mag: 1}
}

func (ex *Exec) fvLoad(st *State, p Value) fv {
	v := ex.loadV(st, p)
	if c, ok := v.(*Choice); ok {
		v = ex.resolve(st, c)
	}
	e := v.(*Struct).F[0].(*Array).E
	if a, i := ex.tagged(st, p); a != nil {
		a = IMod(a, curve.N)
		switch i {
		case 0:
			return fv{p: mkPXY(OpPX, a), mag: 1, norm: true}
		case 1:
			return fv{p: mkPXY(OpPY, a), mag: 1, norm: true}
		}
		return fv{p: ISub(IntI(1), indLin(ieq0(a))), mag: 1, norm: true}
	}
	if t, ok := e[0].(*Term); ok && t.S.K == KInt {
		fl := e[1].(*Term).V.Int64()
		r := fv{p: t, mag: fl >> 1, norm: fl&1 == 1}
		if x := e[2].(*Term); x.S.K == KInt {
			r.base, r.exp = t, x.V
		}
		return r
	}
	sum := new(big.Int)
	mag := int64(1)
	norm := true
	for i, x := range e {
		t, ok := x.(*Term)
		if !ok || !t.isConst() {
			panic(unsup("symbolic words in an abstract field value"))
		}
		sum.Add(sum, new(big.Int).Lsh(t.V, uint(26*i)))
		w := uint(26)
		if i == 9 {
			w = 22
		}
		if m := new(big.Int).Rsh(t.V, w); m.Sign() > 0 {
			norm = false
			if m.Int64()+1 > mag {
				mag = m.Int64() + 1
			}
		}
	}
	if sum.Cmp(curve.P) >= 0 {
		norm = false
	}
	return fv{p: IntC(new(big.Int).Mod(sum, curve.P)), mag: mag, norm: norm}
}

func (ex *Exec) fvStore(st *State, p Value, v fv) {
	old := ex.loadV(st, p)
	if c, ok := old.(*Choice); ok {
		old = ex.resolve(st, c)
	}
	s := old.(*Struct)
	e := make([]Value, 10)
	fl := v.mag << 1
	if v.norm {
		fl |= 1
	}
	for i := range e {
		e[i] = BVu(0, 32)
	}
	e[1] = BVu(uint64(fl), 32)
	if v.exp != nil {
		e[0], e[2] = v.base, IntC(v.exp)
	} else {
		e[0] = fpoly(v.p)
	}
	f := append([]Value{}, s.F...)
	f[0] = &Array{e}
	ex.storeV(st, p, &Struct{f})
}

// zeroMod: the condition that t is zero modulo the prime, decided where the facts of the path
// (differences that are not zero) settle it.
func (ex *Exec) zeroMod(st *State, t *Term) *Term {
	p := clearInvAll(modNF(polyOf(t), curve.P), curve.P)
	if len(p) == 0 {
		return TTrue
	}
	c := ieq0mod(fromPoly(p), curve.P)
	if c.isConst() {
		return c
	}
	p = stripNonZero(p, nonZeroFacts(st), curve.P)
	p = append([]Mono{}, p...)
	for i, mo := range p { // smallest representatives
		if 2*mo.C.BitLen() > curve.P.BitLen() {
			if d := new(big.Int).Sub(mo.C, curve.P); d.BitLen() < mo.C.BitLen() {
				p[i].C = d
			}
		}
	}
	t = fromPoly(p)
	if m1 := new(big.Int).Sub(curve.P, big1); inRange(t, new(big.Int).Neg(m1), m1) {
		return ieq0(t)
	}
	return ieq0mod(t, curve.P)
}

// clearInvAll multiplies p by powers of the arguments of its inverses (which are not zero).
func clearInvAll(p []Mono, m *big.Int) []Mono {
	for n := 0; n < 8; n++ {
		var inv *Term
		deg := 0
		for _, mo := range p {
			d := 0
			for _, a := range mo.M {
				if a.Op == OpIInv && a.V.Cmp(m) == 0 && (inv == nil || inv == a) {
					inv = a
					d++
				}
			}
			if d > deg {
				deg = d
			}
		}
		if inv == nil {
			return p
		}
		pw := [][]Mono{{{C: big1}}}
		base := modNF(polyOf(inv.A[0]), m)
		for i := 1; i <= deg; i++ {
			pw = append(pw, mulBig(pw[i-1], base, m))
		}
		acc := newAcc()
		for _, mo := range p {
			var rest []*Term
			d := 0
			for _, a := range mo.M {
				if a == inv {
					d++
				} else {
					rest = append(rest, a)
				}
			}
			for _, q := range pw[deg-d] {
				acc.add(new(big.Int).Mul(mo.C, q.C), mergeAtoms(rest, q.M))
			}
		}
		p = modCoef(acc.list(), m)
	}
	return p
}

func modCoef(p []Mono, m *big.Int) []Mono {
	acc := newAcc()
	for _, mo := range p {
		acc.add(new(big.Int).Mod(mo.C, m), mo.M)
	}
	return acc.list()
}

func mulBig(a, b []Mono, m *big.Int) []Mono {
	acc := newAcc()
	for _, x := range a {
		for _, y := range b {
			c := new(big.Int).Mul(x.C, y.C)
			acc.add(c.Mod(c, m), mergeAtoms(x.M, y.M))
		}
	}
	return modCoef(acc.list(), m)
}

// nonZeroFacts: polynomials the path condition states to be non-zero modulo the prime.
func nonZeroFacts(st *State) [][]Mono {
	var out [][]Mono
	for _, c := range st.pc.list() {
		if c.Op != OpNot || c.A[0].Op != OpIEq0 {
			continue
		}
		d := c.A[0].A[0]
		if d.Op == OpIMod && d.V.Cmp(curve.P) == 0 {
			d = d.A[0]
		} else if d.lo == nil || d.hi == nil || d.lo.CmpAbs(curve.P) >= 0 || d.hi.CmpAbs(curve.P) >= 0 {
			continue
		}
		if p := modNF(polyOf(d), curve.P); len(p) > 0 && len(p[len(p)-1].M) > 0 {
			out = append(out, p)
		}
	}
	return out
}

// stripNonZero divides p by factors that are not zero modulo the prime m.
func stripNonZero(p []Mono, facts [][]Mono, m *big.Int) []Mono {
	for {
		p = stripAtoms(p, m)
		if len(p) == 1 && len(p[0].M) == 0 {
			return p
		}
		hit := false
		for _, g := range facts {
			if q, ok := polyDiv(p, g, m); ok {
				p, hit = q, true
				break
			}
		}
		if !hit {
			return p
		}
	}
}

// stripAtoms divides by the atoms common to all terms that are never zero modulo m.
func stripAtoms(p []Mono, m *big.Int) []Mono {
	if len(p) == 0 {
		return p
	}
	for again := true; again; {
		again = false
		for _, a := range p[0].M {
			if a.Op != OpIInv && (a.lo == nil || a.hi == nil || a.lo.Sign() <= 0 || a.hi.Cmp(m) >= 0) {
				continue
			}
			acc := newAcc()
			ok := true
			for _, mo := range p {
				q, o := divAtoms(mo.M, []*Term{a})
				if ok = ok && o; !ok {
					break
				}
				acc.add(mo.C, q)
			}
			if ok {
				p = acc.list()
				again = true
				break
			}
		}
	}
	return p
}

// polyDiv divides f exactly by g over the integers modulo the prime m.
func polyDiv(f, g []Mono, m *big.Int) ([]Mono, bool) {
	lg := g[len(g)-1]
	inv := new(big.Int).ModInverse(lg.C, m)
	if inv == nil || len(lg.M) == 0 {
		return nil, false
	}
	quo := newAcc()
	for steps := 0; len(f) > 0; steps++ {
		lf := f[len(f)-1]
		q, ok := divMono(lf.M, lg.M)
		if !ok || steps > 4000 {
			return nil, false
		}
		c := new(big.Int).Mul(lf.C, inv)
		c.Mod(c, m)
		quo.add(c, q)
		acc := newAcc()
		acc.addPoly(f, big1)
		for _, mo := range g {
			k := new(big.Int).Mul(c, mo.C)
			acc.add(k.Neg(k), mergeAtoms(q, mo.M))
		}
		f = modCoef(acc.list(), m)
	}
	return quo.list(), true
}

func (ex *Exec) fieldContract(exps bool) {
	ex.fieldOn = true
	F := func(name string, f contractFn) {
		ex.ctrOverride["(*"+rootPkg+"/btcec.fieldVal)."+name] = f
	}
	ret := func(c *callCtx) []Value { return []Value{c.args[0]} }
	uintArg := func(v Value) int64 {
		t := v.(*Term)
		if !t.isConst() || t.V.BitLen() > 40 {
			panic(unsup("symbolic small integer in field arithmetic"))
		}
		return t.V.Int64()
	}
	set := func(ex *Exec, st *State, c *callCtx, v fv) []Value {
		if v.mag > fieldMagMax {
			v = ex.fvFresh(st, "magnitude")
		}
		ex.fvStore(st, c.args[0], v)
		return ret(c)
	}
	load := func(t *Term) fv {
		m1 := new(big.Int).Sub(curve.P, big1)
		return fv{p: t, mag: 1, norm: inRange(t, big0, m1)}
	}
	F("Zero", func(ex *Exec, st *State, c *callCtx) []Value {
		ex.fvStore(st, c.args[0], fvConst(0))
		return nil
	})
	F("SetInt", func(ex *Exec, st *State, c *callCtx) []Value {
		n := uintArg(c.args[1])
		if n >= 1<<26 {
			panic(unsup("SetInt of a large integer"))
		}
		return set(ex, st, c, fvConst(n))
	})
	F("SetBytes", func(ex *Exec, st *State, c *callCtx) []Value {
		var bs []*Term
		for _, e := range ex.loadV(st, c.args[1]).(*Array).E {
			bs = append(bs, e.(*Term))
		}
		return set(ex, st, c, load(beInt(bs)))
	})
	F("SetByteSlice", func(ex *Exec, st *State, c *callCtx) []Value {
		t := ex.bytesToInt(st, c.args[1])
		if !inRange(t, big0, maskOf(256)) {
			panic(unsup("field value from more than 32 bytes"))
		}
		return set(ex, st, c, load(t))
	})
	F("SetHex", func(ex *Exec, st *State, c *callCtx) []Value {
		s, ok := ex.resolve(st, c.args[1]).(*Str).goStr()
		v, ok2 := new(big.Int).SetString(s, 16)
		if !ok || !ok2 || len(s) > 64 || len(s)%2 == 1 {
			panic(unsup("SetHex"))
		}
		return set(ex, st, c, load(IntC(v)))
	})
	F("Normalize", func(ex *Exec, st *State, c *callCtx) []Value {
		v := ex.fvLoad(st, c.args[0])
		v.norm, v.mag = true, 1
		return set(ex, st, c, v)
	})
	// raw: the integer a value of magnitude 1 denotes
	raw := func(ex *Exec, st *State, v fv) *Term {
		if v.base != nil {
			v = ex.fvFresh(st, "power")
			v.norm = true
		}
		if !v.norm {
			return IntVar(st.uniq("fieldraw"), big0, maskOf(256))
		}
		return IMod(v.p, curve.P)
	}
	bytesOf := func(ex *Exec, st *State, v fv) *Array {
		t := raw(ex, st, v)
		e := make([]Value, 32)
		for i := range e {
			e[31-i] = byteAt(t, i)
		}
		return &Array{e}
	}
	F("PutBytes", func(ex *Exec, st *State, c *callCtx) []Value {
		ex.storeV(st, c.args[1], bytesOf(ex, st, ex.fvLoad(st, c.args[0])))
		return nil
	})
	F("Bytes", func(ex *Exec, st *State, c *callCtx) []Value {
		arr := bytesOf(ex, st, ex.fvLoad(st, c.args[0]))
		t := c.fn.Signature.Results().At(0).Type()
		return []Value{ex.alloc(st, arr, t.(*types.Pointer).Elem())}
	})
	zero := func(ex *Exec, st *State, v fv) *Term {
		if v.base != nil {
			return ex.zeroMod(st, v.base)
		}
		z := ex.zeroMod(st, v.p)
		if v.norm || z == TFalse {
			return z
		}
		return And(z, Var(st.uniq("fieldzero"), SBool)) // zero or a multiple of the prime
	}
	F("IsZero", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{zero(ex, st, ex.fvLoad(st, c.args[0]))}
	})
	F("IsOdd", func(ex *Exec, st *State, c *callCtx) []Value {
		t := raw(ex, st, ex.fvLoad(st, c.args[0]))
		return []Value{IEq(IMod(t, big.NewInt(2)), IntI(1))}
	})
	F("Equals", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.fvLoad(st, c.args[0]), ex.fvLoad(st, c.args[1])
		if a.base != nil || b.base != nil {
			if b.base != nil {
				a, b = b, a
			}
			// x^e = 1 for every x other than zero when e is a multiple of P-1
			p1 := new(big.Int).Sub(curve.P, big1)
			if b.base == nil && b.p.isConst() && b.p.V.Cmp(big1) == 0 && a.norm && b.norm && a.exp.Sign() > 0 && new(big.Int).Mod(a.exp, p1).Sign() == 0 {
				return []Value{Not(ex.zeroMod(st, a.base))}
			}
			return []Value{Var(st.uniq("fieldequal"), SBool)}
		}
		z := ex.zeroMod(st, ISub(a.p, b.p))
		if z != TFalse && !(a.norm && b.norm) {
			z = And(z, Var(st.uniq("fieldequal"), SBool))
		}
		return []Value{z}
	})
	neg := func(ex *Exec, st *State, c *callCtx, v fv, m int64) []Value {
		if v.base != nil {
			v = ex.fvFresh(st, "power")
		}
		if v.mag > m || m < 0 {
			return set(ex, st, c, ex.fvFresh(st, "negate"))
		}
		return set(ex, st, c, fv{p: INeg(v.p), mag: m + 1})
	}
	F("NegateVal", func(ex *Exec, st *State, c *callCtx) []Value {
		return neg(ex, st, c, ex.fvLoad(st, c.args[1]), uintArg(c.args[2]))
	})
	F("Negate", func(ex *Exec, st *State, c *callCtx) []Value {
		return neg(ex, st, c, ex.fvLoad(st, c.args[0]), uintArg(c.args[1]))
	})
	plain := func(ex *Exec, st *State, v fv) fv {
		if v.base != nil {
			return ex.fvFresh(st, "power")
		}
		return v
	}
	add := func(a, b int) contractFn {
		return func(ex *Exec, st *State, c *callCtx) []Value {
			x, y := plain(ex, st, ex.fvLoad(st, c.args[a])), plain(ex, st, ex.fvLoad(st, c.args[b]))
			return set(ex, st, c, fv{p: IAdd(x.p, y.p), mag: x.mag + y.mag})
		}
	}
	F("Add", add(0, 1))
	F("Add2", add(1, 2))
	F("AddInt", func(ex *Exec, st *State, c *callCtx) []Value {
		x, n := plain(ex, st, ex.fvLoad(st, c.args[0])), uintArg(c.args[1])
		if n >= 1<<26 {
			return set(ex, st, c, ex.fvFresh(st, "AddInt"))
		}
		return set(ex, st, c, fv{p: IAdd(x.p, IntI(n)), mag: x.mag + 1})
	})
	F("MulInt", func(ex *Exec, st *State, c *callCtx) []Value {
		x, n := plain(ex, st, ex.fvLoad(st, c.args[0])), uintArg(c.args[1])
		m := x.mag * n
		if n > fieldMagMax {
			m = fieldMagMax + 1
		}
		if m < 1 {
			m = 1
		}
		return set(ex, st, c, fv{p: IMul(x.p, IntI(n)), mag: m})
	})
	mul := func(a, b int) contractFn {
		return func(ex *Exec, st *State, c *callCtx) []Value {
			x, y := ex.fvLoad(st, c.args[a]), ex.fvLoad(st, c.args[b])
			if x.mag > 8 || y.mag > 8 {
				return set(ex, st, c, ex.fvFresh(st, "product"))
			}
			if exps {
				pw := func(v fv) (*Term, *big.Int) {
					if v.base != nil {
						return v.base, v.exp
					}
					return v.p, big1
				}
				bx, ex1 := pw(x)
				by, ey := pw(y)
				if bx != by {
					return set(ex, st, c, ex.fvFresh(st, "power"))
				}
				return set(ex, st, c, fv{base: bx, exp: new(big.Int).Add(ex1, ey), mag: 1})
			}
			return set(ex, st, c, fv{p: IMul(fpoly(x.p), fpoly(y.p)), mag: 1})
		}
	}
	F("Mul", mul(0, 1))
	F("Mul2", mul(1, 2))
	F("Square", mul(0, 0))
	F("SquareVal", mul(1, 1))
	if exps {
		return
	}
	F("Inverse", func(ex *Exec, st *State, c *callCtx) []Value {
		v := ex.fvLoad(st, c.args[0])
		if v.mag > 8 {
			return set(ex, st, c, ex.fvFresh(st, "inverse"))
		}
		if ex.decide(st, ex.zeroMod(st, v.p)) {
			return set(ex, st, c, fv{p: IntI(0), mag: 1})
		}
		return set(ex, st, c, fv{p: IInv(v.p, curve.P), mag: 1})
	})
}

// ---------- group elements

// contract points: Jacobian points as multiples of the points the harness draws (shown by P21:
// addition and doubling of any two points; the endomorphism (x, y) -> (beta x, y) multiplies by
// lambda, shown by P22 for the constants). contract digits: splitK and NAF return any digits, for
// the scalars they stand for (shown by P22).

var (
	linIte    bool // merge integers as b + [c](a-b)
	endoBeta  = hexInt("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE")
	endoLam   = hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
	realGx    = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	realGy    = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
	pointTags = [3]*Term{}
)

func hexInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

func init() {
	for i := range pointTags {
		pointTags[i] = BVu(uint64(0x50+i), 8)
	}
	contracts["points"] = pointsContract
	contracts["digits"] = digitsContract
	contracts["opaque"] = func(ex *Exec) { opaqueOn = true }
}

// tagged: a coordinate of a point held by its logarithm.
func (ex *Exec) tagged(st *State, p Value) (a *Term, which int) {
	v := ex.loadV(st, p)
	if c, ok := v.(*Choice); ok {
		v = ex.resolve(st, c)
	}
	e := v.(*Struct).F[0].(*Array).E
	t, ok := e[2].(*Term)
	if !ok {
		return nil, 0
	}
	for i, g := range pointTags {
		if t == g {
			return e[0].(*Term), i
		}
	}
	return nil, 0
}

func (ex *Exec) setTagged(st *State, p Value, a *Term, which int) {
	v := ex.loadV(st, p)
	if c, ok := v.(*Choice); ok {
		v = ex.resolve(st, c)
	}
	s := v.(*Struct)
	e := make([]Value, 10)
	for i := range e {
		e[i] = BVu(0, 32)
	}
	e[0], e[1], e[2] = a, BVu(3, 32), pointTags[which]
	f := append([]Value{}, s.F...)
	f[0] = &Array{e}
	ex.storeV(st, p, &Struct{f})
}

func linN(t *Term) *Term { return fromPoly(modCoef(polyOf(t), curve.N)) }

// pointLog: the logarithm of the point with the given Jacobian coordinates.
func (ex *Exec) pointLog(st *State, X, Y, Z Value) *Term {
	ax, ix := ex.tagged(st, X)
	ay, iy := ex.tagged(st, Y)
	az, iz := ex.tagged(st, Z)
	if ax != nil && ax == ay && ax == az && ix == 0 && iy == 1 && iz == 2 {
		return ax
	}
	x, y, z := ex.fvLoad(st, X), ex.fvLoad(st, Y), ex.fvLoad(st, Z)
	if z.p.isConst() && z.p.V.Sign() == 0 || isZero(x.p) && isZero(y.p) {
		return IntI(0)
	}
	unknown := func() *Term {
		return IntVar(st.uniq("pointlog"), big0, new(big.Int).Sub(curve.N, big1))
	}
	if !z.p.isConst() || z.p.V.Cmp(big1) != 0 || x.mag > 2 || y.mag > 2 {
		return unknown()
	}
	return affineLog(x.p, y.p, unknown)
}

func affineLog(x, y *Term, unknown func() *Term) *Term {
	if isZero(x) && isZero(y) {
		return IntI(0)
	}
	if x.isConst() && x.V.Cmp(realGx) == 0 && y.isConst() {
		if y.V.Cmp(realGy) == 0 {
			return IntI(1)
		}
		if new(big.Int).Add(y.V, realGy).Cmp(curve.P) == 0 {
			return IntC(new(big.Int).Sub(curve.N, big1))
		}
	}
	px, py := polyOf(x), polyOf(y)
	if len(px) != 1 || len(py) != 1 || len(px[0].M) != 1 || len(py[0].M) != 1 {
		return unknown()
	}
	u, v := px[0].M[0], py[0].M[0]
	if u.Op != OpPX || v.Op != OpPY || mkPXY(OpPX, v.A[0]) != u {
		return unknown()
	}
	k := v.A[0]
	b2 := new(big.Int).Mul(endoBeta, endoBeta)
	switch c := new(big.Int).Mod(px[0].C, curve.P); {
	case c.Cmp(big1) == 0:
	case c.Cmp(endoBeta) == 0:
		k = IMul(k, IntC(endoLam))
	case c.Cmp(b2.Mod(b2, curve.P)) == 0:
		k = IMul(k, IntC(new(big.Int).Mul(endoLam, endoLam)))
	default:
		return unknown()
	}
	switch c := new(big.Int).Mod(py[0].C, curve.P); {
	case c.Cmp(big1) == 0:
	case new(big.Int).Add(c, big1).Cmp(curve.P) == 0:
		k = INeg(k)
	default:
		return unknown()
	}
	return linN(k)
}

func pointsContract(ex *Exec) {
	ex.fieldContract(false)
	linIte = true
	C := func(name string, f contractFn) {
		ex.ctrOverride["(*"+rootPkg+"/btcec.KoblitzCurve)."+name] = f
	}
	put := func(ex *Exec, st *State, ps []Value, a *Term) {
		a = linN(a)
		for i, p := range ps {
			ex.setTagged(st, p, a, i)
		}
	}
	C("addJacobian", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.pointLog(st, c.args[1], c.args[2], c.args[3])
		q := ex.pointLog(st, c.args[4], c.args[5], c.args[6])
		put(ex, st, c.args[7:10], IAdd(p, q))
		return nil
	})
	C("doubleJacobian", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.pointLog(st, c.args[1], c.args[2], c.args[3])
		put(ex, st, c.args[4:7], IMul(p, IntI(2)))
		return nil
	})
	C("fieldJacobianToBigAffine", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.pointLog(st, c.args[1], c.args[2], c.args[3])
		return ex.point(st, IMod(p, curve.N))
	})
}

// digitBits: n signed binary digits in the two's positions of positive and negative bytes; a digit
// is never both.
func digitBits(name string, n int) (pos, neg []*Term, val *Term) {
	acc := IntI(0)
	w := pow2(8 * n)
	for i := 0; i < n; i++ {
		var p, q *Term
		for j := 7; j >= 0; j-- {
			w = new(big.Int).Rsh(w, 1)
			a := Var(fmt.Sprintf("%s_p%d_%d", name, i, j), SBV(1))
			b := Var(fmt.Sprintf("%s_n%d_%d", name, i, j), SBV(1))
			ia, ib := indLin(Eq(a, BVu(1, 1))), indLin(Eq(b, BVu(1, 1)))
			acc = IAdd(acc, IMul(IntC(w), ISub(ia, ib)))
			if p == nil {
				p, q = a, b
			} else {
				p, q = Concat(p, a), Concat(q, b)
			}
		}
		pos, neg = append(pos, p), append(neg, q)
	}
	return pos, neg, acc
}

// indLin: the polynomial that is 1 where c holds and 0 elsewhere.
func indLin(c *Term) *Term {
	switch {
	case c == TTrue:
		return IntI(1)
	case c == TFalse:
		return IntI(0)
	case c.Op == OpNot:
		return ISub(IntI(1), indLin(c.A[0]))
	case c.Op == OpAnd:
		r := IntI(1)
		for _, x := range c.A {
			r = digitNF(IMul(r, indLin(x)))
		}
		return r
	case c.Op == OpOr:
		r := IntI(1)
		for _, x := range c.A {
			r = digitNF(IMul(r, ISub(IntI(1), indLin(x))))
		}
		return ISub(IntI(1), r)
	}
	if c.Op == OpEq {
		for i, a := range c.A {
			// x & 2^k = 2^k, x & 2^k = 0: a bit
			if b := c.A[1-i]; a.Op == OpBAnd && b.isConst() {
				for j, m := range a.A {
					if m.isConst() && m.V.Sign() > 0 && m.V.Cmp(pow2(m.V.BitLen()-1)) == 0 && (b.V.Cmp(m.V) == 0 || b.V.Sign() == 0) {
						k := m.V.BitLen() - 1
						r := indLin(Eq(Extract(a.A[1-j], k, k), BVu(1, 1)))
						if b.V.Sign() == 0 {
							r = ISub(IntI(1), r)
						}
						return r
					}
				}
			}
		}
		if a := c.A[0]; a.S.K == KBV && a.S.W == 1 && c.A[1].isConst() && c.A[1].V.Sign() == 0 {
			return ISub(IntI(1), indLin(Eq(a, BVu(1, 1))))
		}
	}
	return mk(Term{Op: OpIte, S: SInt, A: []*Term{c, IntI(1), IntI(0)}})
}

// digitNF: indicators are idempotent, and a positive and a negative digit in one place exclude
// each other.
func digitNF(t *Term) *Term {
	name := func(a *Term) string {
		if a.Op == OpIte && a.A[0].Op == OpEq {
			for _, v := range a.A[0].A {
				if v.Op == OpVar {
					return v.N
				}
			}
		}
		return ""
	}
	acc := newAcc()
	for _, mo := range polyOf(t) {
		var m []*Term
		zero := false
		for i, a := range mo.M {
			if i > 0 && a == mo.M[i-1] && a.Op == OpIte {
				continue
			}
			if n := name(a); n != "" {
				for _, b := range m {
					if o := name(b); o != "" && len(o) == len(n) && o != n && strings.Replace(o, "_n", "_p", 1) == strings.Replace(n, "_n", "_p", 1) {
						zero = true
					}
				}
			}
			m = append(m, a)
		}
		if !zero {
			acc.add(mo.C, m)
		}
	}
	return fromPoly(acc.list())
}

func digitsContract(ex *Exec) {
	byteT := types.Typ[types.Uint8]
	mkSlice := func(ex *Exec, st *State, bs []*Term) *Slice {
		s := ex.newSlice(st, byteT, len(bs), len(bs))
		arr := make([]Value, len(bs))
		for i, b := range bs {
			arr[i] = b
		}
		if len(bs) > 0 {
			ex.storeV(st, &Ptr{Obj: s.Arr.Obj}, &Array{arr})
		}
		return s
	}
	pick := func(ex *Exec, st *State, name string, lo, hi int64) int64 {
		v := Var(name, SBV(16))
		var conds []*Term
		for i := lo; i <= hi; i++ {
			c := Eq(v, BVi(i, 16))
			if st.simp(c) == TTrue || lo == hi {
				return i
			}
			conds = append(conds, c)
		}
		panic(choiceReq{name, conds})
	}
	ex.ctrOverride["(*"+rootPkg+"/btcec.KoblitzCurve).splitK"] = func(ex *Exec, st *State, c *callCtx) []Value {
		k := ex.bytesToInt(st, c.args[1])
		max := int64(ex.digitsMax)
		var outs []Value
		sum := IntI(0)
		var signs []Value
		for i := 1; i <= 2; i++ {
			s := pick(ex, st, fmt.Sprintf("sign%d", i), -1, 1)
			n := int64(0)
			if s != 0 {
				n = pick(ex, st, fmt.Sprintf("len%d", i), int64(ex.digitsMin), max)
			}
			grow := int64(0)
			if n > 0 {
				grow = pick(ex, st, fmt.Sprintf("carry%d", i), 0, 1)
			}
			pos, neg, v := digitBits(fmt.Sprintf("naf%d", i), int(n+grow))
			var bs []*Term
			for j := int64(0); j < n; j++ {
				bs = append(bs, Var(fmt.Sprintf("k%d_%d", i, j), SBV(8)))
			}
			out := mkSlice(ex, st, bs)
			id := 0
			if out.Arr != nil {
				id = out.Arr.Obj
			}
			key := fmt.Sprintf("naf:%d:%d", id, n)
			st.hooks[key] = &Tuple{[]Value{mkSlice(ex, st, pos), mkSlice(ex, st, neg)}}
			outs = append(outs, out)
			signs = append(signs, BVi(s, 64))
			v = IMul(v, IntI(s))
			if i == 2 {
				v = IMul(v, IntC(endoLam))
			}
			sum = IAdd(sum, v)
		}
		st.hooks["split:k"] = k
		st.hooks["split:sum"] = sum
		return append(outs, signs...)
	}
	ex.ctrOverride[rootPkg+"/btcec.NAF"] = func(ex *Exec, st *State, c *callCtx) []Value {
		s := ex.resolve(st, c.args[0]).(*Slice)
		id := 0
		if s.Arr != nil {
			id = s.Arr.Obj
		}
		t, ok := st.hooks[fmt.Sprintf("naf:%d:%d", id, s.Len.V.Int64())]
		if !ok || !isZero(s.Off) {
			panic(unsup("NAF of another value than the split scalar"))
		}
		return append([]Value{}, t.(*Tuple).V...)
	}
}

// isMultiple: point (rx, ry) is k times (bx, by).
func (ex *Exec) isMultiple(st *State, rx, ry, bx, by, k *Term) *Term {
	bad := false
	unknown := func() *Term { bad = true; return IntI(0) }
	r, b := affineLog(rx, ry, unknown), affineLog(bx, by, unknown)
	if bad {
		return Var(st.uniq("multiple"), SBool)
	}
	if os.Getenv("GOSYM_ASSERT") != "" {
		fmt.Fprintf(os.Stderr, "MULTIPLE r=%.1500s\n  b=%s\n x=%.300s\n", r.str(12), b, rx.str(5))
	}
	ok := TTrue
	if s, y := st.hooks["split:sum"].(*Term); y {
		ok = ieq0mod(ISub(st.hooks["split:k"].(*Term), k), curve.N)
		k = s
	}
	return And(ok, ieq0mod(digitNF(ISub(r, IMul(b, k))), curve.N))
}
