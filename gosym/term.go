package main

// Hash-consed terms over Bool, BV(w) and Int, with simplification.
// Int terms are kept in polynomial normal form with interval bounds.

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KInt
)

type Sort struct {
	K Kind
	W int
}

var (
	SBool = Sort{KBool, 0}
	SInt  = Sort{KInt, 0}
)

func SBV(w int) Sort { return Sort{KBV, w} }

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq  // bv or bool args
	OpIte // any sort
	// bv
	OpAdd
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpConcat
	OpExtract // hi=I1 lo=I2
	OpZext
	OpSext
	// int
	OpPoly
	OpIMod // A0 mod V
	OpIDiv // floor(A0 / V)
	OpIInv // inverse of A0 mod V
	OpIGe0 // A0 >= 0
	OpIEq0 // A0 == 0
	OpBV2I
	OpI2BV // width S.W
	OpPX   // toy/abstract curve coordinates of dlog A0
	OpPY
	OpUF // uninterpreted function N over args; sort S
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat"}

type Mono struct {
	C *big.Int
	M []*Term // sorted by id, repetition = power
}

type Term struct {
	Op     Op
	S      Sort
	A      []*Term
	V      *big.Int
	N      string
	I1, I2 int
	P      []Mono
	id     int64
	lo, hi *big.Int
	depth  int
}

type termKey struct {
	op         Op
	s          Sort
	a0, a1, a2 int64
	n          string
}

var (
	termTab  = map[termKey]*Term{}
	termNext int64
	big0     = big.NewInt(0)
	big1     = big.NewInt(1)
	big2     = big.NewInt(2)
)

func ids(a []*Term) string {
	var sb strings.Builder
	for _, t := range a {
		sb.WriteString(strconv.FormatInt(t.id, 36))
		sb.WriteByte(',')
	}
	return sb.String()
}

func mk(t Term) *Term {
	k := termKey{op: t.Op, s: t.S}
	if len(t.A) <= 3 {
		if len(t.A) > 0 {
			k.a0 = t.A[0].id
		}
		if len(t.A) > 1 {
			k.a1 = t.A[1].id
		}
		if len(t.A) > 2 {
			k.a2 = t.A[2].id
		}
		if len(t.A) == 0 {
			k.a0 = -1
		}
	} else {
		k.n = ids(t.A)
	}
	switch t.Op {
	case OpConst, OpIMod, OpIDiv, OpIInv:
		k.n = t.V.Text(62)
	case OpVar, OpUF:
		k.n = t.N + "|" + k.n
	case OpExtract:
		k.n = strconv.Itoa(t.I1) + ":" + strconv.Itoa(t.I2)
	case OpPoly:
		var sb strings.Builder
		for _, m := range t.P {
			sb.WriteString(m.C.Text(62))
			sb.WriteByte('*')
			sb.WriteString(ids(m.M))
			sb.WriteByte(';')
		}
		k.n = sb.String()
	}
	if r, ok := termTab[k]; ok {
		return r
	}
	termNext++
	r := new(Term)
	*r = t
	r.id = termNext
	d := 0
	for _, a := range r.A {
		if a.depth > d {
			d = a.depth
		}
	}
	for _, m := range r.P {
		for _, a := range m.M {
			if a.depth > d {
				d = a.depth
			}
		}
	}
	r.depth = d + 1
	if r.S.K == KInt {
		r.setInterval()
	}
	termTab[k] = r
	return r
}

func (t *Term) isConst() bool { return t.Op == OpConst }

// ---------- constants, variables

var (
	TTrue  = mk(Term{Op: OpConst, S: SBool, V: big1})
	TFalse = mk(Term{Op: OpConst, S: SBool, V: big0})
)

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func maskOf(w int) *big.Int {
	m := new(big.Int).Lsh(big1, uint(w))
	return m.Sub(m, big1)
}

func BVc(v *big.Int, w int) *Term {
	x := new(big.Int).And(v, maskOf(w))
	return mk(Term{Op: OpConst, S: SBV(w), V: x})
}
func BVu(v uint64, w int) *Term { return BVc(new(big.Int).SetUint64(v), w) }
func BVi(v int64, w int) *Term  { return BVc(big.NewInt(v), w) }

func IntC(v *big.Int) *Term { return mk(Term{Op: OpConst, S: SInt, V: new(big.Int).Set(v)}) }
func IntI(v int64) *Term    { return IntC(big.NewInt(v)) }

type varInfo struct {
	t      *Term
	lo, hi *big.Int
}

var varTab = map[string]*varInfo{}

func Var(name string, s Sort) *Term {
	if v, ok := varTab[name]; ok {
		if v.t.S != s {
			panic("var sort mismatch " + name)
		}
		return v.t
	}
	t := mk(Term{Op: OpVar, S: s, N: name})
	varTab[name] = &varInfo{t: t}
	return t
}

// IntVar declares an integer variable with inclusive bounds (nil = none).
func IntVar(name string, lo, hi *big.Int) *Term {
	base := name
	for k := 2; ; k++ {
		v, ok := varTab[name]
		if !ok {
			break
		}
		if v.t.S == SInt && sameBound(v.lo, lo) && sameBound(v.hi, hi) {
			return v.t
		}
		// another path drew this name with other bounds: a variable of its own (modelVars drops the suffix)
		name = fmt.Sprintf("%s~%d", base, k)
	}
	varTab[name] = &varInfo{lo: lo, hi: hi}
	t := mk(Term{Op: OpVar, S: SInt, N: name})
	varTab[name].t = t
	return t
}

func sameBound(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

// signed value of BV constant
func (t *Term) sval() *big.Int {
	if t.V.Bit(t.S.W-1) == 1 {
		return new(big.Int).Sub(t.V, new(big.Int).Lsh(big1, uint(t.S.W)))
	}
	return t.V
}

// ---------- booleans

func Not(a *Term) *Term {
	switch {
	case a == TTrue:
		return TFalse
	case a == TFalse:
		return TTrue
	case a.Op == OpNot:
		return a.A[0]
	}
	return mk(Term{Op: OpNot, S: SBool, A: []*Term{a}})
}

func And(xs ...*Term) *Term { return andor(OpAnd, xs) }
func Or(xs ...*Term) *Term  { return andor(OpOr, xs) }

func andor(op Op, xs []*Term) *Term {
	unit, zero := TTrue, TFalse
	dual := OpOr
	if op == OpOr {
		unit, zero = TFalse, TTrue
		dual = OpAnd
	}
	var out []*Term
	seen := map[int64]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.A {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	// absorption: for dual-op children, drop literals whose negation is present; drop child if literal present
	for again := true; again; {
		again = false
		for i, t := range out {
			// child t is dual op, or its negation is op (not(and..)) -> treat as dual of negations
			var lits []*Term
			if t.Op == dual {
				lits = t.A
			} else if t.Op == OpNot && t.A[0].Op == op {
				for _, a := range t.A[0].A {
					lits = append(lits, Not(a))
				}
			} else {
				continue
			}
			var keep []*Term
			drop := false
			for _, l := range lits {
				if seen[l.id] {
					drop = true
					break
				}
				if seen[Not(l).id] {
					continue
				}
				keep = append(keep, l)
			}
			if drop {
				delete(seen, t.id)
				out = append(append([]*Term{}, out[:i]...), out[i+1:]...)
				again = true
				break
			}
			if len(keep) != len(lits) {
				delete(seen, t.id)
				out = append(append([]*Term{}, out[:i]...), out[i+1:]...)
				var nt *Term
				if dual == OpOr {
					nt = Or(keep...)
				} else {
					nt = And(keep...)
				}
				if !add(nt) {
					return zero
				}
				again = true
				break
			}
		}
	}
	if curve.on && len(out) > 1 {
		if r := fusePX(out, op == OpOr); r != nil {
			return andor(op, r)
		}
	}
	// or(and(c,rest), and(not c,rest)) -> rest (pairwise)
	if len(out) == 2 && out[0].Op == dual && out[1].Op == dual {
		s0 := map[int64]bool{}
		for _, a := range out[0].A {
			s0[a.id] = true
		}
		var common, d1 []*Term
		for _, a := range out[1].A {
			if s0[a.id] {
				common = append(common, a)
				delete(s0, a.id)
			} else {
				d1 = append(d1, a)
			}
		}
		if len(common) > 0 {
			var d0 []*Term
			for _, a := range out[0].A {
				if s0[a.id] {
					d0 = append(d0, a)
				}
			}
			var inner *Term
			if op == OpOr {
				inner = Or(And(d0...), And(d1...))
				return And(append(common, inner)...)
			}
			inner = And(Or(d0...), Or(d1...))
			return Or(append(common, inner)...)
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(Term{Op: op, S: SBool, A: out})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term { return iteX(c, a, b, false) }

// iteX builds an if-then-else; with sign set, a and b are discrete logarithms of
// which only the class {k, -k} matters (the argument of an x coordinate).
func iteX(c, a, b *Term, sign bool) *Term {
	if a == b || c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sort mismatch %v %v", a.S, b.S))
	}
	if c.Op == OpNot {
		return iteX(c.A[0], b, a, sign)
	}
	if a.Op == OpIte && a.A[0] == c {
		a = a.A[1]
	}
	if b.Op == OpIte && b.A[0] == c {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	if a.S.K == KBool {
		switch {
		case a == TTrue:
			return Or(c, b)
		case a == TFalse:
			return And(Not(c), b)
		case b == TTrue:
			return Or(Not(c), a)
		case b == TFalse:
			return And(c, a)
		}
		if a == Not(b) {
			return Not(Xor(c, a))
		}
	}
	if a.Op == OpIte && b.Op != OpIte && (a.A[2] == b) {
		return iteX(And(c, a.A[0]), a.A[1], b, sign)
	}
	if a.Op == OpIte && (a.A[1] == b) {
		return iteX(And(c, Not(a.A[0])), a.A[2], b, sign)
	}
	if b.Op == OpIte && b.A[1] == a {
		return iteX(Or(c, b.A[0]), a, b.A[2], sign)
	}
	if b.Op == OpIte && b.A[2] == a {
		return iteX(Or(c, Not(b.A[0])), a, b.A[1], sign)
	}
	if a.S.K == KInt && linIte && !(px(a) && px(b)) && !(a.isConst() && b.isConst()) {
		return digitNF(IAdd(b, IMul(indLin(c), ISub(a, b))))
	}
	if a.S.K == KInt {
		if px(a) && px(b) && (a.Op == b.Op || a.isConst() || b.isConst()) {
			op := a.Op
			if a.isConst() {
				op = b.Op
			}
			ka, kb := dlOf(a), dlOf(b)
			if op != OpConst {
				return mkPXY(op, iteX(c, ka, kb, op == OpPX))
			}
		}
		if curve.on && iteDepth < 6 {
			if r := nestedIte(c, a, b, sign); r != nil {
				return r
			}
		}
		if collapseIte(c, a, b, sign) {
			return b
		}
		if collapseIte(Not(c), a, b, sign) {
			return a
		}
		if collapseCubes(c, a, b, sign) || collapseCtx(c, a, b, sign) {
			return b
		}
		if collapseCubes(Not(c), a, b, sign) {
			return a
		}
		// ite over v==const collapse: ite(v=k, X, Y) with Y[v:=k]==X
		if c.Op == OpIEq0 {
			if s := substEq(c, b); s != nil && s == a {
				return b
			}
		}
	}
	r := mk(Term{Op: OpIte, S: a.S, A: []*Term{c, a, b}})
	if dbgIte && curve.on && a.S.K == KInt {
		if strconv.FormatInt(r.id, 10) == os.Getenv("GOSYM_ITE") {
			debug.PrintStack()
		}
		fmt.Fprintf(os.Stderr, "ITE %d sign=%v\n  c=%.600s\n  a=%.600s\n  b=%.600s\n", r.id, sign, c.str(12), a.str(12), b.str(12))
	}
	return r
}

var dbgIte = os.Getenv("GOSYM_ITE") != ""

// px reports whether t is a curve coordinate (PX/PY application or the constant 0, which is both of the identity)
func px(t *Term) bool {
	return t.Op == OpPX || t.Op == OpPY || (t.isConst() && t.V.Sign() == 0)
}
func dlOf(t *Term) *Term {
	if t.isConst() {
		return IntI(0)
	}
	return t.A[0]
}

func Xor(a, b *Term) *Term {
	if a.isConst() {
		if a == TTrue {
			return Not(b)
		}
		return b
	}
	if b.isConst() {
		return Xor(b, a)
	}
	return Not(Eq(a, b))
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sort mismatch %v %v: %s %s", a.S, b.S, a, b))
	}
	if a.S.K == KInt {
		return IEq(a, b)
	}
	if a.isConst() && b.isConst() {
		return Bool(a.V.Cmp(b.V) == 0)
	}
	if a.S.K == KBV {
		if x, y, ok := w2(a, b); ok {
			return IEq(x, y)
		}
	}
	if a.S.K == KBool {
		if a.isConst() {
			a, b = b, a
		}
		if b == TTrue {
			return a
		}
		if b == TFalse {
			return Not(a)
		}
		if a == Not(b) {
			return TFalse
		}
		if a.Op == OpNot && b.Op == OpNot {
			return Eq(a.A[0], b.A[0])
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.Op {
		case OpIte:
			if a.A[1].isConst() || a.A[2].isConst() {
				return Ite(a.A[0], Eq(a.A[1], b), Eq(a.A[2], b))
			}
		case OpZext:
			in := a.A[0]
			if b.V.BitLen() > in.S.W {
				return TFalse
			}
			return Eq(in, BVc(b.V, in.S.W))
		case OpConcat:
			lw := a.A[1].S.W
			return And(Eq(a.A[0], BVc(new(big.Int).Rsh(b.V, uint(lw)), a.A[0].S.W)), Eq(a.A[1], BVc(b.V, lw)))
		case OpBXor:
			if a.A[1].isConst() {
				return Eq(a.A[0], BXor(a.A[1], b))
			}
		case OpAdd:
			if a.A[1].isConst() {
				return Eq(a.A[0], Sub(b, a.A[1]))
			}
		}
	}
	if a.Op == OpConcat && b.Op == OpConcat && a.A[1].S.W == b.A[1].S.W {
		return And(Eq(a.A[0], b.A[0]), Eq(a.A[1], b.A[1]))
	}
	if a.Op == OpZext && b.Op == OpZext && a.A[0].S == b.A[0].S {
		return Eq(a.A[0], b.A[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return mk(Term{Op: OpEq, S: SBool, A: []*Term{a, b}})
}

// ---------- bit-vectors

func bv2(op Op, a, b *Term) *Term {
	if a.S != b.S || a.S.K != KBV {
		panic(fmt.Sprintf("bv op %v sorts %v %v", opNames[op], a.S, b.S))
	}
	return mk(Term{Op: op, S: a.S, A: []*Term{a, b}})
}

func isZero(t *Term) bool { return t.isConst() && t.V.Sign() == 0 }
func isOnes(t *Term) bool { return t.isConst() && t.V.Cmp(maskOf(t.S.W)) == 0 }

func Add(a, b *Term) *Term {
	if x, y, ok := w2(a, b); ok {
		if r := wFit(IAdd(x, y), a.S.W); r != nil {
			return r
		}
	}
	if a.isConst() && b.isConst() {
		return BVc(new(big.Int).Add(a.V, b.V), a.S.W)
	}
	if a.isConst() {
		a, b = b, a
	}
	if isZero(b) {
		return a
	}
	if b.isConst() && a.Op == OpAdd && a.A[1].isConst() {
		return Add(a.A[0], BVc(new(big.Int).Add(a.A[1].V, b.V), a.S.W))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	if b.isConst() && a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() {
		return Ite(a.A[0], Add(a.A[1], b), Add(a.A[2], b))
	}
	return bv2(OpAdd, a, b)
}
func Neg(a *Term) *Term {
	if a.isConst() {
		return BVc(new(big.Int).Neg(a.V), a.S.W)
	}
	if a.Op == OpNeg {
		return a.A[0]
	}
	return mk(Term{Op: OpNeg, S: a.S, A: []*Term{a}})
}
func Sub(a, b *Term) *Term {
	if x, y, ok := w2(a, b); ok {
		if r := wFit(ISub(x, y), a.S.W); r != nil {
			return r
		}
	}
	if a == b {
		return BVu(0, a.S.W)
	}
	if b.isConst() {
		return Add(a, Neg(b))
	}
	return Add(a, Neg(b))
}
func Mul(a, b *Term) *Term {
	if x, y, ok := w2(a, b); ok {
		if r := wFit(IMul(x, y), a.S.W); r != nil {
			return r
		}
	}
	if a.isConst() && b.isConst() {
		return BVc(new(big.Int).Mul(a.V, b.V), a.S.W)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.V.Sign() == 0 {
			return b
		}
		if b.V.Cmp(big1) == 0 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return bv2(OpMul, a, b)
}
func BVDivRem(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.V.Sign() != 0 {
		switch op {
		case OpUDiv:
			return BVc(new(big.Int).Quo(a.V, b.V), a.S.W)
		case OpURem:
			return BVc(new(big.Int).Rem(a.V, b.V), a.S.W)
		case OpSDiv:
			return BVc(new(big.Int).Quo(a.sval(), b.sval()), a.S.W)
		case OpSRem:
			return BVc(new(big.Int).Rem(a.sval(), b.sval()), a.S.W)
		}
	}
	return bv2(op, a, b)
}
func BAnd(a, b *Term) *Term {
	if x, y, ok := w2(a, b); ok {
		if x.isConst() {
			x, y = y, x
		}
		if k := y.V; y.isConst() && maskOf(k.BitLen()).Cmp(k) == 0 {
			return mkI2BV(wLow(x, k.BitLen()), a.S.W)
		}
	}
	if a.isConst() && b.isConst() {
		return BVc(new(big.Int).And(a.V, b.V), a.S.W)
	}
	if a.isConst() {
		a, b = b, a
	}
	if isZero(b) {
		return b
	}
	if isOnes(b) || a == b {
		return a
	}
	if b.isConst() {
		// low mask -> zext(extract)
		n := b.V.BitLen()
		if maskOf(n).Cmp(b.V) == 0 && n < a.S.W {
			return Zext(Extract(a, n-1, 0), a.S.W)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return bv2(OpBAnd, a, b)
}
func BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return BVc(new(big.Int).Or(a.V, b.V), a.S.W)
	}
	if a.isConst() {
		a, b = b, a
	}
	if isZero(b) || a == b {
		return a
	}
	if isOnes(b) {
		return b
	}
	// or of disjoint pieces -> concat
	if r := orConcat(a, b); r != nil {
		return r
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return bv2(OpBOr, a, b)
}

// pieces decomposes t into concat pieces (hi first); zero pieces are constants 0.
func pieces(t *Term) []*Term {
	switch t.Op {
	case OpConcat:
		return append(pieces(t.A[0]), pieces(t.A[1])...)
	case OpZext:
		return append([]*Term{BVu(0, t.S.W-t.A[0].S.W)}, pieces(t.A[0])...)
	}
	return []*Term{t}
}

func orConcat(a, b *Term) *Term {
	if (a.Op != OpConcat && a.Op != OpZext) || (b.Op != OpConcat && b.Op != OpZext && !b.isConst()) {
		return nil
	}
	pa, pb := pieces(a), pieces(b)
	var out []*Term
	ia, ib := 0, 0
	for ia < len(pa) && ib < len(pb) {
		x, y := pa[ia], pb[ib]
		w := x.S.W
		if y.S.W < w {
			w = y.S.W
		}
		if x.S.W > w {
			if !x.isConst() {
				return nil
			}
			pa[ia] = Extract(x, x.S.W-w-1, 0)
			x = Extract(x, x.S.W-1, x.S.W-w)
		} else {
			ia++
		}
		if y.S.W > w {
			if !y.isConst() {
				return nil
			}
			pb[ib] = Extract(y, y.S.W-w-1, 0)
			y = Extract(y, y.S.W-1, y.S.W-w)
		} else {
			ib++
		}
		switch {
		case isZero(x):
			out = append(out, y)
		case isZero(y):
			out = append(out, x)
		default:
			return nil
		}
	}
	r := out[0]
	for _, t := range out[1:] {
		r = Concat(r, t)
	}
	return r
}

func BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return BVc(new(big.Int).Xor(a.V, b.V), a.S.W)
	}
	if a.isConst() {
		a, b = b, a
	}
	if isZero(b) {
		return a
	}
	if a == b {
		return BVu(0, a.S.W)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	if a.Op == OpBXor {
		if a.A[0] == b {
			return a.A[1]
		}
		if a.A[1] == b {
			return a.A[0]
		}
	}
	if b.Op == OpBXor {
		if b.A[0] == a {
			return b.A[1]
		}
		if b.A[1] == a {
			return b.A[0]
		}
	}
	return bv2(OpBXor, a, b)
}
func BNot(a *Term) *Term {
	if a.isConst() {
		return BVc(new(big.Int).Xor(a.V, maskOf(a.S.W)), a.S.W)
	}
	if a.Op == OpBNot {
		return a.A[0]
	}
	return mk(Term{Op: OpBNot, S: a.S, A: []*Term{a}})
}

// Shift: amount b already same width as a.
func Shift(op Op, a, b *Term) *Term {
	w := a.S.W
	if x, y, ok := w2(a, b); ok && y.isConst() && y.V.IsInt64() && y.V.Int64() < int64(w) {
		k := int(y.V.Int64())
		if op == OpShl {
			if r := wFit(IMul(x, IntC(pow2(k))), w); r != nil {
				return r
			}
		} else if op == OpLShr {
			return mkI2BV(wHigh(x, k), w)
		}
	}
	if b.isConst() {
		if b.V.Sign() == 0 {
			return a
		}
		if !b.V.IsInt64() || b.V.Int64() >= int64(w) {
			if op == OpAShr {
				return Sext(Extract(a, w-1, w-1), w)
			}
			return BVu(0, w)
		}
		n := int(b.V.Int64())
		switch op {
		case OpShl:
			return Concat(Extract(a, w-n-1, 0), BVu(0, n))
		case OpLShr:
			return Zext(Extract(a, w-1, n), w)
		case OpAShr:
			return Sext(Extract(a, w-1, n), w)
		}
	}
	return bv2(op, a, b)
}
func Ult(a, b *Term) *Term {
	if x, y, ok := w2(a, b); ok {
		return ILt(x, y)
	}
	if a == b {
		return TFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(a.V.Cmp(b.V) < 0)
	}
	if isZero(b) {
		return TFalse
	}
	if isOnes(a) {
		return TFalse
	}
	if b.isConst() {
		if urange(a).Cmp(b.V) < 0 {
			return TTrue
		}
	}
	if a.Op == OpZext && b.Op == OpZext && a.A[0].S == b.A[0].S {
		return Ult(a.A[0], b.A[0])
	}
	if b.isConst() && a.Op == OpZext {
		return Ult(a.A[0], BVc(b.V, a.A[0].S.W))
	}
	if a.isConst() && b.Op == OpZext {
		if a.V.BitLen() > b.A[0].S.W {
			return TFalse
		}
		return Ult(BVc(a.V, b.A[0].S.W), b.A[0])
	}
	if b.isConst() && a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() {
		return Ite(a.A[0], Ult(a.A[1], b), Ult(a.A[2], b))
	}
	if a.isConst() && b.Op == OpIte && b.A[1].isConst() && b.A[2].isConst() {
		return Ite(b.A[0], Ult(a, b.A[1]), Ult(a, b.A[2]))
	}
	return mk(Term{Op: OpUlt, S: SBool, A: []*Term{a, b}})
}

// urange: upper bound on unsigned value
func urange(a *Term) *big.Int {
	switch a.Op {
	case OpConst:
		return a.V
	case OpZext:
		return urange(a.A[0])
	case OpIte:
		x, y := urange(a.A[1]), urange(a.A[2])
		if x.Cmp(y) > 0 {
			return x
		}
		return y
	case OpBAnd:
		x, y := urange(a.A[0]), urange(a.A[1])
		if x.Cmp(y) < 0 {
			return x
		}
		return y
	}
	return maskOf(a.S.W)
}
func Ule(a, b *Term) *Term { return Not(Ult(b, a)) }
func Slt(a, b *Term) *Term {
	if a == b {
		return TFalse
	}
	if a.isConst() && b.isConst() {
		return Bool(a.sval().Cmp(b.sval()) < 0)
	}
	// both nonnegative by range -> unsigned
	half := new(big.Int).Lsh(big1, uint(a.S.W-1))
	if urange(a).Cmp(half) < 0 && urange(b).Cmp(half) < 0 {
		return Ult(a, b)
	}
	if isZero(b) && urange(a).Cmp(half) < 0 {
		return TFalse
	}
	if b.isConst() && a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() {
		return Ite(a.A[0], Slt(a.A[1], b), Slt(a.A[2], b))
	}
	if a.isConst() && b.Op == OpIte && b.A[1].isConst() && b.A[2].isConst() {
		return Ite(b.A[0], Slt(a, b.A[1]), Slt(a, b.A[2]))
	}
	return mk(Term{Op: OpSlt, S: SBool, A: []*Term{a, b}})
}
func Sle(a, b *Term) *Term { return Not(Slt(b, a)) }

func Concat(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		v := new(big.Int).Lsh(a.V, uint(b.S.W))
		return BVc(v.Or(v, b.V), a.S.W+b.S.W)
	}
	if isZero(a) {
		return Zext(b, a.S.W+b.S.W)
	}
	if a.Op == OpExtract && b.Op == OpExtract && a.A[0] == b.A[0] && a.I2 == b.I1+1 {
		return Extract(a.A[0], a.I1, b.I2)
	}
	// right-assoc normal form: concat(concat(x,y),z) -> concat(x, concat(y,z))
	if a.Op == OpConcat {
		return Concat(a.A[0], Concat(a.A[1], b))
	}
	if a.Op == OpZext {
		return Zext(Concat(a.A[0], b), a.S.W+b.S.W)
	}
	if a.Op == OpExtract && b.Op == OpConcat && b.A[0].Op == OpExtract && b.A[0].A[0] == a.A[0] && a.I2 == b.A[0].I1+1 {
		return Concat(Extract(a.A[0], a.I1, b.A[0].I2), b.A[1])
	}
	return mk(Term{Op: OpConcat, S: SBV(a.S.W + b.S.W), A: []*Term{a, b}})
}
func Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 {
		panic("bad extract")
	}
	if w == a.S.W {
		return a
	}
	if useWords && !a.isConst() {
		if x := wInt(a); x != nil {
			return mkI2BV(wLow(wHigh(x, lo), w), w)
		}
	}
	switch a.Op {
	case OpConst:
		return BVc(new(big.Int).Rsh(a.V, uint(lo)), w)
	case OpExtract:
		return Extract(a.A[0], hi+a.I2, lo+a.I2)
	case OpConcat:
		lw := a.A[1].S.W
		if hi < lw {
			return Extract(a.A[1], hi, lo)
		}
		if lo >= lw {
			return Extract(a.A[0], hi-lw, lo-lw)
		}
		return Concat(Extract(a.A[0], hi-lw, 0), Extract(a.A[1], lw-1, lo))
	case OpZext:
		iw := a.A[0].S.W
		if hi < iw {
			return Extract(a.A[0], hi, lo)
		}
		if lo >= iw {
			return BVu(0, w)
		}
		return Zext(Extract(a.A[0], iw-1, lo), w)
	case OpSext:
		iw := a.A[0].S.W
		if hi < iw {
			return Extract(a.A[0], hi, lo)
		}
		if lo < iw {
			return Sext(Extract(a.A[0], iw-1, lo), w)
		}
	case OpBAnd:
		return BAnd(Extract(a.A[0], hi, lo), Extract(a.A[1], hi, lo))
	case OpBOr:
		return BOr(Extract(a.A[0], hi, lo), Extract(a.A[1], hi, lo))
	case OpBXor:
		return BXor(Extract(a.A[0], hi, lo), Extract(a.A[1], hi, lo))
	case OpBNot:
		return BNot(Extract(a.A[0], hi, lo))
	case OpIte:
		if a.A[1].isConst() || a.A[2].isConst() {
			return Ite(a.A[0], Extract(a.A[1], hi, lo), Extract(a.A[2], hi, lo))
		}
	case OpAdd, OpMul:
		if lo == 0 {
			x, y := Extract(a.A[0], hi, lo), Extract(a.A[1], hi, lo)
			if a.Op == OpAdd {
				return Add(x, y)
			}
			return Mul(x, y)
		}
	case OpI2BV:
		if lo == 0 {
			return I2BV(a.A[0], w)
		}
	}
	return mk(Term{Op: OpExtract, S: SBV(w), A: []*Term{a}, I1: hi, I2: lo})
}
func Zext(a *Term, w int) *Term {
	if w == a.S.W {
		return a
	}
	if w < a.S.W {
		return Extract(a, w-1, 0)
	}
	if a.isConst() {
		return BVc(a.V, w)
	}
	if a.Op == OpZext {
		return Zext(a.A[0], w)
	}
	if a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() {
		return Ite(a.A[0], Zext(a.A[1], w), Zext(a.A[2], w))
	}
	return mk(Term{Op: OpZext, S: SBV(w), A: []*Term{a}})
}
func Sext(a *Term, w int) *Term {
	if w == a.S.W {
		return a
	}
	if w < a.S.W {
		return Extract(a, w-1, 0)
	}
	if a.isConst() {
		return BVc(a.sval(), w)
	}
	if a.Op == OpZext {
		return Zext(a.A[0], w)
	}
	if a.Op == OpSext {
		return Sext(a.A[0], w)
	}
	if a.Op == OpIte && a.A[1].isConst() && a.A[2].isConst() {
		return Ite(a.A[0], Sext(a.A[1], w), Sext(a.A[2], w))
	}
	return mk(Term{Op: OpSext, S: SBV(w), A: []*Term{a}})
}

// B2BV converts a Bool to a w-bit 0/1.
func B2BV(b *Term, w int) *Term { return Ite(b, BVu(1, w), BVu(0, w)) }

// ---------- printing (debug)

func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OpConst:
		if t.S.K == KBool {
			return fmt.Sprint(t.V.Sign() != 0)
		}
		if t.S.K == KBV {
			return fmt.Sprintf("%v:%d", t.V, t.S.W)
		}
		return t.V.String()
	case OpVar:
		return t.N
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	if t.Op == OpPoly {
		var sb strings.Builder
		sb.WriteString("(")
		for i, m := range t.P {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if i > 12 {
				fmt.Fprintf(&sb, "...%d", len(t.P))
				break
			}
			sb.WriteString(m.C.String())
			for _, a := range m.M {
				sb.WriteString("*" + a.str(d-1))
			}
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	name := opNames[t.Op]
	switch t.Op {
	case OpExtract:
		name = fmt.Sprintf("ex%d:%d", t.I1, t.I2)
	case OpZext:
		name = fmt.Sprintf("zext%d", t.S.W)
	case OpSext:
		name = fmt.Sprintf("sext%d", t.S.W)
	case OpIMod:
		name = "mod" + short(t.V)
	case OpIDiv:
		name = "div" + short(t.V)
	case OpIInv:
		name = "inv" + short(t.V)
	case OpIGe0:
		name = ">=0"
	case OpIEq0:
		name = "==0"
	case OpBV2I:
		name = "bv2i"
	case OpI2BV:
		name = fmt.Sprintf("i2bv%d", t.S.W)
	case OpPX:
		name = "PX"
	case OpPY:
		name = "PY"
	case OpUF:
		name = t.N
	}
	sb.WriteString("(" + name)
	for i, a := range t.A {
		if i > 10 {
			sb.WriteString(" ...")
			break
		}
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}
func short(v *big.Int) string {
	s := v.String()
	if len(s) > 8 {
		return "N" + s[:4]
	}
	return s
}

var iteDepth int

// nestedIte removes inner alternatives that are equal to the other branch under the combined guard.
func nestedIte(c, a, b *Term, sign bool) *Term {
	iteDepth++
	defer func() { iteDepth-- }()
	half := func(c, a, b *Term) *Term { // a = ite(d,x,y), taken when c
		if a.Op != OpIte {
			return nil
		}
		d, x, y := a.A[0], a.A[1], a.A[2]
		if c1 := And(d, under(c, d, true)); c1 == TFalse || collapseIte(c1, x, b, sign) {
			return iteX(And(Not(d), under(c, d, false)), y, b, sign)
		}
		if c1 := And(Not(d), under(c, d, false)); c1 == TFalse || collapseIte(c1, y, b, sign) {
			return iteX(And(d, under(c, d, true)), x, b, sign)
		}
		return nil
	}
	if r := half(c, a, b); r != nil {
		return r
	}
	return half(Not(c), b, a)
}

// under simplifies boolean c assuming literal (or conjunction) d has truth value v.
func under(c, d *Term, v bool) *Term {
	known := map[int64]bool{}
	var add func(d *Term, v bool)
	add = func(d *Term, v bool) {
		known[d.id] = v
		known[Not(d).id] = !v
		switch {
		case d.Op == OpNot:
			add(d.A[0], !v)
		case d.Op == OpAnd && v, d.Op == OpOr && !v:
			for _, x := range d.A {
				add(x, v)
			}
		}
	}
	add(d, v)
	var walk func(t *Term, depth int) *Term
	walk = func(t *Term, depth int) *Term {
		if b, ok := known[t.id]; ok {
			return Bool(b)
		}
		if depth > 8 {
			return t
		}
		switch t.Op {
		case OpNot:
			return Not(walk(t.A[0], depth+1))
		case OpAnd, OpOr:
			xs := make([]*Term, len(t.A))
			ch := false
			for i, x := range t.A {
				xs[i] = walk(x, depth+1)
				ch = ch || xs[i] != x
			}
			if !ch {
				return t
			}
			if t.Op == OpAnd {
				return And(xs...)
			}
			return Or(xs...)
		}
		return t
	}
	return walk(c, 0)
}

// propConst decides whether a boolean formula is propositionally constant (few atoms only).
func propConst(t *Term) *Term {
	if t.isConst() {
		return t
	}
	atoms := map[int64]int{}
	nodes := 0
	var coll func(t *Term) bool
	coll = func(t *Term) bool {
		nodes++
		if nodes > 300 {
			return false
		}
		switch {
		case t.isConst():
			return true
		case t.Op == OpNot || t.Op == OpAnd || t.Op == OpOr || (t.Op == OpIte && t.S.K == KBool):
			for _, a := range t.A {
				if !coll(a) {
					return false
				}
			}
			return true
		}
		if _, ok := atoms[t.id]; !ok {
			atoms[t.id] = len(atoms)
		}
		return len(atoms) <= 10
	}
	if !coll(t) {
		return t
	}
	var ev func(t *Term, m int) bool
	ev = func(t *Term, m int) bool {
		switch {
		case t.isConst():
			return t == TTrue
		case t.Op == OpNot:
			return !ev(t.A[0], m)
		case t.Op == OpAnd:
			for _, a := range t.A {
				if !ev(a, m) {
					return false
				}
			}
			return true
		case t.Op == OpOr:
			for _, a := range t.A {
				if ev(a, m) {
					return true
				}
			}
			return false
		case t.Op == OpIte && t.S.K == KBool:
			if ev(t.A[0], m) {
				return ev(t.A[1], m)
			}
			return ev(t.A[2], m)
		}
		return m>>atoms[t.id]&1 == 1
	}
	all, none := true, true
	for m := 0; m < 1<<len(atoms) && (all || none); m++ {
		if ev(t, m) {
			none = false
		} else {
			all = false
		}
	}
	if all {
		return TTrue
	}
	if none {
		return TFalse
	}
	return t
}
