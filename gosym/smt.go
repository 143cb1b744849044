package main

// Lowering of terms to SMT-LIB2 and solver processes.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Model map[string]*big.Int

type lower struct {
	intMode bool
	decl    strings.Builder
	body    strings.Builder
	names   map[int64]string
	seen    map[string]bool
	vars    []*Term
	ufs     []*Term
	ufW     map[string][]int
	hasUF   bool
	nodes   int
	bad     string
}

func sw(t *Term) int { // signed width for Int term in bv mode
	w := 1
	for _, v := range []*big.Int{t.lo, t.hi} {
		n := v.BitLen() + 1
		if n > w {
			w = n
		}
	}
	return w
}

func collect(ts []*Term) (all []*Term) {
	seen := map[int64]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.A {
			walk(a)
		}
		for _, m := range t.P {
			for _, a := range m.M {
				walk(a)
			}
		}
		all = append(all, t)
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

func qn(s string) string { return "|" + s + "|" }

func bvlit(v *big.Int, w int) string {
	x := new(big.Int).And(v, maskOf(w))
	return fmt.Sprintf("(_ bv%s %d)", x.String(), w)
}

func (l *lower) sortOf(t *Term) string {
	switch t.S.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", t.S.W)
	}
	if l.intMode {
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", sw(t))
}

// ext sign-extends/truncates expression e of width from -> to (values fit by interval reasoning)
func sx(e string, from, to int) string {
	if from == to {
		return e
	}
	if to > from {
		return fmt.Sprintf("((_ sign_extend %d) %s)", to-from, e)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", to-1, e)
}

func (l *lower) ref(t *Term) string { return l.names[t.id] }

func ilit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func lowerAll(asserts []*Term, intMode bool) *lower {
	l := &lower{intMode: intMode, names: map[int64]string{}, seen: map[string]bool{}, ufW: map[string][]int{}}
	all := collect(asserts)
	if !intMode {
		for _, t := range all {
			if t.S.K == KInt && (t.lo == nil || t.hi == nil) {
				l.bad = "unbounded int " + t.String()
				return l
			}
			if t.Op == OpUF {
				w := l.ufW[t.N]
				if w == nil {
					w = make([]int, len(t.A)+1)
				}
				for i, a := range t.A {
					if a.S.K == KInt && sw(a) > w[i] {
						w[i] = sw(a)
					}
				}
				if t.S.K == KInt && sw(t) > w[len(t.A)] {
					w[len(t.A)] = sw(t)
				}
				l.ufW[t.N] = w
			}
		}
	}
	for _, t := range all {
		l.emit(t)
	}
	for _, a := range asserts {
		fmt.Fprintf(&l.body, "(assert %s)\n", l.ref(a))
	}
	return l
}

func (l *lower) def(t *Term, e string) {
	l.nodes++
	if len(e) < 24 {
		l.names[t.id] = e
		return
	}
	n := fmt.Sprintf("t%d", t.id)
	l.names[t.id] = n
	fmt.Fprintf(&l.body, "(define-fun %s () %s %s)\n", n, l.sortOf(t), e)
}

func (l *lower) emit(t *Term) {
	switch t.Op {
	case OpConst:
		switch t.S.K {
		case KBool:
			l.names[t.id] = fmt.Sprint(t.V.Sign() != 0)
		case KBV:
			l.names[t.id] = bvlit(t.V, t.S.W)
		default:
			if l.intMode {
				l.names[t.id] = ilit(t.V)
			} else {
				l.names[t.id] = bvlit(t.V, sw(t))
			}
		}
		return
	case OpVar:
		n := qn(t.N)
		l.names[t.id] = n
		l.vars = append(l.vars, t)
		fmt.Fprintf(&l.decl, "(declare-const %s %s)\n", n, l.sortOf(t))
		if t.S.K == KInt {
			if l.intMode {
				if t.lo != nil {
					fmt.Fprintf(&l.decl, "(assert (<= %s %s))\n", ilit(t.lo), n)
				}
				if t.hi != nil {
					fmt.Fprintf(&l.decl, "(assert (<= %s %s))\n", n, ilit(t.hi))
				}
			} else {
				w := sw(t)
				fmt.Fprintf(&l.decl, "(assert (bvsle %s %s))\n(assert (bvsle %s %s))\n", bvlit(t.lo, w), n, n, bvlit(t.hi, w))
			}
		}
		return
	case OpExtract:
		l.def(t, fmt.Sprintf("((_ extract %d %d) %s)", t.I1, t.I2, l.ref(t.A[0])))
		return
	case OpZext:
		l.def(t, fmt.Sprintf("((_ zero_extend %d) %s)", t.S.W-t.A[0].S.W, l.ref(t.A[0])))
		return
	case OpSext:
		l.def(t, fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.A[0].S.W, l.ref(t.A[0])))
		return
	case OpUF:
		l.hasUF = true
		l.ufs = append(l.ufs, t)
		w := l.ufW[t.N]
		srt := func(a *Term, i int) string {
			if a.S.K == KInt && !l.intMode {
				return fmt.Sprintf("(_ BitVec %d)", w[i])
			}
			return l.sortOf(a)
		}
		if !l.seen["uf:"+t.N] {
			l.seen["uf:"+t.N] = true
			var as []string
			for i, a := range t.A {
				as = append(as, srt(a, i))
			}
			fmt.Fprintf(&l.decl, "(declare-fun %s (%s) %s)\n", qn(t.N), strings.Join(as, " "), srt(t, len(t.A)))
		}
		var es []string
		for i, a := range t.A {
			e := l.ref(a)
			if a.S.K == KInt && !l.intMode {
				e = sx(e, sw(a), w[i])
			}
			es = append(es, e)
		}
		e := qn(t.N)
		if len(es) > 0 {
			e = "(" + e + " " + strings.Join(es, " ") + ")"
		}
		if t.S.K == KInt && !l.intMode {
			e = sx(e, w[len(t.A)], sw(t))
		}
		l.def(t, e)
		if t.S.K == KInt && t.lo != nil {
			n := l.ref(t)
			if l.intMode {
				fmt.Fprintf(&l.body, "(assert (and (<= %s %s) (<= %s %s)))\n", ilit(t.lo), n, n, ilit(t.hi))
			} else {
				fmt.Fprintf(&l.body, "(assert (and (bvsle %s %s) (bvsle %s %s)))\n", bvlit(t.lo, sw(t)), n, n, bvlit(t.hi, sw(t)))
			}
		}
		return
	}
	if t.S.K == KInt || t.Op == OpIGe0 || t.Op == OpIEq0 || t.Op == OpI2BV {
		if l.intMode {
			l.emitInt(t)
		} else {
			l.emitIntBV(t)
		}
		return
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.Op])
	for _, a := range t.A {
		sb.WriteString(" " + l.ref(a))
	}
	sb.WriteString(")")
	l.def(t, sb.String())
}

func (l *lower) emitInt(t *Term) {
	switch t.Op {
	case OpPoly:
		var parts []string
		for _, m := range t.P {
			if len(m.M) == 0 {
				parts = append(parts, ilit(m.C))
				continue
			}
			var f []string
			if m.C.Cmp(big1) != 0 {
				f = append(f, ilit(m.C))
			}
			for _, a := range m.M {
				f = append(f, l.ref(a))
			}
			if len(f) == 1 {
				parts = append(parts, f[0])
			} else {
				parts = append(parts, "(* "+strings.Join(f, " ")+")")
			}
		}
		if len(parts) == 1 {
			l.def(t, parts[0])
		} else {
			l.def(t, "(+ "+strings.Join(parts, " ")+")")
		}
	case OpIte:
		l.def(t, fmt.Sprintf("(ite %s %s %s)", l.ref(t.A[0]), l.ref(t.A[1]), l.ref(t.A[2])))
	case OpIMod:
		l.def(t, fmt.Sprintf("(mod %s %s)", l.ref(t.A[0]), ilit(t.V)))
	case OpIDiv:
		l.def(t, fmt.Sprintf("(div %s %s)", l.ref(t.A[0]), ilit(t.V)))
	case OpIGe0:
		l.def(t, fmt.Sprintf("(>= %s 0)", l.ref(t.A[0])))
	case OpIEq0:
		l.def(t, fmt.Sprintf("(= %s 0)", l.ref(t.A[0])))
	case OpBV2I:
		l.def(t, fmt.Sprintf("(bv2nat %s)", l.ref(t.A[0])))
	case OpI2BV:
		l.def(t, fmt.Sprintf("((_ int2bv %d) %s)", t.S.W, l.ref(t.A[0])))
	case OpPX, OpPY, OpIInv:
		nm := map[Op]string{OpPX: "PX!", OpPY: "PY!", OpIInv: "inv!"}[t.Op]
		if curve.X != nil && t.Op != OpIInv {
			tab := curve.X
			if t.Op == OpPY {
				tab = curve.Y
			}
			e := tab[len(tab)-1].String()
			for i := len(tab) - 2; i >= 0; i-- {
				e = fmt.Sprintf("(ite (= %s %d) %s %s)", l.ref(t.A[0]), i, tab[i], e)
			}
			l.def(t, e)
			return
		}
		if !l.seen[nm] {
			l.seen[nm] = true
			fmt.Fprintf(&l.decl, "(declare-fun %s (Int) Int)\n", nm)
		}
		l.hasUF = true
		l.def(t, fmt.Sprintf("(%s %s)", nm, l.ref(t.A[0])))
		if a := t.A[0]; t.Op != OpIInv && a.lo != nil && a.lo.Sign() > 0 && a.hi != nil && a.hi.Cmp(curve.N) < 0 {
			// no point of the curve has a zero coordinate
			fmt.Fprintf(&l.body, "(assert (and (<= 1 %s) (< %s %s)))\n", l.ref(t), l.ref(t), curve.P)
		}
		if t.Op == OpIInv {
			n := l.ref(t)
			fmt.Fprintf(&l.body, "(assert (=> (not (= (mod %s %s) 0)) (= (mod (* %s %s) %s) 1)))\n", l.ref(t.A[0]), t.V, n, l.ref(t.A[0]), t.V)
			fmt.Fprintf(&l.body, "(assert (and (<= 0 %s) (< %s %s)))\n", n, n, t.V)
		}
	default:
		panic("emitInt " + t.String())
	}
}

func (l *lower) emitIntBV(t *Term) {
	w := 0
	if t.S.K == KInt {
		w = sw(t)
	}
	switch t.Op {
	case OpPoly:
		// compute at a width covering all partial sums
		W := w
		type part struct{ e string }
		lo, hi := new(big.Int), new(big.Int)
		var parts []string
		var widths []int
		for _, m := range t.P {
			ml, mh := m.C, m.C
			var e string
			ew := 0
			if len(m.M) == 0 {
				ew = m.C.BitLen() + 1
				e = bvlit(m.C, ew)
			} else {
				// product of atoms
				e = l.ref(m.M[0])
				ew = sw(m.M[0])
				pl, ph := m.M[0].lo, m.M[0].hi
				for _, a := range m.M[1:] {
					pl, ph = mulIv(pl, ph, a.lo, a.hi)
					nw := bmax(new(big.Int).Abs(pl), new(big.Int).Abs(ph)).BitLen() + 1
					if nw < ew {
						nw = ew
					}
					if sw(a) > nw {
						nw = sw(a)
					}
					e = fmt.Sprintf("(bvmul %s %s)", sx(e, ew, nw), sx(l.ref(a), sw(a), nw))
					ew = nw
				}
				if m.C.Cmp(big1) != 0 {
					ml, mh = mulIv(pl, ph, m.C, m.C)
					nw := bmax(new(big.Int).Abs(ml), new(big.Int).Abs(mh)).BitLen() + 1
					if cw := m.C.BitLen() + 1; cw > nw {
						nw = cw
					}
					if nw < ew {
						nw = ew
					}
					if m.C.Cmp(big.NewInt(-1)) == 0 {
						e = fmt.Sprintf("(bvneg %s)", sx(e, ew, nw))
					} else {
						e = fmt.Sprintf("(bvmul %s %s)", sx(e, ew, nw), bvlit(m.C, nw))
					}
					ew = nw
				} else {
					ml, mh = pl, ph
				}
			}
			lo.Add(lo, bmin(ml, big0))
			hi.Add(hi, bmax(mh, big0))
			parts = append(parts, e)
			widths = append(widths, ew)
			if ew > W {
				W = ew
			}
		}
		if n := bmax(new(big.Int).Neg(lo), hi).BitLen() + 1; n > W {
			W = n
		}
		var es []string
		for i, e := range parts {
			es = append(es, sx(e, widths[i], W))
		}
		e := es[0]
		if len(es) > 1 {
			e = "(bvadd " + strings.Join(es, " ") + ")"
		}
		l.def(t, sx(e, W, w))
	case OpIte:
		l.def(t, fmt.Sprintf("(ite %s %s %s)", l.ref(t.A[0]), sx(l.ref(t.A[1]), sw(t.A[1]), w), sx(l.ref(t.A[2]), sw(t.A[2]), w)))
	case OpIMod, OpIDiv:
		a := t.A[0]
		aw := sw(a)
		W := aw
		if n := t.V.BitLen() + 1; n > W {
			W = n
		}
		x := sx(l.ref(a), aw, W)
		m := bvlit(t.V, W)
		var e string
		if a.lo.Sign() >= 0 {
			if t.Op == OpIMod {
				e = fmt.Sprintf("(bvurem %s %s)", x, m)
			} else {
				e = fmt.Sprintf("(bvudiv %s %s)", x, m)
			}
		} else {
			if t.Op == OpIMod {
				e = fmt.Sprintf("(bvsmod %s %s)", x, m)
			} else {
				e = fmt.Sprintf("(bvsdiv (bvsub %s (bvsmod %s %s)) %s)", sx(x, W, W+1), sx(x, W, W+1), bvlit(t.V, W+1), bvlit(t.V, W+1))
				W++
			}
		}
		l.def(t, sx(e, W, w))
	case OpIGe0:
		a := t.A[0]
		l.def(t, fmt.Sprintf("(bvsge %s %s)", l.ref(a), bvlit(big0, sw(a))))
	case OpIEq0:
		a := t.A[0]
		l.def(t, fmt.Sprintf("(= %s %s)", l.ref(a), bvlit(big0, sw(a))))
	case OpBV2I:
		a := t.A[0]
		l.def(t, sx(fmt.Sprintf("((_ zero_extend 1) %s)", l.ref(a)), a.S.W+1, w))
	case OpI2BV:
		a := t.A[0]
		l.def(t, sx(l.ref(a), sw(a), t.S.W))
	case OpPX, OpPY:
		a := t.A[0]
		if curve.X == nil {
			nm := map[Op]string{OpPX: "PX!", OpPY: "PY!"}[t.Op]
			aw := curve.N.BitLen() + 1
			if !l.seen[nm] {
				l.seen[nm] = true
				fmt.Fprintf(&l.decl, "(declare-fun %s ((_ BitVec %d)) (_ BitVec %d))\n", nm, aw, w)
			}
			l.hasUF = true
			l.def(t, fmt.Sprintf("(%s %s)", nm, sx(l.ref(a), sw(a), aw)))
			return
		}
		tab := curve.X
		if t.Op == OpPY {
			tab = curve.Y
		}
		e := bvlit(tab[len(tab)-1], w)
		for i := len(tab) - 2; i >= 0; i-- {
			if big.NewInt(int64(i)).Cmp(a.hi) > 0 {
				continue
			}
			e = fmt.Sprintf("(ite (= %s %s) %s %s)", l.ref(a), bvlit(big.NewInt(int64(i)), sw(a)), bvlit(tab[i], w), e)
		}
		l.def(t, e)
	case OpIInv:
		a := t.A[0]
		if t.V.BitLen() > 8 {
			nm := "inv!"
			aw := sw(a)
			if !l.seen[fmt.Sprint(nm, aw)] {
				l.seen[fmt.Sprint(nm, aw)] = true
				fmt.Fprintf(&l.decl, "(declare-fun %s%d ((_ BitVec %d)) (_ BitVec %d))\n", nm, aw, aw, w)
			}
			l.hasUF = true
			l.def(t, fmt.Sprintf("(%s%d %s)", nm, aw, l.ref(a)))
			return
		}
		r := IMod(a, t.V)
		if l.names[r.id] == "" {
			for _, x := range collect([]*Term{r}) {
				if l.names[x.id] == "" {
					l.emit(x)
				}
			}
		}
		e := bvlit(big0, w)
		for i := int64(1); i < t.V.Int64(); i++ {
			inv := new(big.Int).ModInverse(big.NewInt(i), t.V)
			e = fmt.Sprintf("(ite (= %s %s) %s %s)", l.ref(r), bvlit(big.NewInt(i), sw(r)), bvlit(inv, w), e)
		}
		l.def(t, e)
	default:
		panic("emitIntBV " + t.String())
	}
}

// ---------- evaluation under a model

func Eval(t *Term, m Model, memo map[int64]*big.Int) *big.Int {
	if t.isConst() {
		return t.V
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	r := eval1(t, m, memo)
	memo[t.id] = r
	return r
}

func b2i(b bool) *big.Int {
	if b {
		return big1
	}
	return big0
}

func eval1(t *Term, m Model, memo map[int64]*big.Int) *big.Int {
	ev := func(i int) *big.Int { return Eval(t.A[i], m, memo) }
	sgn := func(v *big.Int, w int) *big.Int {
		if v.Bit(w-1) == 1 {
			return new(big.Int).Sub(v, new(big.Int).Lsh(big1, uint(w)))
		}
		return v
	}
	wrap := func(v *big.Int) *big.Int { return new(big.Int).And(v, maskOf(t.S.W)) }
	switch t.Op {
	case OpVar:
		if v, ok := m[t.N]; ok {
			return v
		}
		if k, ok := m["\x00fp"]; ok {
			return fpVar(t, k.Int64())
		}
		if t.lo != nil && t.lo.Sign() > 0 {
			return t.lo
		}
		if t.hi != nil && t.hi.Sign() < 0 {
			return t.hi
		}
		return big0
	case OpNot:
		return b2i(ev(0).Sign() == 0)
	case OpAnd:
		for i := range t.A {
			if ev(i).Sign() == 0 {
				return big0
			}
		}
		return big1
	case OpOr:
		for i := range t.A {
			if ev(i).Sign() != 0 {
				return big1
			}
		}
		return big0
	case OpEq:
		return b2i(ev(0).Cmp(ev(1)) == 0)
	case OpIte:
		if ev(0).Sign() != 0 {
			return ev(1)
		}
		return ev(2)
	case OpAdd:
		return wrap(new(big.Int).Add(ev(0), ev(1)))
	case OpMul:
		return wrap(new(big.Int).Mul(ev(0), ev(1)))
	case OpNeg:
		return wrap(new(big.Int).Neg(ev(0)))
	case OpUDiv:
		if ev(1).Sign() == 0 {
			return maskOf(t.S.W)
		}
		return new(big.Int).Quo(ev(0), ev(1))
	case OpURem:
		if ev(1).Sign() == 0 {
			return ev(0)
		}
		return new(big.Int).Rem(ev(0), ev(1))
	case OpSDiv, OpSRem:
		a, b := sgn(ev(0), t.S.W), sgn(ev(1), t.S.W)
		if b.Sign() == 0 {
			return big0
		}
		if t.Op == OpSDiv {
			return wrap(new(big.Int).Quo(a, b))
		}
		return wrap(new(big.Int).Rem(a, b))
	case OpBAnd:
		return new(big.Int).And(ev(0), ev(1))
	case OpBOr:
		return new(big.Int).Or(ev(0), ev(1))
	case OpBXor:
		return new(big.Int).Xor(ev(0), ev(1))
	case OpBNot:
		return new(big.Int).Xor(ev(0), maskOf(t.S.W))
	case OpShl, OpLShr, OpAShr:
		s := ev(1)
		big_ := !s.IsInt64() || s.Int64() >= int64(t.S.W)
		a := ev(0)
		switch t.Op {
		case OpShl:
			if big_ {
				return big0
			}
			return wrap(new(big.Int).Lsh(a, uint(s.Int64())))
		case OpLShr:
			if big_ {
				return big0
			}
			return new(big.Int).Rsh(a, uint(s.Int64()))
		default:
			n := uint(t.S.W)
			if !big_ {
				n = uint(s.Int64())
			}
			return wrap(new(big.Int).Rsh(sgn(a, t.S.W), n))
		}
	case OpUlt:
		return b2i(ev(0).Cmp(ev(1)) < 0)
	case OpSlt:
		w := t.A[0].S.W
		return b2i(sgn(ev(0), w).Cmp(sgn(ev(1), w)) < 0)
	case OpConcat:
		x := new(big.Int).Lsh(ev(0), uint(t.A[1].S.W))
		return x.Or(x, ev(1))
	case OpExtract:
		return wrap(new(big.Int).Rsh(ev(0), uint(t.I2)))
	case OpZext:
		return ev(0)
	case OpSext:
		return wrap(sgn(ev(0), t.A[0].S.W))
	case OpPoly:
		s := new(big.Int)
		for _, mo := range t.P {
			x := new(big.Int).Set(mo.C)
			for _, a := range mo.M {
				x.Mul(x, Eval(a, m, memo))
			}
			s.Add(s, x)
		}
		return s
	case OpIMod:
		return new(big.Int).Mod(ev(0), t.V)
	case OpIDiv:
		return floorDiv(ev(0), t.V)
	case OpIInv:
		r := new(big.Int).ModInverse(new(big.Int).Mod(ev(0), t.V), t.V)
		if r == nil {
			return big0
		}
		return r
	case OpIGe0:
		return b2i(ev(0).Sign() >= 0)
	case OpIEq0:
		return b2i(ev(0).Sign() == 0)
	case OpBV2I:
		return ev(0)
	case OpI2BV:
		return wrap(ev(0))
	case OpPX, OpPY:
		if curve.X != nil {
			k := ev(0)
			if !k.IsInt64() || k.Sign() < 0 || k.Int64() >= int64(len(curve.X)) {
				return big0
			}
			if t.Op == OpPX {
				return curve.X[k.Int64()]
			}
			return curve.Y[k.Int64()]
		}
		k := ev(0)
		if k.Sign() == 0 {
			return big0
		}
		x := new(big.Int).Mul(k, k)
		if t.Op == OpPY {
			x.Mul(x, k)
		}
		return x.Mod(x, curve.P)
	case OpUF:
		if pm, ok := powmods[t.N]; ok {
			return new(big.Int).Exp(ev(0), pm[0], pm[1])
		}
		key := ufKey(t, m, memo)
		if v, ok := m[key]; ok {
			return v
		}
		return big0
	}
	panic("eval " + t.String())
}

func ufKey(t *Term, m Model, memo map[int64]*big.Int) string {
	var sb strings.Builder
	sb.WriteString("uf:" + t.N)
	for _, a := range t.A {
		sb.WriteString("," + Eval(a, m, memo).String())
	}
	return sb.String()
}

// ---------- solver processes

type Solver struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	return s.cmd.Start()
}
func (s *Solver) kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = nil
}

// readSexpr reads one balanced s-expression or atom.
func readSexpr(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if inq {
			sb.WriteByte(c)
			if c == '|' {
				inq = false
			}
			continue
		}
		switch c {
		case '|':
			inq = true
			sb.WriteByte(c)
		case '(':
			depth++
			sb.WriteByte(c)
		case ')':
			depth--
			sb.WriteByte(c)
			if depth == 0 {
				return sb.String(), nil
			}
		case ' ', '\n', '\t', '\r':
			if depth > 0 {
				sb.WriteByte(' ')
			} else if sb.Len() > 0 {
				return sb.String(), nil
			}
		default:
			sb.WriteByte(c)
		}
	}
}

type reply struct {
	s   string
	err error
}

func (s *Solver) ask(deadline time.Time) (string, error) {
	ch := make(chan reply, 1)
	out := s.out
	go func() {
		x, err := readSexpr(out)
		ch <- reply{x, err}
	}()
	select {
	case r := <-ch:
		return r.s, r.err
	case <-time.After(time.Until(deadline)):
		s.kill()
		return "timeout", fmt.Errorf("timeout")
	}
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return []string{"unsat", "sat", "unknown"}[r] }

func (s *Solver) check(l *lower, timeout time.Duration, wantModel bool) (Result, Model) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	deadline := time.Now().Add(timeout)
	var sb strings.Builder
	sb.WriteString("(reset)\n(set-option :produce-models true)\n")
	logic := "QF_BV"
	switch {
	case l.intMode:
		logic = "ALL"
	case l.hasUF:
		logic = "QF_UFBV"
	}
	if s.name == "cvc5" || !l.intMode {
		fmt.Fprintf(&sb, "(set-logic %s)\n", logic)
	}
	sb.WriteString(l.decl.String())
	sb.WriteString(l.body.String())
	sb.WriteString("(check-sat)\n")
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", d, dumpN), []byte(sb.String()), 0644)
	}
	// write in a goroutine: solver may block
	go func(w io.WriteCloser, x string) { io.WriteString(w, x) }(s.in, sb.String())
	r, err := s.ask(deadline)
	if err != nil {
		s.kill()
		return Unknown, nil
	}
	switch r {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		if strings.HasPrefix(r, "(error") {
			stats.solverErrors++
			if len(stats.errSample) < 300 {
				stats.errSample = s.name + ": " + r
			}
		}
		s.kill()
		return Unknown, nil
	}
	if !wantModel {
		return Sat, nil
	}
	m := Model{}
	if len(l.vars) > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range l.vars {
			q.WriteString(qn(v.N) + " ")
		}
		q.WriteString("))\n")
		go func(w io.WriteCloser, x string) { io.WriteString(w, x) }(s.in, q.String())
		r, err := s.ask(deadline.Add(20 * time.Second))
		if err != nil {
			s.kill()
			return Unknown, nil
		}
		vals := parsePairs(r)
		if len(vals) != len(l.vars) {
			s.kill()
			return Unknown, nil
		}
		for i, v := range l.vars {
			x := parseVal(vals[i])
			if v.S.K == KInt && !l.intMode {
				w := sw(v)
				if x.Bit(w-1) == 1 {
					x.Sub(x, new(big.Int).Lsh(big1, uint(w)))
				}
			}
			m[v.N] = x
		}
	}
	if len(l.ufs) > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, u := range l.ufs {
			q.WriteString(l.ref(u) + " ")
		}
		q.WriteString("))\n")
		go func(w io.WriteCloser, x string) { io.WriteString(w, x) }(s.in, q.String())
		r, err := s.ask(deadline.Add(20 * time.Second))
		if err == nil {
			vals := parsePairs(r)
			if len(vals) == len(l.ufs) {
				memo := map[int64]*big.Int{}
				for i, u := range l.ufs { // in dependency order
					x := parseVal(vals[i])
					if u.S.K == KInt && !l.intMode {
						w := sw(u)
						if x.Bit(w-1) == 1 {
							x.Sub(x, new(big.Int).Lsh(big1, uint(w)))
						}
					}
					m[ufKey(u, m, memo)] = x
				}
			}
		} else {
			s.kill()
		}
	}
	return Sat, m
}

var dumpN int

// parsePairs splits ((a v) (b v) ...) into the v strings.
func parsePairs(s string) []string {
	s = strings.TrimSpace(s)
	if len(s) < 2 {
		return nil
	}
	s = s[1 : len(s)-1]
	var out []string
	r := bufio.NewReader(strings.NewReader(s + " "))
	for {
		p, err := readSexpr(r)
		if p == "" || (err != nil && p == "") {
			break
		}
		// p = (name value)
		in := p[1 : len(p)-1]
		rr := bufio.NewReader(strings.NewReader(in + " "))
		readSexpr(rr)
		v, _ := readSexpr(rr)
		out = append(out, v)
		if err != nil {
			break
		}
	}
	return out
}

func parseVal(v string) *big.Int {
	v = strings.TrimSpace(v)
	switch {
	case v == "true":
		return big.NewInt(1)
	case v == "false":
		return big.NewInt(0)
	case strings.HasPrefix(v, "#x"):
		x, _ := new(big.Int).SetString(v[2:], 16)
		return x
	case strings.HasPrefix(v, "#b"):
		x, _ := new(big.Int).SetString(v[2:], 2)
		return x
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		x, _ := new(big.Int).SetString(f[0], 10)
		return x
	case strings.HasPrefix(v, "(-"):
		f := strings.Trim(v[2:], " ()")
		x, _ := new(big.Int).SetString(f, 10)
		if x == nil {
			return new(big.Int)
		}
		return x.Neg(x)
	}
	x, _ := new(big.Int).SetString(v, 10)
	if x == nil {
		return new(big.Int)
	}
	return x
}

var solverDefs = map[string][]string{
	"z3new": {"z3-new", "-in", "-smt2"},
	"z3":    {"z3", "-in", "-smt2"},
	"cvc5":  {"cvc5", "--incremental", "--produce-models", "-q"},
}

type stat struct {
	queries, sat, unsat, unknown int
	trivial                      int
	solverTime                   time.Duration
	maxQuery                     time.Duration
	solverErrors                 int
	errSample                    string
	asserts                      int
	nodes                        int
	byS                          map[string]int
}

var stats = stat{byS: map[string]int{}}

var pool = map[string]*Solver{}

func getSolver(n string) *Solver {
	s := pool[n]
	if s == nil {
		s = &Solver{name: n, args: solverDefs[n]}
		pool[n] = s
	}
	return s
}

// forceInt lowers integers to SMT Int even when they are bounded.
var forceInt bool

// relevant slices the constraints to those sharing variables (transitively) with goal.
func relevant(pc []*Term, goal *Term) []*Term {
	vs := map[string]bool{}
	for k := range varsOf(goal) {
		vs[k] = true
	}
	in := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, t := range pc {
			if in[i] {
				continue
			}
			tv := varsOf(t)
			hit := false
			for k := range tv {
				if vs[k] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for k := range tv {
					vs[k] = true
				}
			}
		}
	}
	var out []*Term
	for i, t := range pc {
		if in[i] {
			out = append(out, t)
		}
	}
	return out
}

var varsMemo = map[int64]map[string]bool{}

func varsOf(t *Term) map[string]bool {
	if v, ok := varsMemo[t.id]; ok {
		return v
	}
	out := map[string]bool{}
	for _, x := range collect([]*Term{t}) {
		if x.Op == OpVar {
			out[x.N] = true
		}
		if x.Op == OpUF {
			out["uf:"+x.N] = true
		}
	}
	varsMemo[t.id] = out
	return out
}

// Solve decides the conjunction. The named solvers run as a portfolio.
type solveMemo struct {
	r Result
	m Model
	s string
}

var solveCache = map[string]solveMemo{}

// Solve decides a conjunction; definite answers are remembered per set of conjuncts.
func Solve(asserts []*Term, timeout time.Duration, wantModel bool, names ...string) (Result, Model, string) {
	if opaqueOn {
		asserts = opaqueAll(asserts)
	}
	flat := And(asserts...)
	var ids []int64
	if flat.Op == OpAnd {
		for _, a := range flat.A {
			ids = append(ids, a.id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	} else {
		ids = []int64{flat.id}
	}
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	k := sb.String()
	if v, ok := solveCache[k]; ok && (v.r == Unsat || v.m != nil || !wantModel) {
		return v.r, v.m, v.s
	}
	r, m, s := solve1(flat, timeout, wantModel, names...)
	if r != Unknown {
		if len(solveCache) > 200000 {
			solveCache = map[string]solveMemo{}
		}
		solveCache[k] = solveMemo{r, m, s}
	}
	return r, m, s
}

func solve1(flat *Term, timeout time.Duration, wantModel bool, names ...string) (Result, Model, string) {
	if flat == TFalse {
		stats.trivial++
		return Unsat, nil, "simplifier"
	}
	if flat == TTrue {
		stats.trivial++
		return Sat, Model{}, "simplifier"
	}
	var as []*Term
	if flat.Op == OpAnd {
		as = flat.A
	} else {
		as = []*Term{flat}
	}
	as, defs := eliminate(as)
	if len(as) == 1 && as[0].isConst() {
		stats.trivial++
		if as[0] == TFalse {
			return Unsat, nil, "simplifier"
		}
		m := Model{}
		completeModel(m, defs)
		return Sat, m, "simplifier"
	}
	l := lowerAll(as, forceInt)
	if l.bad != "" {
		l = lowerAll(as, true)
	}
	stats.queries++
	stats.nodes += l.nodes
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		stats.solverTime += d
		if os.Getenv("GOSYM_SLOW") != "" && d > slowMin {
			fmt.Fprintf(os.Stderr, "SLOW %.1fs nodes=%d %s\n", d.Seconds(), l.nodes, dbgPos())
			for _, a := range as {
				x := a.str(12)
				if len(x) > 3000 {
					x = x[:3000] + "..."
				}
				fmt.Fprintln(os.Stderr, "   ", x)
			}
		}
		if d > stats.maxQuery {
			stats.maxQuery = d
		}
	}()
	if len(names) == 0 {
		names = []string{"z3new"}
	}
	type res struct {
		r Result
		m Model
		n string
	}
	note := func(r Result, n string) {
		switch r {
		case Sat:
			stats.sat++
		case Unsat:
			stats.unsat++
		default:
			stats.unknown++
		}
		stats.byS[n]++
	}
	if len(names) == 1 {
		r, m := getSolver(names[0]).check(l, timeout, wantModel)
		note(r, names[0])
		completeModel(m, defs)
		return r, m, names[0]
	}
	ch := make(chan res, len(names))
	for _, n := range names {
		s := getSolver(n)
		go func(n string, s *Solver) {
			r, m := s.check(l, timeout, wantModel)
			ch <- res{r, m, n}
		}(n, s)
	}
	var got res
	got.r = Unknown
	pend := map[string]bool{}
	for _, n := range names {
		pend[n] = true
	}
	for range names {
		r := <-ch
		delete(pend, r.n)
		if r.r != Unknown {
			got = r
			break
		}
	}
	// kill the losers; they will be restarted on demand
	var rest []string
	for n := range pend {
		rest = append(rest, n)
	}
	sort.Strings(rest)
	for _, n := range rest {
		s := pool[n]
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	}
	for range rest {
		<-ch
	}
	for _, n := range rest {
		pool[n] = nil
	}
	note(got.r, got.n)
	completeModel(got.m, defs)
	return got.r, got.m, got.n
}

func killSolvers() {
	for _, s := range pool {
		if s != nil {
			s.kill()
		}
	}
}

var dbgPos = func() string { return "" }

var slowMin = func() time.Duration {
	d, err := time.ParseDuration(os.Getenv("GOSYM_SLOW"))
	if err != nil {
		return time.Second
	}
	return d
}()
