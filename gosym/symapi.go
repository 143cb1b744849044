package main

// The verification API used by harnesses (package verifstub/sym), and the
// models of randomness, hashing and the abstract curve.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
)

func (ex *Exec) strArg(st *State, v Value) string {
	s, ok := ex.resolve(st, v).(*Str).goStr()
	if !ok {
		panic(unsup("symbolic name"))
	}
	return s
}

// uniq numbers repeated uses of the same name on a path.
func (st *State) uniq(name string) string {
	k := "cnt:" + name
	n := 0
	if v, ok := st.hooks[k]; ok {
		n = int(v.(*Term).V.Int64())
	}
	n++
	st.hooks[k] = BVu(uint64(n), 64)
	if n == 1 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// peekUniq is like uniq but the caller commits with the returned function.
func wideTerm(name string, q int) *Term {
	lim := pow2(q)
	r := IntVar(name+".r", big0, new(big.Int).Sub(curve.N, big1))
	k := IntVar(name+".q", new(big.Int).Neg(lim), lim)
	return IAdd(IMul(IntC(curve.N), k), r)
}

func (ex *Exec) assertion(st *State, cond *Term, msg string) {
	ex.asserts++
	c := st.simp(cond)
	if c == TTrue {
		ex.assertOK++
		ex.assertTrivial++
		return
	}
	neg := Not(c)
	rel := relevant(st.pc.list(), neg)
	if opaqueOn {
		rel = st.pc.list()
	}
	if os.Getenv("GOSYM_ASSERT") != "" {
		fmt.Fprintf(os.Stderr, "ASSERT %s loose=%d\n%.6000s\n", msg, len(ex.looseTab), neg.str(14))
		for _, p := range rel {
			fmt.Fprintf(os.Stderr, "  PC %.900s\n", p.str(12))
		}
	}
	var r Result
	var m Model
	if ex.loose {
		if m = ex.guessModel(append(st.pc.list(), neg), 100); m != nil {
			r, rel = Sat, st.pc.list()
		}
	}
	if useWords || ex.fieldOn {
		if m = ex.guessModel(append(st.pc.list(), neg), 400); m != nil {
			r, rel = Sat, st.pc.list()
		}
	}
	if m == nil {
		r, m, _ = Solve(append(append([]*Term{}, rel...), neg), ex.aTimeout, true, ex.portfolio...)
	}
	if opaqueOn && r == Sat && !validModel(append(st.pc.list(), neg), m) {
		r = Unknown
	}
	if ex.loose && r == Sat && len(rel) != len(st.pc.list()) {
		rel = st.pc.list()
		r, m, _ = ex.solveOracle(append(st.pc.list(), neg), ex.aTimeout, ex.portfolio...)
	}
	switch r {
	case Unsat:
		ex.assertOK++
		st.addFact(c)
		if ex.crossCheck && len(ex.portfolio) > 0 {
			ex.crossChecked++
			if r2, _, _ := Solve(append(append([]*Term{}, rel...), neg), ex.aTimeout, false, "cvc5"); r2 == Sat {
				ex.crossDisagree++
			}
		}
	case Sat:
		// complete the model over the whole path condition
		all := append(st.pc.list(), neg)
		if len(rel)+1 != len(all) {
			okm := m != nil
			if okm && len(st.models) > 0 {
				mm := Model{}
				for k, v := range st.models[0] {
					mm[k] = v
				}
				for k, v := range m {
					mm[k] = v
				}
				memo := map[int64]*big.Int{}
				good := true
				for _, t := range all {
					if Eval(t, mm, memo).Sign() == 0 {
						good = false
						break
					}
				}
				if good {
					m = mm
				} else {
					okm = false
				}
			} else {
				okm = false
			}
			if !okm {
				r2, m2, _ := ex.solveOracle(all, ex.aTimeout, ex.portfolio...)
				if r2 == Sat {
					m = m2
				} else if r2 == Unsat {
					ex.assertOK++
					return
				} else {
					ex.event(st, Event{Kind: "unknown", Msg: "assertion model incomplete: " + msg})
					st.assume(c)
					return
				}
			}
		}
		ex.event(st, Event{Kind: "assert", Msg: msg, Model: m})
		if !ex.feasible(st, c) {
			panic(killReq{"assertion false on whole path"})
		}
		st.assume(c)
	default:
		ex.event(st, Event{Kind: "unknown", Msg: "assertion undecided: " + msg})
		st.assume(c)
	}
}

// ---------- oracle

// A query is stored in st.hooks["q:<oracle>"] as *Struct of *Tuple{rope slice, c term, digest BigVal}.
func (st *State) queries(o string) []Value {
	if v, ok := st.hooks["q:"+o]; ok {
		if s, ok := v.(*Struct); ok {
			return s.F
		}
		panic(unsup("hash query log differs between merged paths"))
	}
	return nil
}

func (st *State) oracleID() string {
	if v, ok := st.hooks["oracle"]; ok {
		return fmt.Sprint(v.(*Term).V)
	}
	return "0"
}

type optByte struct {
	p *Term // present
	b *Term
}

func optBytes(segs []Seg) []optByte {
	var r []optByte
	for _, s := range segs {
		if s.I == nil {
			for _, b := range s.B {
				r = append(r, optByte{TTrue, b})
			}
			continue
		}
		t := absT(s.I)
		n := 1
		if t.hi == nil {
			panic(unsup("byte comparison of an unbounded integer"))
		}
		if n = (t.hi.BitLen() + 7) / 8; n == 0 {
			continue
		}
		for k := n - 1; k >= 0; k-- {
			r = append(r, optByte{IGe(t, IntC(pow2(8*k))), byteAt(t, k)})
		}
	}
	return r
}

// bytesEqExact: byte-for-byte equality, whatever the boundaries of the segments.
func bytesEqExact(a, b []Seg) *Term {
	x, y := optBytes(a), optBytes(b)
	memo := map[[2]int]*Term{}
	var f func(i, j int) *Term
	f = func(i, j int) *Term {
		if i == len(x) && j == len(y) {
			return TTrue
		}
		k := [2]int{i, j}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		switch {
		case i == len(x):
			r = And(Not(y[j].p), f(i, j+1))
		case j == len(y):
			r = And(Not(x[i].p), f(i+1, j))
		case x[i] == y[j]:
			r = f(i+1, j+1)
		default:
			both := TFalse
			if eq := Eq(x[i].b, y[j].b); eq != TFalse {
				both = And(eq, f(i+1, j+1))
			}
			r = both
			if y[j].p != TTrue {
				r = Ite(y[j].p, r, f(i, j+1))
			}
			if x[i].p != TTrue {
				r = Ite(x[i].p, r, f(i+1, j))
			}
		}
		memo[k] = r
		return r
	}
	return f(0, 0)
}

func sameShape(a, b []Seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].I == nil) != (b[i].I == nil) || len(a[i].B) != len(b[i].B) {
			return false
		}
	}
	return true
}

// segsEq: equality of two abstract byte strings (segment-wise when they are built alike).
func segsEq(a, b []Seg) *Term {
	if !sameShape(a, b) {
		return bytesEqExact(a, b)
	}
	r := TTrue
	for i := range a {
		x, y := a[i], b[i]
		switch {
		case x.I != nil && y.I != nil:
			r = And(r, IEq(x.I, y.I))
		case x.I == nil && y.I == nil:
			if len(x.B) != len(y.B) {
				return TFalse
			}
			for j := range x.B {
				r = And(r, Eq(x.B[j], y.B[j]))
			}
		default:
			return TFalse
		}
	}
	return r
}

var digestBytes = 1 // number of significant digest bytes in the toy setting

// emptyDigest is the digest of the empty string (fixes the second generator).
var emptyDigest *big.Int

// answerVar is a fresh digest.
func (ex *Exec) answerVar(nm string) *Term {
	c := IntVar(nm+".c", big1, new(big.Int).Sub(curve.N, big1))
	var d *Term
	if ex.realHash {
		d = IntVar(nm+".d", big0, maskOf(256))
	} else {
		top := new(big.Int).Sub(pow2(8*digestBytes), big1)
		qm := new(big.Int).Quo(new(big.Int).Sub(top, new(big.Int).Sub(curve.N, big1)), curve.N)
		if qm.Sign() < 0 {
			qm = big0
		}
		k := IntVar(nm+".q", big0, qm)
		d = IAdd(c, IMul(IntC(curve.N), k))
	}
	return d
}

func (ex *Exec) hashOracle(st *State, segs []Seg) *Term {
	if len(segs) == 0 {
		return IntC(emptyDigest)
	}
	if ex.loose {
		return ex.looseOracle(st, segs)
	}
	o := st.oracleID()
	qs := st.queries(o)
	for _, q := range qs {
		t := q.(*Tuple)
		if segsEq(t.V[0].(*Slice).Rope.Segs, segs) == TTrue {
			return t.V[1].(*BigVal).T
		}
	}
	n := len(qs)
	d := ex.answerVar(fmt.Sprintf("hash!%s!%d", o, n))
	for _, q := range qs {
		t := q.(*Tuple)
		eq := st.simp(segsEq(t.V[0].(*Slice).Rope.Segs, segs))
		if eq == TFalse {
			continue
		}
		st.assume(Implies(eq, IEq(d, t.V[1].(*BigVal).T)))
	}
	nq := append(qs[:len(qs):len(qs)], &Tuple{[]Value{&Slice{Rope: &Rope{segs}}, &BigVal{d}}})
	st.hooks["q:"+o] = &Struct{nq}
	return d
}

// ---------- curve

func (ex *Exec) point(st *State, dl *Term) []Value {
	return []Value{ex.newBig(st, mkPXY(OpPX, dl)), ex.newBig(st, mkPXY(OpPY, dl))}
}

func onCurveTable(x, y *Term) *Term {
	r := TFalse
	for i := 1; i < len(curve.X); i++ {
		r = Or(r, And(IEq(x, IntC(curve.X[i])), IEq(y, IntC(curve.Y[i]))))
	}
	return r
}

// dlog recovers the discrete log term of a point given by coordinate terms.
func (ex *Exec) dlog(st *State, x, y *Term) *Term {
	if isZero(x) && isZero(y) {
		return IntI(0)
	}
	if x.isConst() && y.isConst() {
		for i := range curve.X {
			if curve.X[i].Cmp(x.V) == 0 && curve.Y[i].Cmp(y.V) == 0 {
				return IntI(int64(i))
			}
		}
		ex.assumes["group operations on points off the curve are not explored"] = true
		panic(killReq{"off curve"})
	}
	if y.Op == OpPY && x.Op == OpPX {
		if x.A[0] == y.A[0] || x == mkPXY(OpPX, y.A[0]) {
			return y.A[0]
		}
		if IEq(x.A[0], IMod(INeg(y.A[0]), curve.N)) == TTrue {
			return y.A[0]
		}
		if st.simp(IEq(x.A[0], y.A[0])) == TTrue || st.simp(IEq(x, mkPXY(OpPX, y.A[0]))) == TTrue {
			return y.A[0]
		}
		if !ex.feasible(st, Not(IEq(x, mkPXY(OpPX, y.A[0])))) {
			st.addFact(IEq(x, mkPXY(OpPX, y.A[0])))
			return y.A[0]
		}
	}
	if curve.X == nil {
		panic(unsup("unknown point in abstract group"))
	}
	key := fmt.Sprintf("dl:%d:%d", x.id, y.id)
	if v, ok := st.hooks[key]; ok {
		return v.(*Term)
	}
	on := Or(onCurveTable(x, y), And(IEq(x, IntI(0)), IEq(y, IntI(0))))
	if !ex.decide(st, on) {
		ex.assumes["group operations on points off the curve are not explored"] = true
		panic(killReq{"off curve"})
	}
	r := IntI(0)
	for i := len(curve.X) - 1; i >= 1; i-- {
		r = Ite(And(IEq(x, IntC(curve.X[i])), IEq(y, IntC(curve.Y[i]))), IntI(int64(i)), r)
	}
	return r
}

func (ex *Exec) dlogArgs(st *State, a, b Value) *Term {
	return ex.dlog(st, ex.bigT(st, a), ex.bigT(st, b))
}

var hmacIDs = map[string]int{}

// hDlog is the discrete log of the second generator in the abstract group.
var hDlog *Term

func sortedKeys(m map[string]Value, pre string) []string {
	var ks []string
	for k := range m {
		if strings.HasPrefix(k, pre) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func initSym() {
	S := func(n string, f intrinsic) { reg("verifstub/sym."+n, f) }
	S("N", func(ex *Exec, st *State, c *callCtx) []Value { return []Value{ex.newBig(st, IntC(curve.N))} })
	S("Scalar", func(ex *Exec, st *State, c *callCtx) []Value {
		n := st.uniq(ex.strArg(st, c.args[0]))
		return []Value{ex.newBig(st, IntVar(n, big0, new(big.Int).Sub(curve.N, big1)))}
	})
	S("Wide", func(ex *Exec, st *State, c *callCtx) []Value {
		n := st.uniq(ex.strArg(st, c.args[0]))
		return []Value{ex.newBig(st, wideTerm(n, wideBits))}
	})
	S("IntB", func(ex *Exec, st *State, c *callCtx) []Value {
		lo, hi := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		n := st.uniq(ex.strArg(st, c.args[0]))
		return []Value{ex.newBig(st, IntVar(n, lo.V, hi.V))}
	})
	S("Int", func(ex *Exec, st *State, c *callCtx) []Value {
		lo, hi := c.args[1].(*Term).sval(), c.args[2].(*Term).sval()
		n := st.uniq(ex.strArg(st, c.args[0]))
		return []Value{ex.newBig(st, IntVar(n, lo, hi))}
	})
	S("BitInt", func(ex *Exec, st *State, c *callCtx) []Value {
		w := ex.concInt(st, c.args[1], 4)
		n := st.uniq(ex.strArg(st, c.args[0]))
		return []Value{ex.newBig(st, BV2I(Var(n, SBV(w))))}
	})
	S("Bits", func(ex *Exec, st *State, c *callCtx) []Value {
		w := ex.concInt(st, c.args[1], 4)
		n := st.uniq(ex.strArg(st, c.args[0]))
		r := IntI(0)
		for i := 0; i < w; i++ {
			b := Eq(Var(fmt.Sprintf("%s[%d]", n, i), SBV(1)), BVu(1, 1))
			r = IAdd(r, IMul(IntC(pow2(i)), Ite(b, IntI(1), IntI(0))))
		}
		return []Value{ex.newBig(st, r)}
	})
	S("Bytes", func(ex *Exec, st *State, c *callCtx) []Value {
		w := ex.concInt(st, c.args[1], 4)
		n := st.uniq(ex.strArg(st, c.args[0]))
		bs := make([]*Term, w)
		for i := range bs {
			bs[i] = Var(fmt.Sprintf("%s[%d]", n, i), SBV(8))
		}
		return []Value{ex.bytesSlice(st, bs)}
	})
	for n, w := range map[string]int{"Byte": 8, "U16": 16, "U32": 32, "U64": 64} {
		w := w
		S(n, func(ex *Exec, st *State, c *callCtx) []Value {
			return []Value{Var(st.uniq(ex.strArg(st, c.args[0])), SBV(w))}
		})
	}
	S("Bool", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{Eq(Var(st.uniq(ex.strArg(st, c.args[0])), SBV(1)), BVu(1, 1))}
	})
	S("Choice", func(ex *Exec, st *State, c *callCtx) []Value {
		// forks; the counter is only advanced once the value is fixed
		name := ex.strArg(st, c.args[0])
		n := ex.concInt(st, c.args[1], 4)
		cnt := st.hooks["cnt:"+name]
		u := st.uniq(name)
		v := Var(u, SBV(16))
		if r, ok := st.vals[v.id]; ok {
			return []Value{Zext(r, 64)}
		}
		for i := 0; i < n; i++ {
			if st.simp(Eq(v, BVu(uint64(i), 16))) == TTrue {
				return []Value{BVu(uint64(i), 64)}
			}
		}
		if cnt == nil {
			delete(st.hooks, "cnt:"+name)
		} else {
			st.hooks["cnt:"+name] = cnt
		}
		var conds []*Term
		for i := 0; i < n; i++ {
			conds = append(conds, Eq(v, BVu(uint64(i), 16)))
		}
		panic(choiceReq{u, conds})
	})
	S("Assume", func(ex *Exec, st *State, c *callCtx) []Value {
		t := st.simp(ex.resolve(st, c.args[0]).(*Term))
		if t == TFalse || (t != TTrue && !ex.feasible(st, t)) {
			panic(killReq{"assumption"})
		}
		st.assume(t)
		return nil
	})
	S("Assert", func(ex *Exec, st *State, c *callCtx) []Value {
		ex.assertion(st, ex.resolve(st, c.args[0]).(*Term), ex.strArg(st, c.args[1]))
		return nil
	})
	S("Cover", func(ex *Exec, st *State, c *callCtx) []Value {
		l := ex.strArg(st, c.args[0])
		ex.cover[l]++
		if _, ok := ex.coverModel[l]; !ok && ex.wantCover {
			var r Result
			var m Model
			if ex.fieldOn {
				if m = ex.guessModel(st.pc.list(), 400); m != nil {
					r = Sat
				}
			}
			if m == nil && !opaqueOn {
				r, m, _ = ex.solveOracle(st.pc.list(), ex.aTimeout, ex.portfolio...)
			}
			if r == Sat {
				ex.coverModel[l] = &Witness{Label: l, Model: m, Oracle: ex.oracleLog(st, m)}
			}
		}
		return nil
	})
	S("And", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{And(ex.resolve(st, c.args[0]).(*Term), ex.resolve(st, c.args[1]).(*Term))}
	})
	S("Or", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{Or(ex.resolve(st, c.args[0]).(*Term), ex.resolve(st, c.args[1]).(*Term))}
	})
	S("Implies", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{Implies(ex.resolve(st, c.args[0]).(*Term), ex.resolve(st, c.args[1]).(*Term))}
	})
	S("Eq", func(ex *Exec, st *State, c *callCtx) []Value { // big.Int equality without forking
		return []Value{IEq(ex.bigT(st, c.args[0]), ex.bigT(st, c.args[1]))}
	})
	S("Lt", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ILt(ex.bigT(st, c.args[0]), ex.bigT(st, c.args[1]))}
	})
	S("Canonical", func(ex *Exec, st *State, c *callCtx) []Value {
		t := ex.bigT(st, c.args[0])
		return []Value{And(IGe(t, IntI(0)), ILt(t, IntC(curve.N)))}
	})
	S("EqMod", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.bigT(st, c.args[0]), ex.bigT(st, c.args[1])
		return []Value{ieq0mod(ISub(a, b), curve.N)}
	})
	S("EqModM", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b, m := ex.bigT(st, c.args[0]), ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		if ex.fieldOn && m.V.Cmp(curve.P) == 0 {
			if z := ex.zeroMod(st, ISub(a, b)); z.isConst() {
				return []Value{z}
			}
		}
		return []Value{eqModWords(ISub(a, b), m.V)}
	})
	S("RealPoint", func(ex *Exec, st *State, c *callCtx) []Value {
		return ex.point(st, IMod(ex.bigT(st, c.args[0]), curve.N))
	})
	S("Native", func(ex *Exec, st *State, c *callCtx) []Value { return []Value{TFalse} })
	S("IsMultiple", func(ex *Exec, st *State, c *callCtx) []Value {
		var t [4]*Term
		for i := range t {
			t[i] = ex.bigT(st, c.args[i])
		}
		return []Value{ex.isMultiple(st, t[0], t[1], t[2], t[3], ex.bigT(st, c.args[4]))}
	})
	S("NonZeroM", func(ex *Exec, st *State, c *callCtx) []Value {
		z := ieq0mod(ex.bigT(st, c.args[0]), ex.bigT(st, c.args[1]).V)
		if ex.fieldOn {
			z = ex.zeroMod(st, ex.bigT(st, c.args[0]))
		}
		return []Value{Not(z)}
	})
	S("Point", func(ex *Exec, st *State, c *callCtx) []Value {
		return ex.point(st, IMod(ex.bigT(st, c.args[0]), curve.N))
	})
	S("Dlog", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.newBig(st, ex.dlogArgs(st, c.args[0], c.args[1]))}
	})
	S("HDlog", func(ex *Exec, st *State, c *callCtx) []Value { return []Value{ex.newBig(st, hDlog)} })
	S("Oracle", func(ex *Exec, st *State, c *callCtx) []Value {
		st.hooks["oracle"] = c.args[0].(*Term)
		return nil
	})
	S("Epoch", func(ex *Exec, st *State, c *callCtx) []Value {
		st.hooks["epoch"] = c.args[0].(*Term)
		st.hooks["tidbase"] = BVu(uint64(len(st.threads)-1), 64)
		for _, t := range st.threads {
			t.nrand = 0
		}
		return nil
	})
	S("Order", func(ex *Exec, st *State, c *callCtx) []Value {
		st.hooks["order"] = c.args[0].(*Term)
		return nil
	})
	S("Queries", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{BVu(uint64(len(st.queries(fmt.Sprint(c.args[0].(*Term).V)))), 64)}
	})
	S("Cat", func(ex *Exec, st *State, c *callCtx) []Value {
		// the stub's running hash input is only ever read, so it may stay abstract
		segs := catSegs(ex.segsOf(st, c.args[0]), ex.segsOf(st, c.args[1]))
		if !useRopes {
			return []Value{ex.bytesSlice(st, ex.ropeBytes(st, &Rope{segs}))}
		}
		return []Value{&Slice{Rope: &Rope{segs}}}
	})
	S("SameQuery", func(ex *Exec, st *State, c *callCtx) []Value {
		a := st.queries(fmt.Sprint(c.args[0].(*Term).V))
		b := st.queries(fmt.Sprint(c.args[2].(*Term).V))
		i, j := ex.concInt(st, c.args[1], 8), ex.concInt(st, c.args[3], 8)
		if i >= len(a) || j >= len(b) {
			return []Value{TFalse}
		}
		return []Value{segsEq(a[i].(*Tuple).V[0].(*Slice).Rope.Segs, b[j].(*Tuple).V[0].(*Slice).Rope.Segs)}
	})
	S("SameBytes", func(ex *Exec, st *State, c *callCtx) []Value { // byte-exact comparison of two queries
		a := st.queries(fmt.Sprint(c.args[0].(*Term).V))
		b := st.queries(fmt.Sprint(c.args[2].(*Term).V))
		i, j := ex.concInt(st, c.args[1], 8), ex.concInt(st, c.args[3], 8)
		if i >= len(a) || j >= len(b) {
			return []Value{TFalse}
		}
		return []Value{bytesEqExact(a[i].(*Tuple).V[0].(*Slice).Rope.Segs, b[j].(*Tuple).V[0].(*Slice).Rope.Segs)}
	})
	S("Answer", func(ex *Exec, st *State, c *callCtx) []Value { // challenge of query i of oracle o, mod N
		a := st.queries(fmt.Sprint(c.args[0].(*Term).V))
		i := ex.concInt(st, c.args[1], 8)
		if i >= len(a) {
			return []Value{ex.newBig(st, IntI(0))}
		}
		return []Value{ex.newBig(st, IMod(a[i].(*Tuple).V[1].(*BigVal).T, curve.N))}
	})
	S("RandFaults", func(ex *Exec, st *State, c *callCtx) []Value {
		st.hooks["faults"] = c.args[0]
		return nil
	})
	S("FaultHappened", func(ex *Exec, st *State, c *callCtx) []Value {
		if v, ok := st.hooks["faulted"]; ok {
			return []Value{v}
		}
		return []Value{TFalse}
	})
	S("Draws", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{BVu(uint64(st.th().nrand), 64)}
	})
	S("Nonce", func(ex *Exec, st *State, c *callCtx) []Value { // nonce number i of thread t in epoch e
		e, t, i := ex.concInt(st, c.args[0], 8), ex.concInt(st, c.args[1], 8), ex.concInt(st, c.args[2], 8)
		n := fmt.Sprintf("nonce!%d!%d!%d", e, t, i)
		return []Value{ex.newBig(st, IntVar(n, big0, new(big.Int).Sub(curve.N, big1)))}
	})
	S("NonceSpace", func(ex *Exec, st *State, c *callCtx) []Value { // number of nonce vectors drawn in epoch e
		r := IntI(1)
		for _, k := range sortedKeys(st.hooks, "draw!nonce!"+fmt.Sprint(c.args[0].(*Term).V)+"!") {
			mx, _ := new(big.Int).SetString(strings.TrimSuffix(k[strings.LastIndex(k, "|")+1:], "b"), 10)
			r = IMul(r, Ite(st.hooks[k].(*Term), IntC(mx), IntI(1)))
		}
		return []Value{ex.newBig(st, r)}
	})
	S("SameNonces", func(ex *Exec, st *State, c *callCtx) []Value { // all draws of epoch e and f agree
		r := TTrue
		pre := "draw!nonce!" + fmt.Sprint(c.args[0].(*Term).V) + "!"
		for _, k := range sortedKeys(st.hooks, pre) {
			i := strings.LastIndex(k, "|")
			n := k[len("draw!"):i]
			n2 := "nonce!" + fmt.Sprint(c.args[1].(*Term).V) + "!" + n[len(pre)-len("draw!"):]
			var e *Term
			if strings.HasSuffix(k, "b") {
				e = Eq(Var(n, SBV(8)), Var(n2, SBV(8)))
			} else {
				mx, _ := new(big.Int).SetString(k[i+1:], 10)
				mx.Sub(mx, big1)
				e = IEq(IntVar(n, big0, mx), IntVar(n2, big0, mx))
			}
			r = And(r, Or(Not(st.hooks[k].(*Term)), e))
		}
		return []Value{r}
	})
	S("Blocked", func(ex *Exec, st *State, c *callCtx) []Value { // goroutines not finished (other than caller)
		n := 0
		for i, t := range st.threads {
			if i != st.cur && !t.done {
				n++
			}
		}
		return []Value{BVu(uint64(n), 64)}
	})
	S("Conc", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.concrete(st, ex.resolve(st, c.args[0]).(*Term), 600)}
	})
	S("Settle", func(ex *Exec, st *State, c *callCtx) []Value { // let the other goroutines run until done or blocked
		for i, t := range st.threads {
			if i != st.cur && !t.done && !t.blocked {
				panic(yieldReq{})
			}
		}
		return nil
	})

	// crypto/sha256
	oracleArr := func(ex *Exec, st *State, segs []Seg) Value {
		d := ex.hashOracle(st, segs)
		e := make([]Value, 32)
		for i := range e {
			if ex.realHash {
				e[i] = byteAt(d, 31-i)
			} else if i >= 32-digestBytes {
				e[i] = byteAt(d, 31-i)
			} else {
				e[i] = BVu(0, 8)
			}
		}
		return &Array{e}
	}
	reg("verifstub/sha256.Oracle", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{oracleArr(ex, st, ex.segsOf(st, c.args[0]))}
	})

	// an uninterpreted function of the two numbers: equal arguments, equal answers; others are unrelated
	reg("verifstub/hmac.Oracle", func(ex *Exec, st *State, c *callCtx) []Value {
		key := "hmac"
		for _, a := range c.args[:2] {
			bs := bytesOfSlice(ex, st, a)
			key += fmt.Sprintf("|%d:%d", len(bs), beInt(bs).id)
		}
		if os.Getenv("GOSYM_HMAC") != "" {
			fmt.Fprintln(os.Stderr, "HMAC", key, beInt(bytesOfSlice(ex, st, c.args[1])).str(6))
		}
		n, ok := hmacIDs[key]
		if !ok {
			n = len(hmacIDs)
			hmacIDs[key] = n
		}
		d := IntVar(fmt.Sprintf("hmac!%d", n), big0, new(big.Int).Sub(pow2(256), big1))
		e := make([]Value, 32)
		for i := range e {
			e[i] = byteAt(d, 31-i)
		}
		return []Value{&Array{e}}
	})

	// crypto/rand
	draw := func(ex *Exec, st *State, suffix string) (string, Value) {
		t := st.th()
		ep := "0"
		if v, ok := st.hooks["epoch"]; ok {
			ep = fmt.Sprint(v.(*Term).V)
		}
		tid := t.id
		if v, ok := st.hooks["tidbase"]; ok && tid != 0 {
			tid -= int(v.(*Term).V.Int64())
		}
		name := fmt.Sprintf("nonce!%s!%d!%d%s", ep, tid, t.nrand, suffix)
		if fv, ok := st.hooks["faults"]; ok && fv.(*Term) == TTrue {
			fb := Eq(Var("fault"+name, SBV(1)), BVu(1, 1))
			if ex.decide(st, fb) {
				t.nrand++
				st.hooks["faulted"] = TTrue
				return name, ex.newError(st, &Str{Opq: "rand failure"})
			}
		}
		t.nrand++
		return name, nil
	}
	reg("verifstub/rand.Int", func(ex *Exec, st *State, c *callCtx) []Value {
		m := ex.bigT(st, c.args[1])
		if !m.isConst() {
			panic(unsup("rand.Int with symbolic bound"))
		}
		if m.V.Sign() <= 0 {
			panic(panicReq{msg: "crypto/rand: argument to Int is <= 0", rt: true})
		}
		name, err := draw(ex, st, "")
		if err != nil {
			return []Value{nilPtr(), err}
		}
		if m.V.Cmp(curve.N) != 0 {
			name += "m" + m.V.Text(16)
		}
		v := IntVar(name, big0, new(big.Int).Sub(m.V, big1))
		st.hooks["draw!"+name+"|"+m.V.String()] = TTrue
		return []Value{ex.newBig(st, v), &Iface{}}
	})
	rd := func(ex *Exec, st *State, buf Value) []Value {
		s := ex.resolve(st, buf).(*Slice)
		n := ex.concInt(st, s.Len, 64)
		name, err := draw(ex, st, "b")
		if err != nil {
			return []Value{BVu(0, 64), err}
		}
		if n > 0 {
			bs := make([]Value, n)
			for i := range bs {
				bs[i] = Var(fmt.Sprintf("%s[%d]", name, i), SBV(8))
				st.hooks[fmt.Sprintf("draw!%s[%d]|256b", name, i)] = TTrue
			}
			tmp := ex.alloc(st, &Array{bs}, types.NewArray(types.Typ[types.Uint8], int64(n)))
			ex.copyB(st, s, &Slice{Arr: tmp, Off: BVu(0, 64), Len: BVu(uint64(n), 64), Cap: BVu(uint64(n), 64)})
		}
		return []Value{BVu(uint64(n), 64), &Iface{}}
	}
	reg("verifstub/rand.Read", func(ex *Exec, st *State, c *callCtx) []Value { return rd(ex, st, c.args[0]) })
	reg("(verifstub/rand.reader).Read", func(ex *Exec, st *State, c *callCtx) []Value { return rd(ex, st, c.args[1]) })

	// abstract curve
	K := func(n string, f intrinsic) { reg("(*verifstub/btcec.KoblitzCurve)."+n, f) }
	K("ScalarMult", func(ex *Exec, st *State, c *callCtx) []Value {
		d := ex.dlogArgs(st, c.args[1], c.args[2])
		k := ex.bytesToInt(st, c.args[3])
		return ex.point(st, IMod(IMul(d, k), curve.N))
	})
	K("ScalarBaseMult", func(ex *Exec, st *State, c *callCtx) []Value {
		k := ex.bytesToInt(st, c.args[1])
		return ex.point(st, IMod(k, curve.N))
	})
	K("ScalarBaseMultH", func(ex *Exec, st *State, c *callCtx) []Value {
		k := ex.bytesToInt(st, c.args[1])
		return ex.point(st, IMod(IMul(hDlog, k), curve.N))
	})
	K("Add", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.dlogArgs(st, c.args[1], c.args[2]), ex.dlogArgs(st, c.args[3], c.args[4])
		return ex.point(st, IMod(IAdd(a, b), curve.N))
	})
	K("Double", func(ex *Exec, st *State, c *callCtx) []Value {
		a := ex.dlogArgs(st, c.args[1], c.args[2])
		return ex.point(st, IMod(IAdd(a, a), curve.N))
	})
	K("IsOnCurve", func(ex *Exec, st *State, c *callCtx) []Value {
		x, y := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		if x.Op == OpPX && y.Op == OpPY && (x.A[0] == y.A[0] || x == mkPXY(OpPX, y.A[0]) || IEq(x.A[0], IMod(INeg(y.A[0]), curve.N)) == TTrue) {
			return []Value{Not(IEq(y.A[0], IntI(0)))}
		}
		if isZero(x) && isZero(y) {
			return []Value{TFalse}
		}
		if curve.X == nil {
			d := ex.dlog(st, x, y)
			return []Value{Not(IEq(d, IntI(0)))}
		}
		return []Value{onCurveTable(x, y)}
	})
	S("Not", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{Not(ex.resolve(st, c.args[0]).(*Term))}
	})
	reg("verifstub/btcec.orderN", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.newBig(st, IntC(curve.N))}
	})
	reg("verifstub/btcec.fieldP", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.newBig(st, IntC(curve.P))}
	})
	reg("verifstub/btcec.basePoint", func(ex *Exec, st *State, c *callCtx) []Value {
		return ex.point(st, IntI(1))
	})
}

var wideBits = 12

type yieldReq struct{}

// Witness is a concrete assignment that can be replayed natively.
type Witness struct {
	Label  string
	Model  Model
	Oracle []OracleEntry
}

type OracleEntry struct {
	ID     string
	Query  string // hex
	Digest string // decimal
}

// evalRope evaluates rope bytes under a model.
func evalSegs(segs []Seg, m Model) []byte {
	memo := map[int64]*big.Int{}
	var out []byte
	for _, s := range segs {
		if s.I != nil {
			out = append(out, new(big.Int).Abs(Eval(s.I, m, memo)).Bytes()...)
			continue
		}
		for _, b := range s.B {
			out = append(out, byte(Eval(b, m, memo).Uint64()))
		}
	}
	return out
}

func (ex *Exec) oracleLog(st *State, m Model) []OracleEntry {
	if ex.loose {
		return ex.looseLog(m)
	}
	var out []OracleEntry
	for k, v := range st.hooks {
		if !strings.HasPrefix(k, "q:") {
			continue
		}
		s, ok := v.(*Struct)
		if !ok {
			continue
		}
		for _, q := range s.F {
			t, ok := q.(*Tuple)
			if !ok {
				continue
			}
			sl, ok := t.V[0].(*Slice)
			if !ok || sl.Rope == nil {
				continue
			}
			d := Eval(t.V[1].(*BigVal).T, m, map[int64]*big.Int{})
			out = append(out, OracleEntry{ID: k[2:], Query: fmt.Sprintf("%x", evalSegs(sl.Rope.Segs, m)), Digest: d.String()})
		}
	}
	return out
}

func bytesOfSlice(ex *Exec, st *State, v Value) []*Term {
	s := ex.resolve(st, v)
	if sl, ok := s.(*Slice); ok && sl.Rope != nil {
		return ex.ropeBytes(st, sl.Rope)
	}
	return ex.bytesOf(st, s)
}
