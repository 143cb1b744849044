package main

import (
	"fmt"
	"math/big"
)

// Contract "group": the methods of the curve act on discrete logarithms, and decompressPoint finds
// the point with a given x coordinate, if there is one.
func groupContract(ex *Exec) {
	gx, _ := new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	log := func(ex *Exec, st *State, a, b Value) *Term {
		x, y := ex.bigT(st, a), ex.bigT(st, b)
		if x.isConst() && x.V.Cmp(gx) == 0 {
			return IntI(1)
		}
		if st.simp(And(IEq(x, IntI(0)), IEq(y, IntI(0)))) == TTrue {
			return IntI(0)
		}
		if v, ok := st.hooks[fmt.Sprintf("log:%d:%d", x.id, y.id)]; ok {
			return v.(*Term)
		}
		if v, ok := st.hooks[fmt.Sprintf("lift:%d", x.id)]; ok && y.Op == OpPY {
			if t := v.(*Term); y.A[0] == t || y.A[0] == IMod(INeg(t), curve.N) {
				return y.A[0]
			}
		}
		return ex.dlog(st, x, y)
	}
	ret := func(ex *Exec, st *State, d *Term) []Value {
		d = IMod(d, curve.N)
		if !unitProduct(d) && ex.decide(st, IEq(withoutInverses(d), IntI(0))) {
			return []Value{ex.newBig(st, IntI(0)), ex.newBig(st, IntI(0))}
		}
		st.assume(Not(IEq(mkPXY(OpPX, d), IntI(0))))
		st.assume(Not(IEq(mkPXY(OpPY, d), IntI(0))))
		return ex.point(st, d)
	}
	M := func(name string, f contractFn) {
		ex.ctrOverride["(*"+rootPkg+"/btcec.KoblitzCurve)."+name] = f
	}
	// vhLog(x, y, d) says that (x, y) has the logarithm d
	ex.ctrOverride[rootPkg+"/btcec.vhLog"] = func(ex *Exec, st *State, c *callCtx) []Value {
		x, y := ex.bigT(st, c.args[0]), ex.bigT(st, c.args[1])
		st.hooks[fmt.Sprintf("log:%d:%d", x.id, y.id)] = ex.bigT(st, c.args[2])
		return nil
	}
	M("IsOnCurve", func(ex *Exec, st *State, c *callCtx) []Value {
		x, y := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		k := fmt.Sprintf("log:%d:%d", x.id, y.id)
		if _, ok := st.hooks[k]; ok {
			return []Value{TTrue}
		}
		if !ex.decide(st, Var(fmt.Sprintf("on!%d!%d", x.id, y.id), Sort{K: KBool})) {
			return []Value{TFalse}
		}
		st.hooks[k] = IntVar(fmt.Sprintf("log!%d!%d", x.id, y.id), big1, new(big.Int).Sub(curve.N, big1))
		return []Value{TTrue}
	})
	val := func(ex *Exec, st *State, v Value) *Term { return ex.bytesToInt(st, v) }
	M("Add", func(ex *Exec, st *State, c *callCtx) []Value {
		return ret(ex, st, IAdd(log(ex, st, c.args[1], c.args[2]), log(ex, st, c.args[3], c.args[4])))
	})
	M("Double", func(ex *Exec, st *State, c *callCtx) []Value {
		return ret(ex, st, IMul(IntI(2), log(ex, st, c.args[1], c.args[2])))
	})
	M("ScalarMult", func(ex *Exec, st *State, c *callCtx) []Value {
		return ret(ex, st, IMul(log(ex, st, c.args[1], c.args[2]), val(ex, st, c.args[3])))
	})
	M("ScalarBaseMult", func(ex *Exec, st *State, c *callCtx) []Value {
		return ret(ex, st, val(ex, st, c.args[1]))
	})
	ex.ctrOverride[rootPkg+"/btcec.decompressPoint"] = func(ex *Exec, st *State, c *callCtx) []Value {
		x := ex.bigT(st, c.args[1])
		odd := ex.decide(st, ex.resolve(st, c.args[2]).(*Term))
		t := x
		if x.Op == OpPX {
			t = x.A[0]
		} else {
			key := fmt.Sprintf("lift:%d", x.id)
			if v, ok := st.hooks[key]; ok {
				t = v.(*Term)
			} else {
				on := Var(fmt.Sprintf("lifts!%d", x.id), Sort{K: KBool})
				if !ex.decide(st, on) {
					return []Value{nilPtr(), ex.newError(st, &Str{Opq: "not on the curve"})}
				}
				t = IntVar(fmt.Sprintf("lift!%d", x.id), big1, new(big.Int).Sub(curve.N, big1))
				st.addFact(IEq(x, mkPXY(OpPX, t)))
				st.hooks[key] = t
			}
		}
		y := mkPXY(OpPY, t)
		if ex.decide(st, IEq(IMod(y, big.NewInt(2)), IntI(1))) != odd {
			t = IMod(INeg(t), curve.N)
			y = mkPXY(OpPY, t)
		}
		return []Value{ex.newBig(st, y), &Iface{}}
	}
}

// unitProduct: d is a product of numbers that are not zero modulo N, which is prime.
func unitProduct(d *Term) bool {
	if d.Op != OpIMod || d.A[0].Op != OpPoly || len(d.A[0].P) != 1 {
		return false
	}
	m := d.A[0].P[0]
	for _, x := range m.M {
		if x.lo == nil || x.lo.Sign() <= 0 || x.hi == nil || x.hi.Cmp(curve.N) >= 0 {
			return false
		}
	}
	return len(m.M) > 0 && new(big.Int).Mod(m.C, curve.N).Sign() != 0
}

// withoutInverses drops the inverses that are factors of d modulo N: they are not zero.
func withoutInverses(d *Term) *Term {
	if d.Op != OpIMod || d.A[0].Op != OpPoly || len(d.A[0].P) == 0 {
		return d
	}
	p := d.A[0]
	for _, f := range p.P[0].M {
		if f.Op != OpIInv {
			continue
		}
		all := true
		var sum *Term = IntI(0)
		for _, m := range p.P {
			at := -1
			for i, x := range m.M {
				if x == f {
					at = i
				}
			}
			if at < 0 {
				all = false
				break
			}
			t := IntC(m.C)
			for i, x := range m.M {
				if i != at {
					t = IMul(t, x)
				}
			}
			sum = IAdd(sum, t)
		}
		if all {
			return withoutInverses(IMod(sum, d.V))
		}
	}
	return d
}

// Contract "nonce": nonceRFC6979 is a function of key and hash into [1, N-1].
func nonceContract(ex *Exec) {
	ex.ctrOverride[rootPkg+"/btcec.nonceRFC6979"] = func(ex *Exec, st *State, c *callCtx) []Value {
		key := fmt.Sprintf("nonce %d", ex.bigT(st, c.args[0]).id)
		for _, s := range ex.segsOf(st, c.args[1]) {
			for _, b := range s.B {
				key += fmt.Sprintf(",%d", b.id)
			}
			if s.I != nil {
				key += fmt.Sprintf(";%d", s.I.id)
			}
		}
		n, ok := hmacIDs[key]
		if !ok {
			n = len(hmacIDs)
			hmacIDs[key] = n
		}
		return []Value{ex.newBig(st, IntVar(fmt.Sprintf("nonce!%d", n), big1, new(big.Int).Sub(curve.N, big1)))}
	}
}

var stripOn bool // zero modulo N is decided without factors that are inverses

// Contract "sign": signRFC6979 returns the signature in the harness variable vhSig.
func signContract(ex *Exec) {
	stripOn = true
	ex.ctrOverride[rootPkg+"/btcec.signRFC6979"] = func(ex *Exec, st *State, c *callCtx) []Value {
		g := ex.prog.ImportedPackage(rootPkg + "/btcec").Var("vhSig")
		return []Value{ex.loadV(st, &Ptr{Obj: ex.globalObj(g)}), &Iface{}}
	}
}

func init() {
	contracts["sign"] = signContract
	contracts["nonce"] = nonceContract
	contracts["group"] = groupContract
}

// Contract "ecdsa": crypto/ecdsa.Verify is an unknown function of key, hash, r and s.
func ecdsaContract(ex *Exec) {
	ex.ctrOverride["crypto/ecdsa.Verify"] = func(ex *Exec, st *State, c *callCtx) []Value {
		k := ex.resolve(st, ex.loadV(st, ex.resolve(st, c.args[0]))).(*Struct)
		bs := bytesOfSlice(ex, st, c.args[1])
		n := fmt.Sprintf("verify!%d", len(bs))
		for _, t := range append([]*Term{beInt(bs)}, ex.bigT(st, k.F[1]), ex.bigT(st, k.F[2]), ex.bigT(st, c.args[2]), ex.bigT(st, c.args[3])) {
			n += fmt.Sprintf("!%d", t.id)
		}
		return []Value{Var(n, Sort{K: KBool})}
	}
}

// Contract "newkey": NewPrivateKey returns the key in the harness variable vhEph.
func newkeyContract(ex *Exec) {
	ex.ctrOverride[rootPkg+"/btcec.NewPrivateKey"] = func(ex *Exec, st *State, c *callCtx) []Value {
		g := ex.prog.ImportedPackage(rootPkg + "/btcec").Var("vhEph")
		return []Value{ex.loadV(st, &Ptr{Obj: ex.globalObj(g)}), &Iface{}}
	}
}

func init() { contracts["newkey"] = newkeyContract }

func init() { contracts["ecdsa"] = ecdsaContract }

// Contract "basetab": entry j of row i of a table given to vhTable(table, d) is the point with the
// logarithm j 256^(31-i) d.
func basetabContract(ex *Exec) {
	ex.baseTables = map[int]*Term{}
	ex.ctrOverride[rootPkg+"/btcec.vhTable"] = func(ex *Exec, st *State, c *callCtx) []Value {
		p, ok := c.args[0].(*Ptr)
		if !ok || len(p.Path) > 0 {
			panic(unsup("table inside another object"))
		}
		ex.baseTables[p.Obj] = ex.bigT(st, c.args[1])
		return nil
	}
}

func tableEntry(d *Term, row, col PE) Value {
	if row.T != nil {
		panic(unsup("symbolic row of a table"))
	}
	j := IntI(int64(col.I))
	if col.T != nil {
		j = BV2I(col.T)
	}
	a := linN(IMul(IMul(d, j), IntC(pow2(8*(31-row.I)))))
	r := make([]Value, 3)
	for w := range r {
		e := make([]Value, 10)
		for i := range e {
			e[i] = BVu(0, 32)
		}
		e[0], e[1], e[2] = a, BVu(3, 32), pointTags[w]
		r[w] = &Struct{[]Value{&Array{e}}}
	}
	return &Array{r}
}

func init() { contracts["basetab"] = basetabContract }
