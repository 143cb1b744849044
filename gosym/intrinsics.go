package main

// Models of the standard-library functions the code under test calls.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type intrinsic func(ex *Exec, st *State, c *callCtx) []Value

var intrinsics = map[string]func(ex *Exec, st *State, c *callCtx) []Value{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

// ---------- math/big

// bigT reads the integer behind a *big.Int (panics in the program on nil).
func (ex *Exec) bigT(st *State, p Value) *Term {
	v := ex.loadV(st, p)
	switch b := v.(type) {
	case *BigVal:
		return b.T
	case *Choice:
		return ex.resolve(st, b).(*BigVal).T
	}
	panic(unsup(fmt.Sprintf("big.Int value %T", v)))
}

func (ex *Exec) setBig(st *State, p Value, t *Term) Value {
	ex.storeV(st, p, &BigVal{t})
	return p
}

var bigIntType types.Type

func (ex *Exec) newBig(st *State, t *Term) Value {
	return ex.alloc(st, &BigVal{t}, bigIntType)
}

// quoRem: truncated division by a positive constant or small concrete set.
func floorDivT(ex *Exec, st *State, a, b *Term) (q, r *Term) {
	bc := b
	if !b.isConst() {
		bc = ex.concrete(st, b, 64)
	}
	ex.must(st, Bool(bc.V.Sign() != 0), "division by zero")
	m := new(big.Int).Abs(bc.V)
	r = IMod(a, m) // Euclidean
	if a.lo != nil && a.lo.Sign() >= 0 || true {
		q = IDiv(a, m)
	}
	if bc.V.Sign() < 0 {
		q = INeg(q)
	}
	return q, r
}

func bin(f func(a, b *Term) *Term) intrinsic {
	return func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		return []Value{ex.setBig(st, c.args[0], f(a, b))}
	}
}

func cmpTerm(a, b *Term) *Term {
	eq := IEq(a, b)
	if eq == TTrue {
		return BVu(0, 64)
	}
	return Ite(eq, BVu(0, 64), Ite(ILt(a, b), BVi(-1, 64), BVu(1, 64)))
}

func initBig() {
	B := func(n string, f intrinsic) { reg("(*math/big.Int)."+n, f) }
	reg("math/big.NewInt", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.newBig(st, BV2ISigned(ex.resolve(st, c.args[0]).(*Term)))}
	})
	B("Set", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.setBig(st, c.args[0], ex.bigT(st, c.args[1]))}
	})
	B("SetInt64", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.setBig(st, c.args[0], BV2ISigned(ex.resolve(st, c.args[1]).(*Term)))}
	})
	B("SetUint64", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.setBig(st, c.args[0], BV2I(ex.resolve(st, c.args[1]).(*Term)))}
	})
	B("SetBytes", func(ex *Exec, st *State, c *callCtx) []Value {
		t := ex.bytesToInt(st, c.args[1])
		return []Value{ex.setBig(st, c.args[0], t)}
	})
	B("SetString", func(ex *Exec, st *State, c *callCtx) []Value {
		s, ok := ex.resolve(st, c.args[1]).(*Str).goStr()
		if !ok {
			panic(unsup("SetString of symbolic string"))
		}
		base := ex.concInt(st, c.args[2], 4)
		v, ok := new(big.Int).SetString(s, base)
		if !ok {
			return []Value{nilPtr(), TFalse}
		}
		return []Value{ex.setBig(st, c.args[0], IntC(v)), TTrue}
	})
	B("Add", bin(IAdd))
	B("Sub", bin(ISub))
	B("Mul", bin(IMul))
	B("Neg", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.setBig(st, c.args[0], INeg(ex.bigT(st, c.args[1])))}
	})
	B("Abs", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.setBig(st, c.args[0], absT(ex.bigT(st, c.args[1])))}
	})
	B("Mod", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		_, r := floorDivT(ex, st, a, b)
		return []Value{ex.setBig(st, c.args[0], r)}
	})
	B("Div", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		q, _ := floorDivT(ex, st, a, b)
		return []Value{ex.setBig(st, c.args[0], q)}
	})
	B("DivMod", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		q, r := floorDivT(ex, st, a, b)
		return []Value{ex.setBig(st, c.args[0], q), ex.setBig(st, c.args[3], r)}
	})
	trunc := func(ex *Exec, st *State, a, b *Term) (*Term, *Term) {
		bc := b
		if !b.isConst() {
			bc = ex.concrete(st, b, 64)
		}
		ex.must(st, Bool(bc.V.Sign() != 0), "division by zero")
		m := new(big.Int).Abs(bc.V)
		aa := absT(a)
		q, r := IDiv(aa, m), IMod(aa, m)
		if !(a.lo != nil && a.lo.Sign() >= 0) {
			neg := ILt(a, IntI(0))
			q, r = Ite(neg, INeg(q), q), Ite(neg, INeg(r), r)
		}
		if bc.V.Sign() < 0 {
			q = INeg(q)
		}
		return q, r
	}
	B("Quo", func(ex *Exec, st *State, c *callCtx) []Value {
		q, _ := trunc(ex, st, ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2]))
		return []Value{ex.setBig(st, c.args[0], q)}
	})
	B("Rem", func(ex *Exec, st *State, c *callCtx) []Value {
		_, r := trunc(ex, st, ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2]))
		return []Value{ex.setBig(st, c.args[0], r)}
	})
	B("QuoRem", func(ex *Exec, st *State, c *callCtx) []Value {
		q, r := trunc(ex, st, ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2]))
		return []Value{ex.setBig(st, c.args[0], q), ex.setBig(st, c.args[3], r)}
	})
	B("ModInverse", func(ex *Exec, st *State, c *callCtx) []Value {
		a, n := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		if !n.isConst() {
			n = ex.concrete(st, n, 16)
		}
		if !n.V.ProbablyPrime(16) {
			if a.isConst() {
				r := new(big.Int).ModInverse(a.V, n.V)
				if r == nil {
					return []Value{nilPtr()}
				}
				return []Value{ex.setBig(st, c.args[0], IntC(r))}
			}
			panic(unsup("ModInverse with composite modulus"))
		}
		m := IMod(a, n.V)
		if ex.decide(st, IEq(m, IntI(0))) {
			return []Value{nilPtr()}
		}
		return []Value{ex.setBig(st, c.args[0], IInv(m, n.V))}
	})
	B("Exp", func(ex *Exec, st *State, c *callCtx) []Value {
		x, y := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
		var m *Term
		if mp, ok := c.args[3].(*Ptr); !ok || mp.Obj != 0 {
			m = ex.bigT(st, c.args[3])
		}
		if x.isConst() && y.isConst() && (m == nil || m.isConst()) {
			var mm *big.Int
			if m != nil {
				mm = m.V
			}
			r := new(big.Int).Exp(x.V, y.V, mm)
			if r == nil {
				return []Value{nilPtr()}
			}
			return []Value{ex.setBig(st, c.args[0], IntC(r))}
		}
		if m == nil || !m.isConst() || m.V.Sign() <= 0 {
			panic(unsup("Exp with symbolic modulus"))
		}
		if !y.isConst() {
			y = ex.concrete(st, y, 64)
		}
		if y.V.Sign() >= 0 && y.V.BitLen() <= 12 {
			r := IntI(1)
			for i := y.V.BitLen() - 1; i >= 0; i-- {
				r = IMod(IMul(r, r), m.V)
				if y.V.Bit(i) == 1 {
					r = IMod(IMul(r, x), m.V)
				}
			}
			return []Value{ex.setBig(st, c.args[0], r)}
		}
		nm := fmt.Sprintf("powmod_%s_%s", y.V.Text(16), m.V.Text(16))
		ufRange[nm] = [2]*big.Int{big0, new(big.Int).Sub(m.V, big1)}
		if y.V.Sign() >= 0 {
			powmods[nm] = [2]*big.Int{y.V, m.V}
		}
		r := mk(Term{Op: OpUF, S: SInt, N: nm, A: []*Term{IMod(x, m.V)}})
		return []Value{ex.setBig(st, c.args[0], r)}
	})
	B("Cmp", func(ex *Exec, st *State, c *callCtx) []Value {
		if sameVal(c.args[0], c.args[1]) {
			return []Value{BVu(0, 64)}
		}
		return []Value{cmpTerm(ex.bigT(st, c.args[0]), ex.bigT(st, c.args[1]))}
	})
	B("CmpAbs", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{cmpTerm(absT(ex.bigT(st, c.args[0])), absT(ex.bigT(st, c.args[1])))}
	})
	B("Sign", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{cmpTerm(ex.bigT(st, c.args[0]), IntI(0))}
	})
	B("Bytes", func(ex *Exec, st *State, c *callCtx) []Value {
		t := ex.bigT(st, c.args[0])
		if useRopes && !t.isConst() {
			return []Value{&Slice{Rope: &Rope{[]Seg{{I: absT(t)}}}}}
		}
		bs := ex.ropeBytes(st, &Rope{[]Seg{{I: t}}})
		// big.Int.Bytes slices a word-aligned buffer: extra leading bytes are not reachable, capacity = length
		return []Value{ex.bytesSlice(st, bs)}
	})
	B("FillBytes", func(ex *Exec, st *State, c *callCtx) []Value {
		t := absT(ex.bigT(st, c.args[0]))
		s := ex.resolve(st, c.args[1]).(*Slice)
		n := ex.concInt(st, s.Len, 128)
		ex.must(st, ILt(t, IntC(pow2(8*n))), "math/big: buffer too small to fit value")
		if n == 0 {
			return []Value{s}
		}
		off := ex.concInt(st, s.Off, 128)
		arr := getPath(ex.heapGet(st, s.Arr.Obj), s.Arr.Path).(*Array)
		e := append([]Value(nil), arr.E...)
		for i := 0; i < n; i++ {
			e[off+i] = byteAt(t, n-1-i)
		}
		ex.storeV(st, s.Arr, &Array{e})
		return []Value{s}
	})
	B("Bit", func(ex *Exec, st *State, c *callCtx) []Value {
		t := ex.bigT(st, c.args[0])
		i := ex.concInt(st, c.args[1], 600)
		if i < 0 {
			panic(panicReq{msg: "negative bit index", rt: true})
		}
		// two's complement semantics = floor division
		return []Value{I2BV(IMod(IDiv(t, pow2(i)), big2), 64)}
	})
	B("SetBit", func(ex *Exec, st *State, c *callCtx) []Value {
		t := ex.bigT(st, c.args[1])
		i := ex.concInt(st, c.args[2], 600)
		b := ex.resolve(st, c.args[3]).(*Term)
		old := IMod(IDiv(t, pow2(i)), big2)
		r := IAdd(t, IMul(IntC(pow2(i)), ISub(BV2I(Extract(b, 0, 0)), old)))
		return []Value{ex.setBig(st, c.args[0], r)}
	})
	B("BitLen", func(ex *Exec, st *State, c *callCtx) []Value {
		a := absT(ex.bigT(st, c.args[0]))
		if a.isConst() {
			return []Value{BVu(uint64(a.V.BitLen()), 64)}
		}
		if a.hi == nil {
			panic(unsup("BitLen of unbounded integer"))
		}
		n := a.hi.BitLen()
		r := BVu(uint64(n), 64)
		for k := n - 1; k >= 0; k-- {
			r = Ite(ILt(a, IntC(pow2(k))), BVu(uint64(k), 64), r)
		}
		return []Value{r}
	})
	B("TrailingZeroBits", func(ex *Exec, st *State, c *callCtx) []Value {
		a := ex.bigT(st, c.args[0])
		if a.isConst() {
			return []Value{BVu(uint64(a.V.TrailingZeroBits()), 64)}
		}
		a = absT(a)
		if a.hi == nil || a.hi.BitLen() > 300 {
			panic(unsup("TrailingZeroBits of unbounded integer"))
		}
		r := BVu(0, 64)
		for k := a.hi.BitLen() - 1; k >= 0; k-- {
			r = Ite(IEq(IMod(IDiv(a, pow2(k)), big2), IntI(1)), BVu(uint64(k), 64), r)
		}
		return []Value{r}
	})
	B("Lsh", func(ex *Exec, st *State, c *callCtx) []Value {
		a := ex.bigT(st, c.args[1])
		n := ex.concInt(st, c.args[2], 64)
		return []Value{ex.setBig(st, c.args[0], IMul(a, IntC(pow2(n))))}
	})
	B("Rsh", func(ex *Exec, st *State, c *callCtx) []Value {
		a := ex.bigT(st, c.args[1])
		n := ex.concInt(st, c.args[2], 64)
		return []Value{ex.setBig(st, c.args[0], IDiv(a, pow2(n)))}
	})
	bitop := func(name string, f func(x, y *Term) *Term) {
		B(name, func(ex *Exec, st *State, c *callCtx) []Value {
			a, b := ex.bigT(st, c.args[1]), ex.bigT(st, c.args[2])
			if a.lo == nil || b.lo == nil || a.lo.Sign() < 0 || b.lo.Sign() < 0 || a.hi == nil || b.hi == nil {
				panic(unsup(name + " of possibly negative integers"))
			}
			w := max(a.hi.BitLen(), b.hi.BitLen()) + 1
			return []Value{ex.setBig(st, c.args[0], BV2I(f(I2BV(a, w), I2BV(b, w))))}
		})
	}
	bitop("And", BAnd)
	bitop("Or", BOr)
	bitop("Xor", BXor)
	B("Int64", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{I2BV(ex.bigT(st, c.args[0]), 64)}
	})
	B("Uint64", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{I2BV(ex.bigT(st, c.args[0]), 64)}
	})
	B("IsInt64", func(ex *Exec, st *State, c *callCtx) []Value {
		t := ex.bigT(st, c.args[0])
		return []Value{And(IGe(t, INeg(IntC(pow2(63)))), ILt(t, IntC(pow2(63))))}
	})
	B("IsUint64", func(ex *Exec, st *State, c *callCtx) []Value {
		t := ex.bigT(st, c.args[0])
		return []Value{And(IGe(t, IntI(0)), ILt(t, IntC(pow2(64))))}
	})
	for _, n := range []string{"String", "Text"} {
		B(n, func(ex *Exec, st *State, c *callCtx) []Value {
			t := ex.bigT(st, c.args[0])
			if t.isConst() && len(c.args) == 1 {
				return []Value{strOf(t.V.String())}
			}
			return []Value{&Str{Opq: fmt.Sprintf("int#%d", t.id)}}
		})
	}
}

// bytesToInt interprets a byte slice as an unsigned big-endian integer.
func (ex *Exec) bytesToInt(st *State, v Value) *Term {
	s := ex.resolve(st, v)
	if sl, ok := s.(*Slice); ok && sl.Rope != nil {
		segs := sl.Rope.Segs
		// leading constant-zero bytes followed by a single integer
		i := 0
		for i < len(segs) && segs[i].I == nil {
			z := true
			for _, b := range segs[i].B {
				z = z && isZero(b)
			}
			if !z {
				break
			}
			i++
		}
		if i == len(segs)-1 && segs[i].I != nil {
			return segs[i].I
		}
		if len(segs) == 0 {
			return IntI(0)
		}
		return beInt(ex.ropeBytes(st, sl.Rope))
	}
	return beInt(ex.bytesOf(st, s))
}

// beInt builds the integer of big-endian bytes, recognising byte decompositions of an integer.
func beInt(bs []*Term) *Term {
	i := 0
	for i < len(bs) && isZero(bs[i]) {
		i++
	}
	bs = bs[i:]
	if len(bs) == 0 {
		return IntI(0)
	}
	// last byte i2bv8(x), previous i2bv8(x div 256) ...
	if l := bs[len(bs)-1]; l.Op == OpI2BV {
		x := l.A[0]
		if inRange(x, big0, new(big.Int).Sub(pow2(8*len(bs)), big1)) {
			ok := true
			for k := 0; k < len(bs); k++ {
				if bs[len(bs)-1-k] != byteAt(x, k) {
					ok = false
					break
				}
			}
			if ok {
				return x
			}
		}
	}
	t := bs[0]
	for _, b := range bs[1:] {
		t = Concat(t, b)
	}
	return BV2I(t)
}

// ---------- sync

func initSync() {
	zeroHooks["sync.WaitGroup"] = func() Value { return &Opaque{"wg", []Value{BVu(0, 64)}} }
	zeroHooks["sync.Mutex"] = func() Value { return &Opaque{"mu", []Value{TFalse}} }
	zeroHooks["sync.RWMutex"] = func() Value { return &Opaque{"rw", []Value{TFalse, BVu(0, 64)}} }
	zeroHooks["sync.Once"] = func() Value { return &Opaque{"once", []Value{TFalse}} }
	key := func(p Value) string {
		q := p.(*Ptr)
		return fmt.Sprintf("o%d%v", q.Obj, q.Path)
	}
	get := func(ex *Exec, st *State, p Value) *Opaque {
		q := p.(*Ptr)
		if q.Obj == 0 {
			panic(panicReq{msg: "nil pointer dereference", rt: true})
		}
		return ex.resolve(st, getPath(ex.heapGet(st, q.Obj), q.Path)).(*Opaque)
	}
	put := func(ex *Exec, st *State, p Value, o *Opaque) {
		q := p.(*Ptr)
		st.heap[q.Obj] = setPath(ex.heapGet(st, q.Obj), q.Path, o)
		if _, ok := st.otype[q.Obj]; !ok {
			st.otype[q.Obj] = ex.btype[q.Obj]
		}
	}
	add := func(ex *Exec, st *State, p Value, d *Term) {
		p = ex.resolve(st, p)
		o := get(ex, st, p)
		n := ex.resolve(st, o.D[0]).(*Term)
		nn := Add(n, d)
		ex.must(st, Sle(BVu(0, 64), nn), "sync: negative WaitGroup counter")
		put(ex, st, p, &Opaque{"wg", []Value{nn}})
		if v, ok := constInt(d); !ok || v < 0 {
			st.releaseVC(key(p), st.th())
		}
		st.wake()
	}
	reg("(*sync.WaitGroup).Add", func(ex *Exec, st *State, c *callCtx) []Value {
		add(ex, st, c.args[0], ex.resolve(st, c.args[1]).(*Term))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(ex *Exec, st *State, c *callCtx) []Value {
		add(ex, st, c.args[0], BVi(-1, 64))
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.resolve(st, c.args[0])
		o := get(ex, st, p)
		n := ex.resolve(st, o.D[0]).(*Term)
		if !ex.decide(st, Eq(n, BVu(0, 64))) {
			panic(blockReq{})
		}
		st.acquireVC(key(p), st.th())
		return nil
	})
	reg("(*sync.Mutex).Lock", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.resolve(st, c.args[0])
		o := get(ex, st, p)
		if ex.decide(st, ex.resolve(st, o.D[0]).(*Term)) {
			panic(blockReq{})
		}
		put(ex, st, p, &Opaque{"mu", []Value{TTrue}})
		st.acquireVC(key(p), st.th())
		return nil
	})
	reg("(*sync.Mutex).Unlock", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.resolve(st, c.args[0])
		o := get(ex, st, p)
		ex.must(st, ex.resolve(st, o.D[0]).(*Term), "sync: unlock of unlocked mutex")
		put(ex, st, p, &Opaque{"mu", []Value{TFalse}})
		st.releaseVC(key(p), st.th())
		st.wake()
		return nil
	})
	reg("(*sync.RWMutex).Lock", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.resolve(st, c.args[0])
		o := get(ex, st, p)
		if ex.decide(st, Or(ex.resolve(st, o.D[0]).(*Term), Not(Eq(ex.resolve(st, o.D[1]).(*Term), BVu(0, 64))))) {
			panic(blockReq{})
		}
		put(ex, st, p, &Opaque{"rw", []Value{TTrue, o.D[1]}})
		st.acquireVC(key(p), st.th())
		return nil
	})
	reg("(*sync.RWMutex).Unlock", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.resolve(st, c.args[0])
		o := get(ex, st, p)
		put(ex, st, p, &Opaque{"rw", []Value{TFalse, o.D[1]}})
		st.releaseVC(key(p), st.th())
		st.wake()
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.resolve(st, c.args[0])
		o := get(ex, st, p)
		if ex.decide(st, ex.resolve(st, o.D[0]).(*Term)) {
			panic(blockReq{})
		}
		put(ex, st, p, &Opaque{"rw", []Value{o.D[0], Add(o.D[1].(*Term), BVu(1, 64))}})
		st.acquireVC(key(p), st.th())
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(ex *Exec, st *State, c *callCtx) []Value {
		p := ex.resolve(st, c.args[0])
		o := get(ex, st, p)
		put(ex, st, p, &Opaque{"rw", []Value{o.D[0], Sub(o.D[1].(*Term), BVu(1, 64))}})
		st.releaseVC(key(p), st.th())
		st.wake()
		return nil
	})
	// atomics (function style): sequentially consistent with release/acquire
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		akey := func(p Value) string { q := p.(*Ptr); return fmt.Sprintf("a%d%v", q.Obj, q.Path) }
		ld := func(ex *Exec, st *State, p Value) Value {
			q := p.(*Ptr)
			if q.Obj == 0 {
				panic(panicReq{msg: "nil pointer dereference", rt: true})
			}
			return getPath(ex.heapGet(st, q.Obj), q.Path)
		}
		sv := func(ex *Exec, st *State, p Value, v Value) {
			q := p.(*Ptr)
			st.heap[q.Obj] = setPath(ex.heapGet(st, q.Obj), q.Path, v)
		}
		reg("sync/atomic.Load"+ty, func(ex *Exec, st *State, c *callCtx) []Value {
			p := ex.resolve(st, c.args[0])
			v := ld(ex, st, p)
			st.acquireVC(akey(p), st.th())
			return []Value{v}
		})
		reg("sync/atomic.Store"+ty, func(ex *Exec, st *State, c *callCtx) []Value {
			p := ex.resolve(st, c.args[0])
			sv(ex, st, p, c.args[1])
			st.releaseVC(akey(p), st.th())
			st.wake()
			return nil
		})
		reg("sync/atomic.Add"+ty, func(ex *Exec, st *State, c *callCtx) []Value {
			p := ex.resolve(st, c.args[0])
			n := Add(ex.resolve(st, ld(ex, st, p)).(*Term), ex.resolve(st, c.args[1]).(*Term))
			sv(ex, st, p, n)
			st.acquireVC(akey(p), st.th())
			st.releaseVC(akey(p), st.th())
			st.wake()
			return []Value{n}
		})
	}
}

// ---------- fmt, errors, log, flag ...

var errStringType types.Type // *errors.errorString

func (ex *Exec) newError(st *State, msg *Str) Value {
	pt := errStringType.(*types.Pointer)
	p := ex.alloc(st, &Struct{[]Value{msg}}, pt.Elem())
	return &Iface{T: errStringType, V: p}
}

func initMisc() {
	opq := func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{&Str{Opq: "fmt@" + ex.pos(st)}}
	}
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		reg(n, opq)
	}
	reg("fmt.Errorf", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.newError(st, &Str{Opq: "err@" + ex.pos(st)})}
	})
	none := func(ex *Exec, st *State, c *callCtx) []Value { return nil }
	for _, n := range []string{"log.SetFlags", "log.Printf", "log.Println", "log.Print", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive"} {
		reg(n, none)
	}
	pr := func(ex *Exec, st *State, c *callCtx) []Value { return []Value{BVu(0, 64), &Iface{}} }
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, pr)
	}
	reg("flag.Bool", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.alloc(st, c.args[1], types.Typ[types.Bool])}
	})
	reg("flag.Int", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.alloc(st, c.args[1], types.Typ[types.Int])}
	})
	reg("bytes.Equal", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.bytesOf(st, c.args[0]), ex.bytesOf(st, c.args[1])
		if len(a) != len(b) {
			return []Value{TFalse}
		}
		r := TTrue
		for i := range a {
			r = And(r, Eq(a[i], b[i]))
		}
		return []Value{r}
	})
	reg("internal/bytealg.IndexByte", func(ex *Exec, st *State, c *callCtx) []Value {
		a := ex.bytesOf(st, c.args[0])
		b := ex.resolve(st, c.args[1]).(*Term)
		r := BVi(-1, 64)
		for i := len(a) - 1; i >= 0; i-- {
			r = Ite(Eq(a[i], b), BVu(uint64(i), 64), r)
		}
		return []Value{r}
	})
	intrinsics["bytes.IndexByte"] = intrinsics["internal/bytealg.IndexByte"]
	reg("bytes.Compare", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.bytesOf(st, c.args[0]), ex.bytesOf(st, c.args[1])
		n := min(len(a), len(b))
		var r *Term
		switch {
		case len(a) < len(b):
			r = BVi(-1, 64)
		case len(a) > len(b):
			r = BVu(1, 64)
		default:
			r = BVu(0, 64)
		}
		for i := n - 1; i >= 0; i-- {
			r = Ite(Eq(a[i], b[i]), r, Ite(Ult(a[i], b[i]), BVi(-1, 64), BVu(1, 64)))
		}
		return []Value{r}
	})
	reg("internal/bytealg.MakeNoZero", func(ex *Exec, st *State, c *callCtx) []Value {
		n := ex.concInt(st, c.args[0], 64)
		return []Value{ex.newSlice(st, types.Typ[types.Uint8], n, n)}
	})
	// bytes.growSlice uses append(nil, make) tricks and recover; model it directly
	reg("bytes.growSlice", func(ex *Exec, st *State, c *callCtx) []Value {
		b := ex.resolve(st, c.args[0]).(*Slice)
		n := ex.concInt(st, c.args[1], 400)
		es := ex.elems(st, b)
		l := len(es)
		nc := goCap(0, max(l+n, 2*ex.concInt(st, b.Cap, 400)), types.Typ[types.Uint8])
		s := ex.newSlice(st, types.Typ[types.Uint8], l, nc)
		arr := st.heap[s.Arr.Obj].(*Array)
		e := append([]Value(nil), arr.E...)
		copy(e, es)
		st.heap[s.Arr.Obj] = &Array{e}
		return []Value{s}
	})
	reg("(encoding/hex).DecodeString", nil)
	delete(intrinsics, "(encoding/hex).DecodeString")
	reg("math/bits.Len64", func(ex *Exec, st *State, c *callCtx) []Value {
		x := ex.resolve(st, c.args[0]).(*Term)
		r := BVu(0, 64)
		for k := 0; k < 64; k++ {
			r = Ite(Eq(Extract(x, k, k), BVu(1, 1)), BVu(uint64(k+1), 64), r)
		}
		return []Value{r}
	})
	reg("errors.Is", func(ex *Exec, st *State, c *callCtx) []Value {
		return []Value{ex.eqVals(st, c.args[0], c.args[1])}
	})
	reg("crypto/subtle.ConstantTimeCompare", func(ex *Exec, st *State, c *callCtx) []Value {
		a, b := ex.bytesOf(st, c.args[0]), ex.bytesOf(st, c.args[1])
		if len(a) != len(b) {
			return []Value{BVu(0, 64)}
		}
		r := TTrue
		for i := range a {
			r = And(r, Eq(a[i], b[i]))
		}
		return []Value{B2BV(r, 64)}
	})
	_ = strings.TrimSpace
}

func init() {
	initBig()
	initSync()
	initMisc()
	initSym()
}
