package main

// Builtins, ropes and byte-level helpers.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// byteLenOf is the length of the minimal big-endian encoding of |x|.
func byteLenOf(x *Term) *Term {
	a := absT(x)
	if a.hi == nil {
		panic(unsup("byte length of unbounded integer"))
	}
	maxLen := (a.hi.BitLen() + 7) / 8
	r := BVu(uint64(maxLen), 64)
	for n := maxLen - 1; n >= 0; n-- {
		lim := new(big.Int).Lsh(big1, uint(8*n))
		r = Ite(ILt(a, IntC(lim)), BVu(uint64(n), 64), r)
	}
	return r
}

func absT(x *Term) *Term {
	if x.lo != nil && x.lo.Sign() >= 0 {
		return x
	}
	return Ite(IGe(x, IntI(0)), x, INeg(x))
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big1, uint(n)) }

// byteAt returns byte k (0 = least significant) of the non-negative integer a.
func byteAt(a *Term, k int) *Term { return I2BV(IDiv(a, pow2(8*k)), 8) }

func ropeLen(r *Rope) *Term {
	n := BVu(0, 64)
	for _, s := range r.Segs {
		if s.I != nil {
			n = Add(n, byteLenOf(s.I))
		} else {
			n = Add(n, BVu(uint64(len(s.B)), 64))
		}
	}
	return n
}

func (ex *Exec) sliceLen(s *Slice) *Term {
	if s.Rope != nil {
		return ropeLen(s.Rope)
	}
	return s.Len
}

// ropeBytes fixes the length of every segment on this path and returns the bytes.
func (ex *Exec) ropeBytes(st *State, r *Rope) []*Term {
	var bs []*Term
	for _, sg := range r.Segs {
		if sg.I == nil {
			bs = append(bs, sg.B...)
			continue
		}
		n := ex.concInt(st, byteLenOf(sg.I), 80)
		a := absT(sg.I)
		for k := n - 1; k >= 0; k-- {
			bs = append(bs, byteAt(a, k))
		}
	}
	return bs
}

// mat materialises a rope slice into memory.
func (ex *Exec) mat(st *State, s *Slice) *Slice {
	if s.Rope == nil {
		return s
	}
	return ex.bytesSlice(st, ex.ropeBytes(st, s.Rope))
}

// segsOf views a byte slice as rope segments without fixing rope lengths.
func (ex *Exec) segsOf(st *State, v Value) []Seg {
	s := ex.resolve(st, v)
	if sl, ok := s.(*Slice); ok {
		if sl.Rope != nil {
			return sl.Rope.Segs
		}
		if sl.Arr == nil {
			return nil
		}
	}
	bs := ex.bytesOf(st, s)
	if len(bs) == 0 {
		return nil
	}
	return []Seg{{B: bs}}
}

func catSegs(a, b []Seg) []Seg {
	out := append([]Seg(nil), a...)
	for _, s := range b {
		if s.I == nil && len(s.B) == 0 {
			continue
		}
		if s.I == nil && len(out) > 0 && out[len(out)-1].I == nil {
			l := out[len(out)-1].B
			out[len(out)-1] = Seg{B: append(l[:len(l):len(l)], s.B...)}
			continue
		}
		out = append(out, s)
	}
	return out
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	w, _, ok := isInt(sl.Elem())
	return ok && w == 8
}

func (ex *Exec) builtin(st *State, f *Frame, b *ssa.Builtin, args []Value, x *ssa.Call, inst ssa.Instruction) []Value {
	one := func(v Value) []Value { return []Value{v} }
	switch b.Name() {
	case "len":
		return one(ex.lenOf(st, args[0]))
	case "cap":
		switch a := ex.resolve(st, args[0]).(type) {
		case *Slice:
			if a.Rope != nil {
				return one(ropeLen(a.Rope))
			}
			return one(a.Cap)
		case *Array:
			return one(BVu(uint64(len(a.E)), 64))
		case *ChanV:
			if a.Obj == 0 {
				return one(BVu(0, 64))
			}
			return one(BVu(uint64(ex.chanObj(st, a).Cap), 64))
		}
	case "append":
		return one(ex.appendB(st, x, inst, args))
	case "copy":
		return one(ex.copyB(st, args[0], args[1]))
	case "delete":
		m := ex.resolve(st, args[0]).(*MapV)
		if m.Obj == 0 {
			return nil
		}
		o := ex.heapGet(st, m.Obj).(*MapObj)
		for i := range o.K {
			if ex.decide(st, ex.eqVals(st, o.K[i], args[1])) {
				k := append(append([]Value(nil), o.K[:i]...), o.K[i+1:]...)
				v := append(append([]Value(nil), o.V[:i]...), o.V[i+1:]...)
				st.heap[m.Obj] = &MapObj{k, v}
				return nil
			}
		}
		return nil
	case "close":
		ch := ex.resolve(st, args[0]).(*ChanV)
		if ch.Obj == 0 {
			panic(panicReq{msg: "close of nil channel", rt: true})
		}
		o := *ex.chanObj(st, ch)
		if o.Closed {
			panic(panicReq{msg: "close of closed channel", rt: true})
		}
		o.Closed = true
		st.heap[ch.Obj] = &o
		t := st.th()
		st.releaseVC(fmt.Sprintf("close%d", ch.Obj), t)
		st.wake()
		return nil
	case "print", "println":
		return nil
	case "recover":
		t := st.th()
		// recover is effective only in a deferred function called directly by the unwinding frame
		if t.panic != nil && !t.recovered && len(t.frames) >= 2 && t.frames[len(t.frames)-1].isDefer && t.frames[len(t.frames)-2].unwind {
			t.recovered = true
			return one(t.panic.val)
		}
		return one(&Iface{})
	case "min", "max":
		r := ex.resolve(st, args[0])
		_, signed, _ := isInt(inst.(ssa.Value).Type())
		for _, a := range args[1:] {
			y := ex.resolve(st, a)
			switch rx := r.(type) {
			case *Term:
				yt := y.(*Term)
				var lt *Term
				if signed {
					lt = Slt(rx, yt)
				} else {
					lt = Ult(rx, yt)
				}
				if b.Name() == "max" {
					lt = Not(lt)
				}
				r = Ite(lt, rx, yt)
			default:
				panic(unsup("min/max"))
			}
		}
		return one(r)
	case "clear":
		switch a := ex.resolve(st, args[0]).(type) {
		case *MapV:
			if a.Obj != 0 {
				st.heap[a.Obj] = &MapObj{}
			}
			return nil
		case *Slice:
			if a.Arr == nil {
				return nil
			}
			off, n := ex.concInt(st, a.Off, 64), ex.concInt(st, a.Len, 400)
			arr := getPath(ex.heapGet(st, a.Arr.Obj), a.Arr.Path).(*Array)
			e := append([]Value(nil), arr.E...)
			var z Value
			for i := off; i < off+n; i++ {
				if z == nil {
					z = zero(st.elemType(ex, a))
				}
				e[i] = z
			}
			ex.storeV(st, a.Arr, &Array{e})
			return nil
		}
	case "ssa:wrapnilchk":
		v := args[0]
		ok := TTrue
		switch p := v.(type) {
		case *Ptr:
			ok = Bool(p.Obj != 0)
		case *Choice:
			for _, a := range p.A {
				if q, isP := a.V.(*Ptr); isP && q.Obj == 0 {
					ok = And(ok, Not(a.G))
				}
			}
		}
		ex.must(st, ok, "nil pointer dereference (value method through nil pointer)")
		return one(v)
	}
	panic(unsup("builtin " + b.Name()))
}

func (st *State) elemType(ex *Exec, s *Slice) types.Type {
	t := st.otype[s.Arr.Obj]
	if t == nil {
		t = ex.btype[s.Arr.Obj]
	}
	for _, p := range s.Arr.Path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(p.I).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t.Underlying().(*types.Array).Elem()
}

func (ex *Exec) lenOf(st *State, v Value) Value {
	if c, ok := v.(*Choice); ok {
		var r *Term
		simple := true
		for i := len(c.A) - 1; i >= 0; i-- {
			var n *Term
			switch a := c.A[i].V.(type) {
			case *Slice:
				n = ex.sliceLen(a)
			case *Str:
				if a.B == nil && a.Opq != "" {
					simple = false
					continue
				}
				n = BVu(uint64(len(a.B)), 64)
			default:
				simple = false
				continue
			}
			if r == nil {
				r = n
			} else {
				r = Ite(c.A[i].G, n, r)
			}
		}
		if simple {
			return r
		}
	}
	switch a := ex.resolve(st, v).(type) {
	case *Slice:
		return ex.sliceLen(a)
	case *Str:
		if a.B == nil && a.Opq != "" {
			panic(unsup("length of formatted string"))
		}
		return BVu(uint64(len(a.B)), 64)
	case *Array:
		return BVu(uint64(len(a.E)), 64)
	case *MapV:
		if a.Obj == 0 {
			return BVu(0, 64)
		}
		return BVu(uint64(len(ex.heapGet(st, a.Obj).(*MapObj).K)), 64)
	case *ChanV:
		if a.Obj == 0 {
			return BVu(0, 64)
		}
		return BVu(uint64(len(ex.chanObj(st, a).Buf)), 64)
	case *Ptr: // pointer to array
		arr := getPath(ex.heapGet(st, a.Obj), a.Path).(*Array)
		return BVu(uint64(len(arr.E)), 64)
	}
	panic(unsup(fmt.Sprintf("len of %T", v)))
}

// useRopes: big.Int.Bytes and byte appends stay abstract until inspected.
var useRopes = true

func (ex *Exec) appendB(st *State, x *ssa.Call, inst ssa.Instruction, args []Value) Value {
	var t types.Type
	if x != nil {
		t = x.Type()
	} else {
		panic(unsup("deferred append"))
	}
	dstV := ex.resolve(st, args[0])
	dst := dstV.(*Slice)
	if len(args) == 1 {
		return dst
	}
	srcV := ex.resolve(st, args[1])
	if isByteSlice(t) {
		srcRope := false
		if s, ok := srcV.(*Slice); ok {
			srcRope = s.Rope != nil
		}
		if dst.Rope != nil || (srcRope && useRopes) {
			// abstract concatenation in fresh memory. Sharing of a destination's spare capacity is not
			// represented here; harnesses about aliasing run with ropes=0.
			return &Slice{Rope: &Rope{catSegs(ex.segsOf(st, dst), ex.segsOf(st, srcV))}}
		}
	}
	et := t.Underlying().(*types.Slice).Elem()
	var src []Value
	switch s := srcV.(type) {
	case *Slice:
		src = ex.elems(st, s)
	case *Str:
		for _, b := range s.B {
			src = append(src, b)
		}
	default:
		panic(unsup(fmt.Sprintf("append of %T", srcV)))
	}
	dst = ex.mat(st, dst)
	n := ex.concInt(st, dst.Len, 400)
	c := ex.concInt(st, dst.Cap, 400)
	if len(src) == 0 {
		return dst
	}
	if n+len(src) <= c && dst.Arr != nil {
		off := ex.concInt(st, dst.Off, 64)
		ex.accessRange(st, dst, off+n, len(src), true)
		arr := getPath(ex.heapGet(st, dst.Arr.Obj), dst.Arr.Path).(*Array)
		e := append([]Value(nil), arr.E...)
		copy(e[off+n:], src)
		st.heap[dst.Arr.Obj] = setPath(ex.heapGet(st, dst.Arr.Obj), dst.Arr.Path, &Array{e})
		return &Slice{Arr: dst.Arr, Off: dst.Off, Len: BVu(uint64(n+len(src)), 64), Cap: dst.Cap}
	}
	old := ex.elems(st, dst)
	nc := goCap(c, n+len(src), et)
	e := make([]Value, nc)
	copy(e, old)
	copy(e[n:], src)
	if nc > n+len(src) {
		z := zero(et)
		for i := n + len(src); i < nc; i++ {
			e[i] = z
		}
	}
	p := ex.alloc(st, &Array{e}, types.NewArray(et, int64(nc)))
	return &Slice{Arr: p, Off: BVu(0, 64), Len: BVu(uint64(n+len(src)), 64), Cap: BVu(uint64(nc), 64)}
}

// goCap approximates the runtime's growth policy (capacity after append).
func goCap(oldCap, need int, et types.Type) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if w, _, ok := isInt(et); ok && w == 8 {
		for _, c := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048} {
			if nc <= c {
				return c
			}
		}
	}
	return nc
}

func (ex *Exec) copyB(st *State, dv, sv Value) Value {
	dst := ex.resolve(st, dv).(*Slice)
	src := ex.resolve(st, sv)
	if dst.Rope != nil {
		panic(unsup("copy into abstract bytes"))
	}
	var es []Value
	switch s := src.(type) {
	case *Slice:
		es = ex.elems(st, s)
	case *Str:
		for _, b := range s.B {
			es = append(es, b)
		}
	}
	if dst.Arr == nil {
		return BVu(0, 64)
	}
	n := len(es)
	if dst.Len.isConst() || !ex.decide(st, Not(Ult(dst.Len, BVu(uint64(n), 64)))) {
		n = ex.concInt(st, dst.Len, 400)
		if len(es) < n {
			n = len(es)
		}
	}
	if n == 0 {
		return BVu(0, 64)
	}
	off := ex.concInt(st, dst.Off, 400)
	ex.accessRange(st, dst, off, n, true)
	arr := getPath(ex.heapGet(st, dst.Arr.Obj), dst.Arr.Path).(*Array)
	e := append([]Value(nil), arr.E...)
	copy(e[off:off+n], es[:n])
	st.heap[dst.Arr.Obj] = setPath(ex.heapGet(st, dst.Arr.Obj), dst.Arr.Path, &Array{e})
	if _, ok := st.otype[dst.Arr.Obj]; !ok {
		st.otype[dst.Arr.Obj] = ex.btype[dst.Arr.Obj]
	}
	return BVu(uint64(n), 64)
}

func (st *State) releaseVC(key string, t *Thread) {
	vc := copyVC(st.syncVC[key])
	joinVC(vc, t.vc)
	st.syncVC[key] = vc
	t.vc[t.id]++
}
func (st *State) acquireVC(key string, t *Thread) {
	joinVC(t.vc, st.syncVC[key])
}
