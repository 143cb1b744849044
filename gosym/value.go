package main

// Runtime values. All values are immutable; updates build new values.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type PE struct { // path element
	I int
	T *Term // symbolic index if non-nil
}

type Ptr struct {
	Obj  int // 0 = nil
	Path []PE
}

type Slice struct {
	Arr           *Ptr // pointer to array object; nil Arr = nil slice
	Off, Len, Cap *Term
	Rope          *Rope // non-nil: abstract bytes (not materialised)
}

// Rope is an immutable abstract byte string: the concatenation of segments.
type Rope struct{ Segs []Seg }
type Seg struct {
	B []*Term // concrete-length bytes
	I *Term   // minimal big-endian encoding of |I|
}

type Str struct {
	B   []*Term // bytes (concrete length)
	Opq string  // opaque string identity (B nil)
}

type Struct struct{ F []Value }
type Array struct{ E []Value }
type Tuple struct{ V []Value }

type Iface struct {
	T types.Type // nil = nil interface
	V Value
}

type Func struct {
	Fn   *ssa.Function // nil = nil func
	Bind []Value
	Bi   *ssa.Builtin
	Nat  func(ex *Exec, st *State, c *callCtx) []Value // native closure
	Name string
}

type MapV struct{ Obj int }  // 0 = nil map; heap object *MapObj
type ChanV struct{ Obj int } // heap object *ChanObj

type MapObj struct {
	K, V []Value
}
type ChanObj struct {
	Cap    int
	Buf    []Value
	Closed bool
	VC     []map[int]int // vector clocks carried by buffered messages
}

type BigVal struct{ T *Term }

type Float struct{ F float64 }
type Complex struct{}

type Opaque struct {
	Kind string
	D    []Value
}

type Alt struct {
	G *Term
	V Value
}
type Choice struct{ A []Alt }

type Undef struct{}

func nilPtr() *Ptr { return &Ptr{} }

func samePath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == "math/big" && o.Name() == "Int"
}

func named(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

func intWidth(b *types.Basic) (int, bool) { // width, signed
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func isInt(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	w, s := intWidth(b)
	return w, s, w > 0
}

func zero(t types.Type) Value {
	t = types.Unalias(t)
	if isBigInt(t) {
		return &BigVal{IntI(0)}
	}
	if h, ok := zeroHooks[named(t)]; ok {
		return h()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _ := intWidth(u); w > 0 {
			return BVu(0, w)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Info()&types.IsString != 0:
			return &Str{B: []*Term{}}
		case u.Info()&types.IsFloat != 0:
			return &Float{0}
		case u.Kind() == types.UnsafePointer:
			return nilPtr()
		case u.Kind() == types.UntypedNil:
			return nilPtr()
		}
		return &Opaque{Kind: u.String()}
	case *types.Pointer:
		return nilPtr()
	case *types.Slice:
		return nilSlice
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return &Struct{f}
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			panic(unsup("huge array"))
		}
		e := make([]Value, n)
		if n > 0 {
			z := zero(u.Elem())
			for i := range e {
				e[i] = z
			}
		}
		return &Array{e}
	case *types.Interface:
		return &Iface{}
	case *types.Signature:
		return &Func{}
	case *types.Map:
		return &MapV{}
	case *types.Chan:
		return &ChanV{}
	case *types.Tuple:
		v := make([]Value, u.Len())
		for i := range v {
			v[i] = zero(u.At(i).Type())
		}
		return &Tuple{v}
	}
	panic(unsup(fmt.Sprintf("zero of %v", t)))
}

var zeroHooks = map[string]func() Value{}

var nilSlice = &Slice{Off: BVu(0, 64), Len: BVu(0, 64), Cap: BVu(0, 64)}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return "unsupported: " + u.msg }
func unsup(s string) unsupported    { return unsupported{s} }

func strOf(s string) *Str {
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = BVu(uint64(s[i]), 8)
	}
	return &Str{B: b}
}

// goStr returns the concrete string, if it is concrete.
func (s *Str) goStr() (string, bool) {
	if s.B == nil && s.Opq != "" {
		return s.Opq, false
	}
	b := make([]byte, len(s.B))
	for i, t := range s.B {
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.V.Uint64())
	}
	return string(b), true
}

func constInt(t *Term) (int64, bool) {
	if !t.isConst() {
		return 0, false
	}
	if t.S.K == KBV {
		return t.sval().Int64(), t.sval().IsInt64()
	}
	return t.V.Int64(), t.V.IsInt64()
}

// ---- equality of values (structural identity, cheap)

func sameVal(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Ptr:
		y, ok := b.(*Ptr)
		return ok && x.Obj == y.Obj && samePath(x.Path, y.Path)
	case *Slice:
		y, ok := b.(*Slice)
		if !ok || (x.Arr == nil) != (y.Arr == nil) || x.Off != y.Off || x.Len != y.Len || x.Cap != y.Cap {
			return false
		}
		if x.Rope != nil || y.Rope != nil {
			return x.Rope != nil && y.Rope != nil && sameRope(x.Rope, y.Rope)
		}
		return x.Arr == nil || sameVal(x.Arr, y.Arr)
	case *BigVal:
		y, ok := b.(*BigVal)
		return ok && x.T == y.T
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *Array:
		y, ok := b.(*Array)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *Tuple:
		y, ok := b.(*Tuple)
		if !ok || len(x.V) != len(y.V) {
			return false
		}
		for i := range x.V {
			if !sameVal(x.V[i], y.V[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			return false
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		return types.Identical(x.T, y.T) && sameVal(x.V, y.V)
	case *Func:
		y, ok := b.(*Func)
		if !ok || x.Fn != y.Fn || x.Bi != y.Bi || len(x.Bind) != len(y.Bind) || x.Name != y.Name {
			return false
		}
		if x.Nat != nil || y.Nat != nil {
			return false
		}
		for i := range x.Bind {
			if !sameVal(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Obj == y.Obj
	case *ChanV:
		y, ok := b.(*ChanV)
		return ok && x.Obj == y.Obj
	case *Str:
		y, ok := b.(*Str)
		if !ok || len(x.B) != len(y.B) || x.Opq != y.Opq || (x.B == nil) != (y.B == nil) {
			return false
		}
		for i := range x.B {
			if x.B[i] != y.B[i] {
				return false
			}
		}
		return true
	case *Float:
		y, ok := b.(*Float)
		return ok && x.F == y.F
	case *Choice:
		y, ok := b.(*Choice)
		if !ok || len(x.A) != len(y.A) {
			return false
		}
		for i := range x.A {
			if x.A[i].G != y.A[i].G || !sameVal(x.A[i].V, y.A[i].V) {
				return false
			}
		}
		return true
	case *ChanObj:
		y, ok := b.(*ChanObj)
		if !ok || x.Cap != y.Cap || x.Closed != y.Closed || len(x.Buf) != len(y.Buf) {
			return false
		}
		for i := range x.Buf {
			if !sameVal(x.Buf[i], y.Buf[i]) {
				return false
			}
		}
		return true
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || len(x.K) != len(y.K) {
			return false
		}
		for i := range x.K {
			if !sameVal(x.K[i], y.K[i]) || !sameVal(x.V[i], y.V[i]) {
				return false
			}
		}
		return true
	case *Opaque:
		y, ok := b.(*Opaque)
		if !ok || x.Kind != y.Kind || len(x.D) != len(y.D) {
			return false
		}
		for i := range x.D {
			if !sameVal(x.D[i], y.D[i]) {
				return false
			}
		}
		return true
	case Undef:
		_, ok := b.(Undef)
		return ok
	}
	return false
}

func sameRope(a, b *Rope) bool {
	if len(a.Segs) != len(b.Segs) {
		return false
	}
	for i := range a.Segs {
		x, y := a.Segs[i], b.Segs[i]
		if x.I != y.I || len(x.B) != len(y.B) {
			return false
		}
		for j := range x.B {
			if x.B[j] != y.B[j] {
				return false
			}
		}
	}
	return true
}

// mergeVal builds "if g then a else b".
func mergeVal(g *Term, a, b Value) Value {
	if g == TTrue {
		return a
	}
	if g == TFalse {
		return b
	}
	if sameVal(a, b) {
		return a
	}
	if _, ok := a.(Undef); ok {
		return b
	}
	if _, ok := b.(Undef); ok {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.S == y.S {
			return Ite(g, x, y)
		}
	case *BigVal:
		if y, ok := b.(*BigVal); ok {
			return &BigVal{Ite(g, x.T, y.T)}
		}
	case *Struct:
		if y, ok := b.(*Struct); ok && len(x.F) == len(y.F) {
			f := make([]Value, len(x.F))
			for i := range f {
				f[i] = mergeVal(g, x.F[i], y.F[i])
			}
			return &Struct{f}
		}
	case *Array:
		if y, ok := b.(*Array); ok && len(x.E) == len(y.E) {
			f := make([]Value, len(x.E))
			for i := range f {
				f[i] = mergeVal(g, x.E[i], y.E[i])
			}
			return &Array{f}
		}
	case *Tuple:
		if y, ok := b.(*Tuple); ok && len(x.V) == len(y.V) {
			f := make([]Value, len(x.V))
			for i := range f {
				f[i] = mergeVal(g, x.V[i], y.V[i])
			}
			return &Tuple{f}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			return &Iface{x.T, mergeVal(g, x.V, y.V)}
		}
	case *Opaque:
		if y, ok := b.(*Opaque); ok && x.Kind == y.Kind && len(x.D) == len(y.D) {
			f := make([]Value, len(x.D))
			for i := range f {
				f[i] = mergeVal(g, x.D[i], y.D[i])
			}
			return &Opaque{x.Kind, f}
		}
	case *Str:
		if y, ok := b.(*Str); ok && x.B != nil && y.B != nil && len(x.B) == len(y.B) {
			r := make([]*Term, len(x.B))
			for i := range r {
				r[i] = Ite(g, x.B[i], y.B[i])
			}
			return &Str{B: r}
		}
	case *Slice:
		if y, ok := b.(*Slice); ok {
			if x.Rope != nil && y.Rope != nil && len(x.Rope.Segs) == len(y.Rope.Segs) {
				segs := make([]Seg, len(x.Rope.Segs))
				good := true
				for i := range segs {
					p, q := x.Rope.Segs[i], y.Rope.Segs[i]
					switch {
					case p.I != nil && q.I != nil:
						segs[i] = Seg{I: Ite(g, p.I, q.I)}
					case p.I == nil && q.I == nil && len(p.B) == len(q.B):
						r := make([]*Term, len(p.B))
						for j := range r {
							r[j] = Ite(g, p.B[j], q.B[j])
						}
						segs[i] = Seg{B: r}
					default:
						good = false
					}
				}
				if good {
					return &Slice{Rope: &Rope{segs}}
				}
			}
			if x.Arr != nil && y.Arr != nil && sameVal(x.Arr, y.Arr) && x.Off == y.Off {
				return &Slice{Arr: x.Arr, Off: x.Off, Len: Ite(g, x.Len, y.Len), Cap: Ite(g, x.Cap, y.Cap)}
			}
		}
	}
	// guarded choice
	var alts []Alt
	add := func(gg *Term, v Value) {
		if gg == TFalse {
			return
		}
		for i := range alts {
			if sameVal(alts[i].V, v) {
				alts[i].G = Or(alts[i].G, gg)
				return
			}
		}
		alts = append(alts, Alt{gg, v})
	}
	for _, s := range []struct {
		g *Term
		v Value
	}{{g, a}, {Not(g), b}} {
		if c, ok := s.v.(*Choice); ok {
			for _, al := range c.A {
				add(And(s.g, al.G), al.V)
			}
		} else {
			add(s.g, s.v)
		}
	}
	if len(alts) == 1 {
		return alts[0].V
	}
	return &Choice{alts}
}

func bigOf(v int64) *big.Int { return big.NewInt(v) }
