// Package sym is the harness API. Under the symbolic executor every function
// here is interpreted by the engine; the bodies below are the native versions
// used to replay a solver model against the real code.
package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type oracleEntry struct {
	ID, Query, Digest string
}

type replay struct {
	Vars   map[string]string
	Oracle []oracleEntry
	Cfg    map[string]string
}

var (
	rp       replay
	counts   = map[string]int{}
	oracleID = 0
	epoch    = 0
	answers  = map[string]*big.Int{} // id|hex -> digest
	log      = map[int][]query{}
	faults   bool
	faulted  bool
	baseGo   int
	baseAlloc uint64
	baseNum  int
	nrand    = map[int]int{}
	curN     = big.NewInt(7)
)

type query struct {
	b []byte
	d *big.Int
}

func init() {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Println("bad replay file:", err)
		os.Exit(5)
	}
	curN = Cfg("N")
	for _, e := range rp.Oracle {
		d, _ := new(big.Int).SetString(e.Digest, 10)
		k := e.ID + "|" + e.Query
		if o, ok := answers[k]; ok && o.Cmp(d) != 0 {
			fmt.Println("REPLAY-ASSUME: two hash answers for one input")
			os.Exit(4)
		}
		answers[k] = d
	}
}

// Cfg returns a configuration integer of the replay file.
func Cfg(k string) *big.Int {
	v, ok := new(big.Int).SetString(rp.Cfg[k], 10)
	if !ok {
		return big.NewInt(1)
	}
	return v
}

// Start marks the beginning of the harness (native only).
func Start() {
	ch := make(chan int)
	go func() { ch <- goid() }()
	baseGo = <-ch
	runtime.Gosched()
	baseNum = runtime.NumGoroutine()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	baseAlloc = m.TotalAlloc
}

// Done ends a native run. A replay of an excessive allocation panics when one happened.
func Done() {
	if _, ok := rp.Cfg["Alloc"]; !ok {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.TotalAlloc-baseAlloc >= 1<<20 {
		panic("excessive allocation")
	}
}

func goid() int {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := strings.Fields(string(buf[:n]))
	id, _ := strconv.Atoi(f[1])
	return id
}

func tid() int {
	g := goid()
	if g <= baseGo {
		return 0
	}
	if tidBase != 0 {
		return g - tidBase
	}
	return g - baseGo
}

func uniq(n string) string {
	counts[n]++
	if counts[n] == 1 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, counts[n])
}

func lookup(n string) (*big.Int, bool) {
	s, ok := rp.Vars[n]
	if !ok {
		return nil, false
	}
	v, ok := new(big.Int).SetString(s, 10)
	return v, ok
}

func val(n string, def int64) *big.Int {
	if v, ok := lookup(n); ok {
		return v
	}
	return big.NewInt(def)
}

func N() *big.Int                   { return new(big.Int).Set(curN) }
func Scalar(name string) *big.Int   { return val(uniq(name), 0) }
func Wide(name string) *big.Int {
	n := uniq(name)
	r, q := val(n+".r", 0), val(n+".q", 0)
	return r.Add(r, q.Mul(q, curN))
}
func def(lo, hi *big.Int) *big.Int {
	if lo.Sign() > 0 {
		return new(big.Int).Set(lo)
	}
	if hi.Sign() < 0 {
		return new(big.Int).Set(hi)
	}
	return new(big.Int)
}
func IntB(name string, lo, hi *big.Int) *big.Int {
	if v, ok := lookup(uniq(name)); ok {
		return v
	}
	return def(lo, hi)
}
func Int(name string, lo, hi int64) *big.Int {
	return IntB(name, big.NewInt(lo), big.NewInt(hi))
}
func BitInt(name string, bits int) *big.Int { return val(uniq(name), 0) }

// Bits is an n-bit integer, as a sum of bits.
func Bits(name string, bits int) *big.Int {
	u := uniq(name)
	r := new(big.Int)
	for i := 0; i < bits; i++ {
		r.SetBit(r, i, uint(val(fmt.Sprintf("%s[%d]", u, i), 0).Uint64()&1))
	}
	return r
}
func Bytes(name string, n int) []byte {
	u := uniq(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", u, i), 0).Uint64())
	}
	return b
}
func Byte(name string) byte    { return byte(val(uniq(name), 0).Uint64()) }
func U16(name string) uint16   { return uint16(val(uniq(name), 0).Uint64()) }
func U32(name string) uint32   { return uint32(val(uniq(name), 0).Uint64()) }
func U64(name string) uint64   { return val(uniq(name), 0).Uint64() }
func Bool(name string) bool    { return val(uniq(name), 0).Sign() != 0 }
func Choice(name string, n int) int { return int(val(uniq(name), 0).Int64()) }
func Assume(b bool) {
	if !b {
		Done()
		fmt.Println("REPLAY-ASSUME")
		os.Exit(4)
	}
}
func Assert(b bool, msg string) {
	if !b {
		Done()
		fmt.Println("REPLAY-VIOLATION:", msg)
		os.Exit(3)
	}
}
func Cover(label string)             { fmt.Println("REPLAY-COVER:", label) }
func And(a, b bool) bool             { return a && b }
func Or(a, b bool) bool              { return a || b }
func Implies(a, b bool) bool         { return !a || b }
func Not(a bool) bool                { return !a }
func Eq(a, b *big.Int) bool          { return a.Cmp(b) == 0 }
func Lt(a, b *big.Int) bool          { return a.Cmp(b) < 0 }
func Canonical(a *big.Int) bool      { return a.Sign() >= 0 && a.Cmp(curN) < 0 }

// Native: this is a replay, not a symbolic run.
func Native() bool { return true }

// IsMultiple: (rx, ry) is k times the secp256k1 point (bx, by); (0, 0) is the identity.
func IsMultiple(rx, ry, bx, by, k *big.Int) bool {
	x, y := realMul(bx, by, k)
	return x.Cmp(rx) == 0 && y.Cmp(ry) == 0
}

// RealPoint is d times the generator of secp256k1.
func RealPoint(d *big.Int) (*big.Int, *big.Int) {
	x, _ := new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	y, _ := new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
	return realMul(x, y, d)
}

func realMul(bx, by, k *big.Int) (*big.Int, *big.Int) {
	p := new(big.Int).Lsh(big.NewInt(1), 256)
	p.Sub(p, new(big.Int).Lsh(big.NewInt(1), 32))
	p.Sub(p, big.NewInt(977))
	add := func(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
		if x1.Sign() == 0 && y1.Sign() == 0 {
			return x2, y2
		}
		if x2.Sign() == 0 && y2.Sign() == 0 {
			return x1, y1
		}
		n, d := new(big.Int).Sub(y2, y1), new(big.Int).Sub(x2, x1)
		if d.Sign() == 0 {
			if y1.Cmp(y2) != 0 {
				return new(big.Int), new(big.Int)
			}
			n.Mul(x1, x1)
			n.Mul(n, big.NewInt(3))
			d.Lsh(y1, 1)
		}
		l := n.Mul(n, d.ModInverse(d.Mod(d, p), p))
		x := new(big.Int).Mul(l, l)
		x.Sub(x, x1)
		x.Sub(x, x2)
		x.Mod(x, p)
		y := new(big.Int).Sub(x1, x)
		y.Mul(y, l)
		y.Sub(y, y1)
		y.Mod(y, p)
		return x, y
	}
	x, y := new(big.Int), new(big.Int)
	for i := k.BitLen() - 1; i >= 0; i-- {
		x, y = add(x, y, x, y)
		if k.Bit(i) == 1 {
			x, y = add(x, y, bx, by)
		}
	}
	return x, y
}

func NonZeroM(a, m *big.Int) bool { return new(big.Int).Mod(a, m).Sign() != 0 }

func EqModM(a, b, m *big.Int) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, m).Sign() == 0
}
func EqMod(a, b *big.Int) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, curN).Sign() == 0
}

var tabX, tabY []*big.Int

// Table returns the points i*G of the small replay curve.
func Table() ([]*big.Int, []*big.Int) {
	if tabX != nil {
		return tabX, tabY
	}
	p, gx, gy, n := Cfg("P").Int64(), Cfg("Gx").Int64(), Cfg("Gy").Int64(), Cfg("N").Int64()
	inv := func(a int64) int64 { return new(big.Int).ModInverse(big.NewInt(((a%p)+p)%p), big.NewInt(p)).Int64() }
	md := func(a int64) int64 { return ((a % p) + p) % p }
	tabX, tabY = []*big.Int{new(big.Int)}, []*big.Int{new(big.Int)}
	x, y := gx, gy
	for i := int64(1); i < n; i++ {
		tabX = append(tabX, big.NewInt(x))
		tabY = append(tabY, big.NewInt(y))
		if i == n-1 {
			break
		}
		var l int64
		if x == gx && y == gy {
			l = md(3 * x % p * x % p * inv(2*y))
		} else {
			l = md((gy - y) * inv(gx-x))
		}
		nx := md(l*l - x - gx)
		ny := md(l*(x-nx) - y)
		x, y = nx, ny
	}
	return tabX, tabY
}

func Point(d *big.Int) (*big.Int, *big.Int) {
	X, Y := Table()
	i := int(new(big.Int).Mod(d, curN).Int64())
	return new(big.Int).Set(X[i]), new(big.Int).Set(Y[i])
}
func Dlog(x, y *big.Int) *big.Int {
	X, Y := Table()
	for i := range X {
		if X[i].Cmp(x) == 0 && Y[i].Cmp(y) == 0 {
			return big.NewInt(int64(i))
		}
	}
	fmt.Println("REPLAY-ASSUME: off curve")
	os.Exit(4)
	return nil
}
func OnCurve(x, y *big.Int) bool {
	X, Y := Table()
	for i := range X {
		if i > 0 && X[i].Cmp(x) == 0 && Y[i].Cmp(y) == 0 {
			return true
		}
	}
	return false
}
func HDlog() *big.Int { return Cfg("HDlog") }
func Oracle(id int)   { oracleID = id }
// Epoch starts the draws of epoch e (again): goroutines are numbered from here.
func Epoch(e int) {
	epoch = e
	nrand = map[int]int{}
	ch := make(chan int)
	go func() { ch <- goid() }()
	tidBase = <-ch
}

// Order chooses the runnable goroutine that goes first: 0 the oldest, 1 the youngest.
func Order(k int) {}

var (
	tidBase  int
	jitState = jitSeed()
	jitMu    sync.Mutex
)

func jitSeed() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_JITTER"), 10, 64)
	return n
}

// Jitter perturbs the native schedule when a replay asks for it.
func Jitter() {
	jitMu.Lock()
	if jitState == 0 {
		jitMu.Unlock()
		return
	}
	jitState = jitState*6364136223846793005 + 1442695040888963407
	r := jitState >> 33
	jitMu.Unlock()
	switch r % 8 {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(r>>3%300) * time.Microsecond)
	}
}
func Queries(id int) int { return len(log[id]) }
func SameQuery(a, i, b, j int) bool {
	if i >= len(log[a]) || j >= len(log[b]) {
		return false
	}
	return string(log[a][i].b) == string(log[b][j].b)
}
func SameBytes(a, i, b, j int) bool { return SameQuery(a, i, b, j) }
func Answer(a, i int) *big.Int {
	if i >= len(log[a]) {
		return new(big.Int)
	}
	return new(big.Int).Mod(log[a][i].d, curN)
}
func RandFaults(on bool)  { faults = on }
func FaultHappened() bool { return faulted }
func Draws() int          { return nrand[tid()] }
func Nonce(e, t, i int) *big.Int {
	return val(fmt.Sprintf("nonce!%d!%d!%d", e, t, i), 0)
}
// NonceSpace is the number of nonce vectors that could have been drawn in epoch e.
func NonceSpace(e int) *big.Int {
	r := big.NewInt(1)
	mu.Lock()
	defer mu.Unlock()
	for _, m := range drawn[e] {
		r.Mul(r, m)
	}
	return r
}

// SameNonces reports whether every draw of epoch e equals the same draw of epoch f.
func SameNonces(e, f int) bool {
	mu.Lock()
	defer mu.Unlock()
	a := fmt.Sprintf("nonce!%d!", e)
	b := fmt.Sprintf("nonce!%d!", f)
	for n := range drawn[e] {
		if val(n, 0).Cmp(val(b+n[len(a):], 0)) != 0 {
			return false
		}
	}
	return true
}

// Drawn records a draw of the current epoch (native only).
func Drawn(n string, max *big.Int) {
	mu.Lock()
	defer mu.Unlock()
	if drawn[epoch] == nil {
		drawn[epoch] = map[string]*big.Int{}
	}
	drawn[epoch][n] = new(big.Int).Set(max)
}

var (
	mu    sync.Mutex
	drawn = map[int]map[string]*big.Int{}

	hashMu sync.Mutex
)

func Blocked() int { return runtime.NumGoroutine() - baseNum }
func Settle() {
	for i := 0; i < 200; i++ {
		runtime.Gosched()
	}
	time.Sleep(20 * time.Millisecond)
}

// Hash answers a hash query from the replay log (native only).
func Hash(b []byte) [32]byte {
	var out [32]byte
	Jitter()
	hashMu.Lock()
	defer hashMu.Unlock()
	if len(b) == 0 {
		Cfg("EmptyDigest").FillBytes(out[:])
		return out
	}
	k := strconv.Itoa(oracleID) + "|" + hex.EncodeToString(b)
	d, ok := answers[k]
	if !ok {
		h := uint64(1469598103934665603)
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		m := new(big.Int).Sub(curN, big.NewInt(1))
		if m.Sign() <= 0 {
			m = big.NewInt(1)
		}
		d = new(big.Int).Mod(new(big.Int).SetUint64(h>>8), m)
		d.Add(d, big.NewInt(1))
		answers[k] = d
	}
	seen := false
	for _, q := range log[oracleID] {
		if string(q.b) == string(b) {
			seen = true
		}
	}
	if !seen {
		log[oracleID] = append(log[oracleID], query{append([]byte(nil), b...), d})
	}
	d.FillBytes(out[:])
	return out
}

// Draw returns the next random value name for the calling goroutine (native only).
func Draw(suffix string) (string, bool) {
	Jitter()
	mu.Lock()
	defer mu.Unlock()
	t := tid()
	n := fmt.Sprintf("nonce!%d!%d!%d%s", epoch, t, nrand[t], suffix)
	nrand[t]++
	if faults && val("fault"+n, 0).Sign() != 0 {
		faulted = true
		return n, false
	}
	return n, true
}

func Value(name string) *big.Int { return val(name, 0) }

// Cat returns the concatenation of two byte strings in fresh memory (native only).
func Cat(a, b []byte) []byte { return append(append([]byte(nil), a...), b...) }

// Conc makes the executor treat each value of x as a separate case.
func Conc(x int) int { return x }
