package main

// Execution states, path conditions, scheduling keys and state merging.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pcNode struct {
	parent *pcNode
	cond   *Term
	depth  int
}

func (p *pcNode) list() []*Term {
	var out []*Term
	for n := p; n != nil; n = n.parent {
		out = append(out, n.cond)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type deferred struct {
	fn   Value
	args []Value
	inst ssa.Instruction
}

type Frame struct {
	fi      *fnInfo
	regs    []Value
	block   *ssa.BasicBlock
	pc      int
	iters   []int
	defers  []deferred
	call    ssa.Instruction // call instruction in the caller (nil for thread root / deferred)
	isDefer bool
	unwind  bool // running deferred calls because of a panic
	onRet   func(ex *Exec, st *State, res []Value)
}

type goPanicVal struct {
	msg     string
	val     Value
	pos     string
	runtime bool
	stack   string
}

type Thread struct {
	id        int
	frames    []*Frame
	done      bool
	blocked   bool
	panic     *goPanicVal
	recovered bool
	vc        map[int]int
	nrand     int
}

type access struct {
	tid, clk int
	w        bool
	path     []PE
	pos      string
}

type State struct {
	pc       *pcNode
	facts    map[int64]bool
	heap     map[int]Value
	otype    map[int]types.Type
	threads  []*Thread
	cur      int
	switches int
	models   []Model
	multi    bool
	acc      map[int][]access
	syncVC   map[string]map[int]int
	vals     map[int64]*Term  // terms known to have a concrete value on this path
	hooks    map[string]Value // misc per-state data (hash queries, nonces) stored as Values
	steps    int
	salt     string // outcome of explicit harness choices (never merged)
}

func (st *State) th() *Thread { return st.threads[st.cur] }
func (st *State) top() *Frame { t := st.th(); return t.frames[len(t.frames)-1] }

func (st *State) clone() *State {
	n := *st
	n.facts = make(map[int64]bool, len(st.facts)+4)
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.heap = make(map[int]Value, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.otype = make(map[int]types.Type, len(st.otype)+4)
	for k, v := range st.otype {
		n.otype[k] = v
	}
	n.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		c := *t
		c.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			g := *f
			g.regs = append([]Value(nil), f.regs...)
			g.iters = append([]int(nil), f.iters...)
			g.defers = append([]deferred(nil), f.defers...)
			c.frames[j] = &g
		}
		c.vc = map[int]int{}
		for k, v := range t.vc {
			c.vc[k] = v
		}
		n.threads[i] = &c
	}
	n.models = append([]Model(nil), st.models...)
	n.acc = make(map[int][]access, len(st.acc))
	for k, v := range st.acc {
		n.acc[k] = v[:len(v):len(v)]
	}
	n.syncVC = make(map[string]map[int]int, len(st.syncVC))
	for k, v := range st.syncVC {
		n.syncVC[k] = v
	}
	n.vals = make(map[int64]*Term, len(st.vals))
	for k, v := range st.vals {
		n.vals[k] = v
	}
	n.hooks = make(map[string]Value, len(st.hooks))
	for k, v := range st.hooks {
		n.hooks[k] = v
	}
	return &n
}

// addFact records cond as true without extending the path condition.
func (st *State) addFact(c *Term) {
	if c.isConst() {
		return
	}
	if c.Op == OpAnd {
		for _, a := range c.A {
			st.addFact(a)
		}
	}
	if c.Op == OpNot && c.A[0].Op == OpOr {
		for _, a := range c.A[0].A {
			st.addFact(Not(a))
		}
	}
	st.facts[c.id] = true
	st.facts[Not(c).id] = false
}

// assume extends the path condition.
func (st *State) assume(c *Term) {
	if c == TTrue {
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &pcNode{st.pc, c, d}
	st.addFact(c)
	var keep []Model
	for _, m := range st.models {
		if Eval(c, m, map[int64]*big.Int{}).Sign() != 0 {
			keep = append(keep, m)
		}
	}
	st.models = keep
}

// simp simplifies a boolean under the state's facts.
func (st *State) simp(c *Term) *Term {
	if c.isConst() {
		return c
	}
	if c.depth < 3 {
		return st.simpM(c, nil)
	}
	return st.simpM(c, map[int64]*Term{})
}

func (st *State) simpM(c *Term, memo map[int64]*Term) *Term {
	if c.isConst() {
		return c
	}
	if x, ok := memo[c.id]; ok {
		return x
	}
	x := st.simp1(c, memo)
	if x != c && !x.isConst() {
		if v, ok := st.facts[x.id]; ok {
			x = Bool(v)
		}
	}
	if memo != nil {
		memo[c.id] = x
	}
	return x
}

func (st *State) simp1(c *Term, memo map[int64]*Term) *Term {
	if c.isConst() {
		return c
	}
	if v, ok := st.facts[c.id]; ok {
		return Bool(v)
	}
	switch c.Op {
	case OpNot:
		return Not(st.simpM(c.A[0], memo))
	case OpAnd, OpOr:
		a := make([]*Term, len(c.A))
		ch := false
		for i, x := range c.A {
			a[i] = st.simpM(x, memo)
			ch = ch || a[i] != x
		}
		if !ch {
			return c
		}
		if c.Op == OpAnd {
			return And(a...)
		}
		return Or(a...)
	case OpIte:
		if c.S.K == KBool {
			g := st.simpM(c.A[0], memo)
			return Ite(g, st.simpM(c.A[1], memo), st.simpM(c.A[2], memo))
		}
	case OpEq:
		if c.A[0].Op == OpIte && c.A[0].S.K == KBV {
			// resolve ite guard
			if g := st.simpM(c.A[0].A[0], memo); g.isConst() {
				if g == TTrue {
					return st.simpM(Eq(c.A[0].A[1], c.A[1]), memo)
				}
				return st.simpM(Eq(c.A[0].A[2], c.A[1]), memo)
			}
		}
	}
	return c
}

// ---------- per-function static info

type fnInfo struct {
	fn     *ssa.Function
	idx    map[ssa.Value]int
	nregs  int
	live   []map[int]bool // live-in registers per block
	nest   [][]int        // loop headers containing block, outermost first (block indices)
	rpo    []int
	inLoop []map[int]bool // header -> set of blocks
	name   string
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	// rpo
	fi.rpo = make([]int, n)
	seen := make([]bool, n)
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	if n > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && !seen[fn.Recover.Index] {
			dfs(fn.Recover)
		}
	}
	for i := range order {
		fi.rpo[order[len(order)-1-i].Index] = i
	}
	// natural loops
	fi.inLoop = make([]map[int]bool, n)
	for _, b := range fn.Blocks {
		if !seen[b.Index] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.inLoop[s.Index]
				if body == nil {
					body = map[int]bool{s.Index: true}
					fi.inLoop[s.Index] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x.Index] {
						continue
					}
					body[x.Index] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	fi.nest = make([][]int, n)
	for i := 0; i < n; i++ {
		var hs []int
		for h := 0; h < n; h++ {
			if fi.inLoop[h] != nil && fi.inLoop[h][i] {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(a, b int) bool {
			if len(fi.inLoop[hs[a]]) != len(fi.inLoop[hs[b]]) {
				return len(fi.inLoop[hs[a]]) > len(fi.inLoop[hs[b]])
			}
			return hs[a] < hs[b]
		})
		fi.nest[i] = hs
	}
	// liveness (register level); phi uses are live-out of predecessors
	fi.live = make([]map[int]bool, n)
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	phiUse := make([]map[int]bool, n) // uses at the end of pred
	for i := 0; i < n; i++ {
		use[i], def[i], phiUse[i], fi.live[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for k, e := range phi.Edges {
					if r, ok := fi.idx[e]; ok {
						phiUse[b.Preds[k].Index][r] = true
					}
				}
				// phi values are materialised on entry: treat as live-in of the block
				use[b.Index][fi.idx[phi]] = true
				continue
			}
			var ops [8]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				if *op == nil {
					continue
				}
				if r, ok := fi.idx[*op]; ok && !def[b.Index][r] {
					use[b.Index][r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[b.Index][fi.idx[v]] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[int]bool{}
			for _, s := range b.Succs {
				for r := range fi.live[s.Index] {
					isPhi := false
					for _, in := range s.Instrs {
						if p, ok := in.(*ssa.Phi); ok {
							if fi.idx[p] == r {
								isPhi = true
							}
						} else {
							break
						}
					}
					if !isPhi {
						out[r] = true
					}
				}
			}
			for r := range phiUse[i] {
				out[r] = true
			}
			for r := range out {
				if !def[i][r] && !fi.live[i][r] {
					fi.live[i][r] = true
					ch = true
				}
			}
			for r := range use[i] {
				if !fi.live[i][r] {
					fi.live[i][r] = true
					ch = true
				}
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

// enter moves frame f to block b, maintaining loop iteration counters.
func (f *Frame) enter(b *ssa.BasicBlock) {
	old := f.fi.nest[f.block.Index]
	nw := f.fi.nest[b.Index]
	k := 0
	for k < len(old) && k < len(nw) && old[k] == nw[k] {
		k++
	}
	it := make([]int, len(nw))
	copy(it, f.iters[:min(k, len(f.iters))])
	// arriving at a header from inside its loop = next iteration
	if k > 0 && k == len(nw) && nw[k-1] == b.Index {
		it[k-1]++
	}
	f.iters = it
	f.block = b
	f.pc = 0
}

func cmpFrames(a, b *Frame) int {
	if a.fi != b.fi {
		return strings.Compare(a.fi.name, b.fi.name)
	}
	na, nb := a.fi.nest[a.block.Index], b.fi.nest[b.block.Index]
	i := 0
	for ; i < len(na) && i < len(nb) && na[i] == nb[i]; i++ {
		if a.iters[i] != b.iters[i] {
			return a.iters[i] - b.iters[i]
		}
	}
	ea, eb := a.block.Index, b.block.Index
	if i < len(na) {
		ea = na[i]
	}
	if i < len(nb) {
		eb = nb[i]
	}
	if ea != eb {
		return a.fi.rpo[ea] - b.fi.rpo[eb]
	}
	return a.pc - b.pc
}

// cmpStates orders states: negative when a is "behind" b and should run first.
func cmpStates(a, b *State) int {
	if a.switches != b.switches {
		return a.switches - b.switches
	}
	if a.cur != b.cur {
		return a.cur - b.cur
	}
	fa, fb := a.th().frames, b.th().frames
	for i := 0; i < len(fa) && i < len(fb); i++ {
		if c := cmpFrames(fa[i], fb[i]); c != 0 {
			return c
		}
	}
	return len(fb) - len(fa) // deeper first
}

func (st *State) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s%d/%d", st.salt, st.switches, st.cur)
	for _, t := range st.threads {
		fmt.Fprintf(&sb, "|T%d,%v,%v,%v,%v", t.id, t.done, t.blocked, t.panic != nil, t.recovered)
		for _, f := range t.frames {
			fmt.Fprintf(&sb, ";%p@%d.%d%v%d%v", f.fi, f.block.Index, f.pc, f.iters, len(f.defers), f.unwind)
		}
	}
	return sb.String()
}

// ---------- merging

type merger struct {
	a, b *State
	g    *Term // guard selecting a
	pair map[int]int
	back map[int]int
	ex   *Exec
}

func delta(n, anc *pcNode) *Term {
	var cs []*Term
	for ; n != anc; n = n.parent {
		cs = append(cs, n.cond)
	}
	return And(cs...)
}

// mergeStates returns the merged state, or nil when the two cannot be merged.
// sameLogShape: every hash query log of a has a counterpart of the same shape in b.
func sameLogShape(a, b *State) bool {
	for k, va := range a.hooks {
		if !strings.HasPrefix(k, "q:") {
			continue
		}
		sa, ok1 := va.(*Struct)
		sb, ok2 := b.hooks[k].(*Struct)
		if !ok1 || !ok2 || len(sa.F) != len(sb.F) {
			return false
		}
		for i := range sa.F {
			x := sa.F[i].(*Tuple).V[0].(*Slice).Rope.Segs
			y := sb.F[i].(*Tuple).V[0].(*Slice).Rope.Segs
			if len(x) != len(y) {
				return false
			}
			for j := range x {
				if (x[j].I == nil) != (y[j].I == nil) || len(x[j].B) != len(y[j].B) {
					return false
				}
			}
		}
	}
	return true
}

func (ex *Exec) mergeStates(a, b *State) *State {
	for i := range a.threads {
		ta, tb := a.threads[i], b.threads[i]
		if ta.panic != nil || tb.panic != nil {
			return nil
		}
		for j := range ta.frames {
			fa, fb := ta.frames[j], tb.frames[j]
			for k := range fa.defers {
				if fa.defers[k].inst != fb.defers[k].inst {
					return nil
				}
			}
		}
	}
	if !sameLogShape(a, b) || !sameLogShape(b, a) {
		return nil
	}
	// common ancestor
	x, y := a.pc, b.pc
	for x != y {
		dx, dy := 0, 0
		if x != nil {
			dx = x.depth
		}
		if y != nil {
			dy = y.depth
		}
		if dx >= dy {
			x = x.parent
		} else {
			y = y.parent
		}
	}
	da, db := delta(a.pc, x), delta(b.pc, x)
	m := &merger{a: a, b: b, pair: map[int]int{}, back: map[int]int{}, ex: ex}
	m.g = da
	if db.depth < da.depth {
		m.g = Not(db)
	}
	// phase 1: pair exclusive objects
	for i := range a.threads {
		for j := range a.threads[i].frames {
			fa, fb := a.threads[i].frames[j], b.threads[i].frames[j]
			for r := range fa.regs {
				if !fa.liveAt(r, j == len(a.threads[i].frames)-1) {
					continue
				}
				m.walk(fa.regs[r], fb.regs[r])
			}
			for k := range fa.defers {
				for q := range fa.defers[k].args {
					m.walk(fa.defers[k].args[q], fb.defers[k].args[q])
				}
				m.walk(fa.defers[k].fn, fb.defers[k].fn)
			}
		}
	}
	for id, va := range a.heap {
		if vb, ok := b.heap[id]; ok && va != vb {
			m.walk(va, vb)
		}
	}
	for k, va := range a.hooks {
		if vb, ok := b.hooks[k]; ok {
			m.walk(va, vb)
		}
	}
	// phase 2
	n := a.clone()
	n.pc = x
	n.facts = map[int64]bool{}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; ok && w == v {
			n.facts[k] = v
		}
	}
	n.vals = map[int64]*Term{}
	for k, v := range a.vals {
		if b.vals[k] == v {
			n.vals[k] = v
		}
	}
	c := propConst(Or(da, db))
	if c != TTrue {
		d := 1
		if x != nil {
			d = x.depth + 1
		}
		n.pc = &pcNode{x, c, d}
		n.addFact(c)
	}
	n.models = nil
	for _, mm := range append(append([]Model{}, a.models...), b.models...) {
		if len(n.models) < 6 {
			n.models = append(n.models, mm)
		}
	}
	for i := range a.threads {
		for j := range a.threads[i].frames {
			fa, fb, fn := a.threads[i].frames[j], b.threads[i].frames[j], n.threads[i].frames[j]
			top := j == len(a.threads[i].frames)-1
			for r := range fa.regs {
				if !fa.liveAt(r, top) {
					fn.regs[r] = nil
					continue
				}
				fn.regs[r] = m.merge(fa.regs[r], fb.regs[r])
			}
			for k := range fa.defers {
				d := fa.defers[k]
				d.args = append([]Value(nil), d.args...)
				for q := range d.args {
					d.args[q] = m.merge(d.args[q], fb.defers[k].args[q])
				}
				d.fn = m.merge(d.fn, fb.defers[k].fn)
				fn.defers[k] = d
			}
		}
		vb := b.threads[i].vc
		for k, v := range vb {
			if n.threads[i].vc[k] > v {
				n.threads[i].vc[k] = v
			}
		}
		if b.threads[i].nrand > n.threads[i].nrand {
			n.threads[i].nrand = b.threads[i].nrand
		}
	}
	for id, vb := range b.heap {
		if va, ok := a.heap[id]; ok {
			if va != vb {
				n.heap[id] = m.merge(va, vb)
			}
			continue
		}
		if pa, ok := m.back[id]; ok {
			n.heap[pa] = m.merge(a.heap[pa], vb)
			continue
		}
		n.heap[id] = m.rename(vb)
		n.otype[id] = b.otype[id]
	}
	for k, vb := range b.hooks {
		if va, ok := a.hooks[k]; ok {
			if strings.HasPrefix(k, "cnt:") {
				// counters of used names: the larger one keeps names fresh
				if va.(*Term).V.Cmp(vb.(*Term).V) > 0 {
					vb = va
				}
				n.hooks[k] = vb
				continue
			}
			n.hooks[k] = m.merge(va, vb)
		} else if strings.HasPrefix(k, "draw!") || k == "faulted" {
			n.hooks[k] = m.merge(TFalse, vb)
		} else {
			n.hooks[k] = m.rename(vb)
		}
	}
	for k, va := range a.hooks {
		if _, ok := b.hooks[k]; !ok && (strings.HasPrefix(k, "draw!") || k == "faulted") {
			n.hooks[k] = m.merge(va, TFalse)
		}
	}
	n.multi = a.multi || b.multi
	for k, v := range b.acc {
		id := k
		if p, ok := m.back[k]; ok {
			id = p
		}
		have := n.acc[id]
	outer:
		for _, x := range v {
			for _, y := range have {
				if x.tid == y.tid && x.clk == y.clk && x.w == y.w && samePath(x.path, y.path) {
					continue outer
				}
			}
			have = append(have, x)
		}
		n.acc[id] = have
	}
	for k, v := range b.syncVC {
		if w, ok := n.syncVC[k]; ok {
			mm := map[int]int{}
			for t, c := range w {
				if v[t] < c {
					c = v[t]
				}
				mm[t] = c
			}
			n.syncVC[k] = mm
		} else {
			n.syncVC[k] = v
		}
	}
	if b.steps > n.steps {
		n.steps = b.steps
	}
	ex.merges++
	return n
}

// liveAt: is register r possibly needed by this frame from its current point?
func (f *Frame) liveAt(r int, top bool) bool {
	if f.regs[r] == nil {
		return false
	}
	if f.pc == 0 || f.onlyPhisBefore() {
		return f.fi.live[f.block.Index][r]
	}
	return true
}
func (f *Frame) onlyPhisBefore() bool {
	for i := 0; i < f.pc; i++ {
		if _, ok := f.block.Instrs[i].(*ssa.Phi); !ok {
			return false
		}
	}
	return true
}

func (m *merger) tryPair(x, y int) bool {
	if x == 0 || y == 0 || x == y {
		return false
	}
	if _, ok := m.b.heap[x]; ok {
		return false
	}
	if _, ok := m.a.heap[y]; ok {
		return false
	}
	if _, ok := m.pair[x]; ok {
		return false
	}
	if _, ok := m.back[y]; ok {
		return false
	}
	va, ok1 := m.a.heap[x]
	vb, ok2 := m.b.heap[y]
	if !ok1 || !ok2 {
		return false
	}
	tx, ty := m.a.otype[x], m.b.otype[y]
	if tx == nil || ty == nil || !types.Identical(tx, ty) {
		return false
	}
	if !shapeOK(va, vb) {
		return false
	}
	m.pair[x] = y
	m.back[y] = x
	m.walk(va, vb)
	return true
}

func shapeOK(a, b Value) bool {
	switch x := a.(type) {
	case *Array:
		y, ok := b.(*Array)
		return ok && len(x.E) == len(y.E)
	case *Struct:
		y, ok := b.(*Struct)
		return ok && len(x.F) == len(y.F)
	case *ChanObj, *MapObj:
		return false
	}
	return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
}

func (m *merger) walk(a, b Value) {
	if a == nil || b == nil || a == b {
		return
	}
	switch x := a.(type) {
	case *Ptr:
		if y, ok := b.(*Ptr); ok && samePath(x.Path, y.Path) {
			m.tryPair(x.Obj, y.Obj)
		}
	case *Slice:
		if y, ok := b.(*Slice); ok && x.Arr != nil && y.Arr != nil && x.Off == y.Off && samePath(x.Arr.Path, y.Arr.Path) {
			m.tryPair(x.Arr.Obj, y.Arr.Obj)
		}
	case *Struct:
		if y, ok := b.(*Struct); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				m.walk(x.F[i], y.F[i])
			}
		}
	case *Array:
		if y, ok := b.(*Array); ok && len(x.E) == len(y.E) {
			for i := range x.E {
				m.walk(x.E[i], y.E[i])
			}
		}
	case *Tuple:
		if y, ok := b.(*Tuple); ok && len(x.V) == len(y.V) {
			for i := range x.V {
				m.walk(x.V[i], y.V[i])
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			m.walk(x.V, y.V)
		}
	case *ChanObj:
		if y, ok := b.(*ChanObj); ok && len(x.Buf) == len(y.Buf) {
			for i := range x.Buf {
				m.walk(x.Buf[i], y.Buf[i])
			}
		}
	case *Opaque:
		if y, ok := b.(*Opaque); ok && x.Kind == y.Kind && len(x.D) == len(y.D) {
			for i := range x.D {
				m.walk(x.D[i], y.D[i])
			}
		}
	case *Func:
		if y, ok := b.(*Func); ok && x.Fn == y.Fn && len(x.Bind) == len(y.Bind) {
			for i := range x.Bind {
				m.walk(x.Bind[i], y.Bind[i])
			}
		}
	}
}

func (m *merger) rename(v Value) Value {
	if len(m.back) == 0 {
		return v
	}
	switch x := v.(type) {
	case *Ptr:
		if p, ok := m.back[x.Obj]; ok {
			return &Ptr{p, x.Path}
		}
	case *Slice:
		if x.Arr != nil {
			if p, ok := m.back[x.Arr.Obj]; ok {
				return &Slice{Arr: &Ptr{p, x.Arr.Path}, Off: x.Off, Len: x.Len, Cap: x.Cap}
			}
		}
	case *Struct:
		if f, ch := m.renameAll(x.F); ch {
			return &Struct{f}
		}
	case *Array:
		if f, ch := m.renameAll(x.E); ch {
			return &Array{f}
		}
	case *Tuple:
		if f, ch := m.renameAll(x.V); ch {
			return &Tuple{f}
		}
	case *Opaque:
		if f, ch := m.renameAll(x.D); ch {
			return &Opaque{x.Kind, f}
		}
	case *Iface:
		if x.T != nil {
			if r := m.rename(x.V); r != x.V {
				return &Iface{x.T, r}
			}
		}
	case *Func:
		if f, ch := m.renameAll(x.Bind); ch {
			n := *x
			n.Bind = f
			return &n
		}
	case *Choice:
		alts := make([]Alt, len(x.A))
		ch := false
		for i, al := range x.A {
			r := m.rename(al.V)
			ch = ch || r != al.V
			alts[i] = Alt{al.G, r}
		}
		if ch {
			return &Choice{alts}
		}
	case *MapV:
		if p, ok := m.back[x.Obj]; ok {
			return &MapV{p}
		}
	case *ChanV:
		if p, ok := m.back[x.Obj]; ok {
			return &ChanV{p}
		}
	case *ChanObj:
		if f, ch := m.renameAll(x.Buf); ch {
			n := *x
			n.Buf = f
			return &n
		}
	case *MapObj:
		k, c1 := m.renameAll(x.K)
		vv, c2 := m.renameAll(x.V)
		if c1 || c2 {
			return &MapObj{k, vv}
		}
	}
	return v
}

func (m *merger) renameAll(vs []Value) ([]Value, bool) {
	var out []Value
	for i, v := range vs {
		r := m.rename(v)
		if r != v {
			if out == nil {
				out = append([]Value(nil), vs...)
			}
			out[i] = r
		}
	}
	if out == nil {
		return vs, false
	}
	return out, true
}

func (m *merger) merge(a, b Value) Value {
	if a == nil {
		return nil
	}
	if b == nil {
		return nil
	}
	rb := m.rename(b)
	if ca, ok := a.(*ChanObj); ok {
		cb, ok2 := rb.(*ChanObj)
		if ok2 && ca.Cap == cb.Cap && ca.Closed == cb.Closed && len(ca.Buf) == len(cb.Buf) {
			n := *ca
			n.Buf = make([]Value, len(ca.Buf))
			for i := range n.Buf {
				n.Buf[i] = mergeVal(m.g, ca.Buf[i], cb.Buf[i])
			}
			return &n
		}
		return &Choice{[]Alt{{m.g, a}, {Not(m.g), rb}}}
	}
	return mergeVal(m.g, a, rb)
}
