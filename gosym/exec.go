package main

// The symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	Kind   string // assert, panic, deadlock, race, unwind, unknown, unsupported
	Msg    string
	Pos    string
	Model  Model
	Stack  string
	Oracle []OracleEntry
}

type Exec struct {
	prog                        *ssa.Program
	fset                        *token.FileSet
	globals                     map[*ssa.Global]int
	base                        map[int]Value // immutable initial heap
	btype                       map[int]types.Type
	nextObj                     int
	work                        []*State
	events                      []Event
	eventKey                    map[string]bool
	maxSteps                    int
	maxIter                     int
	maxPaths                    int
	ends                        int
	forks                       int
	merges                      int
	instrs                      int
	fnsSeen                     map[string]bool
	qTimeout                    time.Duration
	aTimeout                    time.Duration
	portfolio                   []string
	stopOnEvent                 bool
	raceOn                      bool
	deadline                    time.Time
	cover                       map[string]int // sym.Cover labels reached
	asserts                     int
	assertOK                    int
	assumes                     map[string]bool
	fresh                       int
	initMode                    bool
	schedAll                    bool
	loose                       bool
	noFeas                      bool
	looseTab                    []looseQ
	looseLemmas                 []*Term
	noMerge                     bool
	onEnd                       func(st *State)
	timedOut                    bool
	loadLog                     map[string]int
	digitsMin, digitsMax        int
	baseTables                  map[int]*Term // tables of multiples, by the logarithm of their base
	fieldOn                     bool // contract field in use
	ctrOverride                 map[string]func(ex *Exec, st *State, c *callCtx) []Value
	warned                      map[string]bool
	pkgInit                     map[string]bool
	crossChecked, crossDisagree int
	assertTrivial               int
	crossCheck                  bool
	realHash                    bool
	wantCover                   bool
	coverModel                  map[string]*Witness
}

type callCtx struct {
	fn   *ssa.Function
	args []Value
	inst ssa.Instruction
	name string
}

type forkReq struct {
	conds []*Term
	t     *Term // set when the conditions fix t to vals
	vals  []*Term
}
type choiceReq struct {
	name  string
	conds []*Term
}
type blockReq struct{}
type panicReq struct {
	msg string
	val Value
	rt  bool
}
type killReq struct{ why string } // path ends (assumption false)

func (ex *Exec) pos(st *State) string {
	t := st.th()
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		if f.pc < len(f.block.Instrs) {
			if p := f.block.Instrs[f.pc].Pos(); p.IsValid() {
				ps := ex.fset.Position(p)
				return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
			}
		}
	}
	return "?"
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/src/"); i >= 0 {
		f = f[i+5:]
	}
	return strings.TrimPrefix(f, "github.com/mit-dci/")
}

func (ex *Exec) stack(st *State) string {
	var sb strings.Builder
	t := st.th()
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		p := "?"
		pc := f.pc
		if i < len(t.frames)-1 && pc > 0 {
			pc--
		}
		if pc < len(f.block.Instrs) {
			ps := ex.fset.Position(f.block.Instrs[pc].Pos())
			p = fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
		fmt.Fprintf(&sb, "%s (%s)\n", f.fi.name, p)
	}
	return sb.String()
}

func (ex *Exec) alloc(st *State, v Value, t types.Type) *Ptr {
	ex.nextObj++
	id := ex.nextObj
	st.heap[id] = v
	st.otype[id] = t
	return &Ptr{Obj: id}
}

func (ex *Exec) heapGet(st *State, id int) Value {
	if v, ok := st.heap[id]; ok {
		return v
	}
	if v, ok := ex.base[id]; ok {
		return v
	}
	panic(fmt.Sprintf("no heap object %d", id))
}

// ---------- path access

func getPath(v Value, path []PE) Value {
	for i, p := range path {
		switch x := v.(type) {
		case *Struct:
			v = x.F[p.I]
		case *Array:
			if p.T != nil {
				rest := path[i+1:]
				var r Value
				for k := len(x.E) - 1; k >= 0; k-- {
					e := getPath(x.E[k], rest)
					if r == nil {
						r = e
					} else {
						r = mergeVal(Eq(p.T, BVu(uint64(k), 64)), e, r)
					}
				}
				return r
			}
			v = x.E[p.I]
		default:
			panic(unsup(fmt.Sprintf("path into %T", v)))
		}
	}
	return v
}

func setPath(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *Struct:
		f := append([]Value(nil), x.F...)
		f[p.I] = setPath(f[p.I], path[1:], nv)
		return &Struct{f}
	case *Array:
		e := append([]Value(nil), x.E...)
		if p.T != nil {
			for k := range e {
				g := Eq(p.T, BVu(uint64(k), 64))
				if g == TFalse {
					continue
				}
				e[k] = mergeVal(g, setPath(e[k], path[1:], nv), e[k])
			}
			return &Array{e}
		}
		e[p.I] = setPath(e[p.I], path[1:], nv)
		return &Array{e}
	}
	panic(unsup(fmt.Sprintf("store path into %T", v)))
}

// ---------- control helpers

func (ex *Exec) check(st *State, extra *Term, timeout time.Duration, want bool) (Result, Model) {
	as := append(st.pc.list(), extra)
	as = append(relevant(st.pc.list(), extra), extra)
	r, m, _ := Solve(as, timeout, want)
	return r, m
}

// feasible reports whether c may hold (Unknown counts as feasible).
func (ex *Exec) feasible(st *State, c *Term) bool {
	if c.isConst() {
		return c == TTrue
	}
	for _, m := range st.models {
		if Eval(c, m, map[int64]*big.Int{}).Sign() != 0 {
			return true
		}
	}
	if ex.noFeas {
		if boolOnly(c) {
			// cheap: decide it from the purely boolean part of the path condition
			var as []*Term
			for _, p := range relevant(st.pc.list(), c) {
				if boolOnly(p) {
					as = append(as, p)
				}
			}
			if r, _, _ := Solve(append(as, c), ex.qTimeout, false); r == Unsat {
				return false
			}
		}
		return true // explored without asking: over-approximates
	}
	all := st.pc.list()
	if ex.fieldOn {
		if m := ex.guessModel(append(all[:len(all):len(all)], c), ex.guesses()); m != nil {
			if len(st.models) > 8 {
				st.models = st.models[1:]
			}
			st.models = append(st.models, m)
			return true
		}
	}
	rel := relevant(all, c)
	r, m, _ := Solve(append(append([]*Term{}, rel...), c), ex.qTimeout, true)
	if r == Sat && m != nil {
		// extend with an existing model for unrelated variables
		if len(st.models) > 0 {
			mm := Model{}
			for k, v := range st.models[0] {
				mm[k] = v
			}
			for k, v := range m {
				mm[k] = v
			}
			ok := true
			memo := map[int64]*big.Int{}
			for _, p := range all {
				if Eval(p, mm, memo).Sign() == 0 {
					ok = false
					break
				}
			}
			if ok {
				if len(st.models) > 8 {
					st.models = st.models[1:]
				}
				st.models = append(st.models, mm)
			}
		} else {
			ok := true
			memo := map[int64]*big.Int{}
			for _, p := range all {
				if Eval(p, m, memo).Sign() == 0 {
					ok = false
					break
				}
			}
			if ok {
				st.models = append(st.models, m)
			}
		}
		return true
	}
	return r != Unsat
}

// must makes sure ok holds, otherwise the path panics with msg (forking if both are possible).
func (ex *Exec) must(st *State, ok *Term, msg string) {
	ok = st.simp(ok)
	if ok == TTrue {
		return
	}
	if ok == TFalse {
		panic(panicReq{msg: msg, rt: true})
	}
	if !ex.feasible(st, Not(ok)) {
		st.addFact(ok)
		return
	}
	panic(forkReq{conds: []*Term{ok, Not(ok)}})
}

// decide returns a concrete truth value for c on this path, forking if needed.
func (ex *Exec) decide(st *State, c *Term) bool {
	c = st.simp(c)
	if c.isConst() {
		return c == TTrue
	}
	t := ex.feasible(st, c)
	f := ex.feasible(st, Not(c))
	switch {
	case t && f:
		panic(forkReq{conds: []*Term{c, Not(c)}})
	case t:
		st.addFact(c)
		return true
	case f:
		st.addFact(Not(c))
		return false
	}
	panic(killReq{"infeasible"})
}

// resolve picks the alternative of a Choice valid on this path.
func (ex *Exec) resolve(st *State, v Value) Value {
	c, ok := v.(*Choice)
	if !ok {
		return v
	}
	var left []Alt
	for _, a := range c.A {
		g := st.simp(a.G)
		if g == TTrue {
			return ex.resolve(st, a.V)
		}
		if g != TFalse {
			left = append(left, Alt{g, a.V})
		}
	}
	var feas []Alt
	for _, a := range left {
		if ex.feasible(st, a.G) {
			feas = append(feas, a)
		}
	}
	if len(feas) == 1 {
		st.addFact(feas[0].G)
		for _, a := range left {
			if a.G != feas[0].G {
				st.addFact(Not(a.G))
			}
		}
		return ex.resolve(st, feas[0].V)
	}
	if len(feas) == 0 {
		panic(killReq{"infeasible choice"})
	}
	var conds []*Term
	for _, a := range feas {
		conds = append(conds, a.G)
	}
	panic(forkReq{conds: conds})
}

// concrete forces an integer term to a constant on this path by forking over its feasible values.
func (ex *Exec) concrete(st *State, t *Term, limit int) *Term {
	if t.isConst() {
		return t
	}
	// known equalities
	if t.Op == OpIte {
		g := st.simp(t.A[0])
		if g == TTrue {
			return ex.concrete(st, t.A[1], limit)
		}
		if g == TFalse {
			return ex.concrete(st, t.A[2], limit)
		}
	}
	if v, ok := st.vals[t.id]; ok {
		return v
	}
	var vals []*Term
	var excl []*Term
	for {
		if len(vals) > limit {
			panic(unsup(fmt.Sprintf("too many values for symbolic size (%d+) at %s", limit, ex.pos(st))))
		}
		found := false
		for _, m := range st.models {
			memo := map[int64]*big.Int{}
			okm := true
			for _, e := range excl {
				if Eval(e, m, memo).Sign() == 0 {
					okm = false
					break
				}
			}
			if okm {
				x := constLike(t, Eval(t, m, memo))
				vals = append(vals, x)
				excl = append(excl, Not(Eq(t, x)))
				found = true
				break
			}
		}
		if found {
			continue
		}
		as := append(relevant(st.pc.list(), Eq(t, Var("conc!", t.S))), excl...)
		r, m, _ := Solve(as, ex.qTimeout, true)
		if r == Unsat {
			break
		}
		if r == Unknown {
			panic(unsup("solver timeout while concretising a size"))
		}
		x := constLike(t, Eval(t, m, map[int64]*big.Int{}))
		vals = append(vals, x)
		excl = append(excl, Not(Eq(t, x)))
	}
	if len(vals) == 0 {
		panic(killReq{"infeasible"})
	}
	if len(vals) == 1 {
		st.vals[t.id] = vals[0]
		st.addFact(Eq(t, vals[0]))
		return vals[0]
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].V.Cmp(vals[j].V) < 0 })
	var conds []*Term
	for _, x := range vals {
		conds = append(conds, Eq(t, x))
	}
	panic(forkReq{conds, t, vals})
}

func constLike(t *Term, v *big.Int) *Term {
	switch t.S.K {
	case KBool:
		return Bool(v.Sign() != 0)
	case KBV:
		return BVc(v, t.S.W)
	}
	return IntC(v)
}

func (ex *Exec) concInt(st *State, v Value, limit int) int {
	t := ex.concrete(st, ex.resolve(st, v).(*Term), limit)
	n := t.V
	if t.S.K == KBV {
		n = t.sval()
	}
	if !n.IsInt64() {
		panic(unsup("size out of range"))
	}
	return int(n.Int64())
}

// ---------- memory access through values

func (ex *Exec) loadV(st *State, p Value) Value {
	switch x := p.(type) {
	case *Ptr:
		if x.Obj == 0 {
			panic(panicReq{msg: "nil pointer dereference", rt: true})
		}
		ex.access(st, x, false)
		if d, ok := ex.baseTables[x.Obj]; ok && len(x.Path) >= 2 {
			return getPath(tableEntry(d, x.Path[0], x.Path[1]), x.Path[2:])
		}
		return getPath(ex.heapGet(st, x.Obj), x.Path)
	case *Choice:
		ok := TTrue
		for _, a := range x.A {
			if q, isP := a.V.(*Ptr); isP && q.Obj == 0 {
				ok = And(ok, Not(a.G))
			}
		}
		ex.must(st, ok, "nil pointer dereference")
		var r Value
		var gs, fs []*Term
		var vs []Value
		for _, a := range x.A {
			q := a.V.(*Ptr)
			if q.Obj == 0 {
				continue
			}
			g := st.simp(a.G)
			if g == TFalse {
				continue
			}
			if !validPath(ex.heapGet(st, q.Obj), q.Path) {
				continue // beyond its array: excluded by the bounds check of the merged pointer
			}
			gs = append(gs, g)
			fs = append(fs, And(a.G, g))
			vs = append(vs, ex.loadV(st, q))
		}
		if len(vs) > 1 {
			if j := pickAlt(fs, vs); j >= 0 {
				return vs[j]
			}
			if dbgIte {
				for i := range gs {
					fmt.Fprintf(os.Stderr, "ALT %d %.900s\n    %.900v\n", i, gs[i].str(12), vs[i])
				}
			}
		}
		for i := len(vs) - 1; i >= 0; i-- {
			g, v := gs[i], vs[i]
			if r == nil {
				r = v
			} else {
				r = mergeVal(g, v, r)
			}
		}
		if r == nil {
			panic(killReq{"infeasible"})
		}
		return r
	}
	panic(unsup(fmt.Sprintf("load through %T", p)))
}

// pickAlt looks for an alternative that agrees with every other one under the
// other's guard (coordinates of points whose logarithms agree there).
func pickAlt(gs []*Term, vs []Value) int {
	ts := make([]*Term, len(vs))
	op := OpConst
	for i, v := range vs {
		b, ok := v.(*BigVal)
		if !ok || !px(b.T) {
			return -1
		}
		if b.T.Op != OpConst {
			if op != OpConst && op != b.T.Op {
				return -1
			}
			op = b.T.Op
		}
		ts[i] = dlOf(b.T)
	}
	ups := make([]*Term, len(gs))
	for i, g := range gs {
		ups[i] = unitProp(g)
	}
	gs = ups
	// the most general alternative first
	order := make([]int, len(ts))
	for j := range order {
		order[j] = j
	}
	size := func(t *Term) int {
		if t.Op == OpIMod {
			t = t.A[0]
		}
		return len(t.P)
	}
	sort.SliceStable(order, func(x, y int) bool { return size(ts[order[x]]) > size(ts[order[y]]) })
	for _, j := range order {
		ok := true
		for i := range ts {
			if ts[i] != ts[j] && gs[i] != TFalse && !collapseIte(gs[i], ts[i], ts[j], op == OpPX) && !collapseCubes(gs[i], ts[i], ts[j], op == OpPX) && !collapseCtx(gs[i], ts[i], ts[j], op == OpPX) {
				ok = false
				break
			}
		}
		if ok {
			return j
		}
	}
	return -1
}

func (ex *Exec) storeV(st *State, p Value, v Value) {
	switch x := p.(type) {
	case *Ptr:
		if x.Obj == 0 {
			panic(panicReq{msg: "nil pointer dereference", rt: true})
		}
		ex.access(st, x, true)
		old := ex.heapGet(st, x.Obj)
		st.heap[x.Obj] = setPath(old, x.Path, v)
		if _, ok := st.otype[x.Obj]; !ok {
			st.otype[x.Obj] = ex.btype[x.Obj]
		}
		return
	case *Choice:
		ok := TTrue
		for _, a := range x.A {
			if q, isP := a.V.(*Ptr); isP && q.Obj == 0 {
				ok = And(ok, Not(a.G))
			}
		}
		ex.must(st, ok, "nil pointer dereference")
		for _, a := range x.A {
			q := a.V.(*Ptr)
			g := st.simp(a.G)
			if q.Obj == 0 || g == TFalse {
				continue
			}
			if g == TTrue {
				ex.storeV(st, q, v)
				continue
			}
			old := ex.loadV(st, q)
			ex.storeV(st, q, mergeVal(g, v, old))
		}
		return
	}
	panic(unsup(fmt.Sprintf("store through %T", p)))
}

// access records a memory access for data-race detection.
func (ex *Exec) access(st *State, p *Ptr, w bool) {
	if !ex.raceOn || !st.multi {
		return
	}
	t := st.th()
	if _, inBase := ex.base[p.Obj]; inBase && !w {
		if _, mod := st.acc[p.Obj]; !mod {
			// reads of initial memory still matter if someone writes later
		}
	}
	for _, a := range st.acc[p.Obj] {
		if a.tid == t.id || (!a.w && !w) {
			continue
		}
		if t.vc[a.tid] >= a.clk {
			continue
		}
		// overlapping paths?
		n := min(len(a.path), len(p.Path))
		over := true
		for i := 0; i < n; i++ {
			if a.path[i].T == nil && p.Path[i].T == nil && a.path[i].I != p.Path[i].I {
				over = false
				break
			}
		}
		if over {
			ex.event(st, Event{Kind: "race", Msg: "data race between goroutines: " + a.pos, Pos: ex.pos(st)})
		}
	}
	clk := t.vc[t.id]
	for _, a := range st.acc[p.Obj] {
		if a.tid == t.id && a.clk == clk && a.w == w && samePath(a.path, p.Path) {
			return
		}
	}
	st.acc[p.Obj] = append(st.acc[p.Obj], access{t.id, clk, w, p.Path, ex.pos(st)})
}

func (ex *Exec) event(st *State, e Event) {
	if e.Pos == "" {
		e.Pos = ex.pos(st)
	}
	if e.Stack == "" {
		e.Stack = ex.stack(st)
	}
	k := e.Kind + e.Msg + e.Pos
	if ex.eventKey[k] {
		return
	}
	if e.Model == nil && (e.Kind == "panic" || e.Kind == "race" || e.Kind == "deadlock") {
		r, m, _ := ex.solveOracle(st.pc.list(), ex.aTimeout, ex.portfolio...)
		if r == Unsat {
			return
		}
		if r == Unknown {
			ex.eventKey[k] = true
			ex.events = append(ex.events, Event{Kind: "unknown", Msg: "reachability of " + e.Kind + " undecided: " + e.Msg, Pos: e.Pos, Stack: e.Stack})
			return
		}
		e.Model = m
	}
	ex.eventKey[k] = true
	if e.Model != nil {
		e.Oracle = ex.oracleLog(st, e.Model)
	}
	ex.events = append(ex.events, e)
}

// ---------- main loop

func (ex *Exec) push(st *State) {
	if ex.noMerge {
		ex.work = append(ex.work, st)
		return
	}
	k := st.key()
	for i, o := range ex.work {
		if o.key() == k {
			if m := ex.mergeStates(o, st); m != nil {
				ex.work[i] = m
				return
			}
		}
	}
	ex.work = append(ex.work, st)
}

func (ex *Exec) pop() *State {
	best := 0
	if ex.noMerge {
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		return s
	}
	for i := 1; i < len(ex.work); i++ {
		if cmpStates(ex.work[i], ex.work[best]) < 0 {
			best = i
		}
	}
	s := ex.work[best]
	ex.work = append(ex.work[:best], ex.work[best+1:]...)
	return s
}

func (ex *Exec) Run(st *State) {
	ex.work = []*State{st}
	for len(ex.work) > 0 {
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.timedOut = true
			ex.events = append(ex.events, Event{Kind: "unknown", Msg: fmt.Sprintf("exploration time limit reached with %d states pending", len(ex.work))})
			return
		}
		if len(ex.work) > ex.maxPaths {
			ex.events = append(ex.events, Event{Kind: "unknown", Msg: "too many states", Pos: ex.pos(ex.work[0])})
			return
		}
		s := ex.pop()
		ex.runState(s)
		if ex.stopOnEvent {
			for _, e := range ex.events {
				if e.Kind != "unknown" && e.Kind != "unsupported" && e.Kind != "unwind" {
					return
				}
			}
		}
	}
}

// runState runs s until it ends, forks, or reaches a merge point while others wait.
func (ex *Exec) runState(st *State) {
	for {
		st.steps++
		ex.instrs++
		if st.steps > ex.maxSteps {
			ex.event(st, Event{Kind: "unwind", Msg: "step bound exceeded"})
			return
		}
		if ex.instrs&1023 == 0 && !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.push(st)
			return
		}
		cont, yield := ex.step(st)
		if !cont {
			return
		}
		if yield && len(ex.work) > 0 && !ex.noMerge {
			ex.push(st)
			return
		}
	}
}

// step executes one instruction. cont=false: the state is finished or was pushed.
func (ex *Exec) step(st *State) (cont, yield bool) {
	defer func() {
		if r := recover(); r != nil {
			switch q := r.(type) {
			case forkReq:
				ex.fork(st, q)
				cont = false
			case choiceReq:
				for i, c := range q.conds {
					s := st.clone()
					s.salt += fmt.Sprintf("%s=%d;", q.name, i)
					s.assume(c)
					ex.work = append(ex.work, s)
				}
				ex.forks++
				cont = false
			case killReq:
				cont = false
			case panicReq:
				cont = ex.raise(st, q)
				yield = false
			case blockReq:
				st.th().blocked = true
				cont = ex.schedule(st, true)
				yield = true
			case yieldReq:
				cont = ex.scheduleEx(st, st.cur)
				yield = true
			case unsupported:
				ex.event(st, Event{Kind: "unsupported", Msg: q.msg})
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", q.msg, ex.stack(st))
				}
				cont = false
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "INTERNAL", r, ex.stack(st))
					panic(r)
				}
				ex.event(st, Event{Kind: "unsupported", Msg: fmt.Sprint("internal: ", r)})
				cont = false
			}
		}
	}()
	dbgState = st
	f := st.top()
	if f.pc >= len(f.block.Instrs) {
		panic("fell off block")
	}
	in := f.block.Instrs[f.pc]
	return ex.exec(st, f, in)
}

func (ex *Exec) fork(st *State, q forkReq) {
	conds := q.conds
	ex.forks++
	if len(conds) > 1 && os.Getenv("GOSYM_FORKS") != "" {
		fmt.Fprintf(os.Stderr, "fork %d at %s steps=%d fr=%d pc=%d: %v\n", len(conds), ex.pos(st), st.steps, len(st.th().frames), st.pc.depth, conds)
	}
	for i, c := range conds {
		s := st
		if i < len(conds)-1 {
			s = st.clone()
		}
		s.assume(c)
		if q.t != nil {
			s.vals[q.t.id] = q.vals[i]
		}
		ex.work = append(ex.work, s)
	}
}

// raise starts panicking in the current thread. Returns whether the state continues.
func (ex *Exec) raise(st *State, q panicReq) bool {
	t := st.th()
	if q.val == nil {
		q.val = &Iface{T: types.Typ[types.String], V: strOf(q.msg)}
	}
	t.panic = &goPanicVal{msg: q.msg, val: q.val, pos: ex.pos(st), runtime: q.rt, stack: ex.stack(st)}
	t.recovered = false
	return ex.unwind(st)
}

func (ex *Exec) unwind(st *State) bool {
	t := st.th()
	for {
		if len(t.frames) == 0 {
			e := Event{Kind: "panic", Msg: t.panic.msg, Pos: t.panic.pos, Stack: t.panic.stack}
			ex.eventPanic(st, e)
			return false
		}
		f := t.frames[len(t.frames)-1]
		f.unwind = true
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if ex.callDeferred(st, f, d) {
				return true // frame pushed; continue executing it
			}
			if t.recovered {
				if ex.finishRecover(st) {
					return true
				}
				return ex.afterReturn(st)
			}
			continue
		}
		t.frames = t.frames[:len(t.frames)-1]
	}
}

func (ex *Exec) eventPanic(st *State, e Event) {
	ex.event(st, e)
	ex.ends++
}

// finishRecover resumes the current top frame after a recovered panic.
func (ex *Exec) finishRecover(st *State) bool {
	t := st.th()
	f := t.frames[len(t.frames)-1]
	t.panic = nil
	t.recovered = false
	f.unwind = false
	if f.fi.fn.Recover != nil {
		f.block = f.fi.fn.Recover
		f.iters = make([]int, len(f.fi.nest[f.block.Index]))
		f.pc = 0
		return true
	}
	// return zero results
	res := f.fi.fn.Signature.Results()
	var vs []Value
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, zero(res.At(i).Type()))
	}
	return ex.ret(st, vs)
}

func (ex *Exec) afterReturn(st *State) bool { return true }

// callDeferred invokes d; returns true if a frame was pushed.
func (ex *Exec) callDeferred(st *State, f *Frame, d deferred) bool {
	return ex.invoke(st, d.fn, d.args, nil, true, d.inst)
}

// schedule picks another runnable thread. forced: the current one cannot go on.
func (ex *Exec) schedule(st *State, forced bool) bool { return ex.scheduleEx(st, -1) }

func (ex *Exec) scheduleEx(st *State, exclude int) bool {
	var run []int
	for i, t := range st.threads {
		if i != exclude && !t.done && !t.blocked {
			run = append(run, i)
		}
	}
	if len(run) == 0 {
		if st.threads[0].done {
			return false
		}
		ex.event(st, Event{Kind: "deadlock", Msg: "all goroutines are blocked"})
		ex.ends++
		return false
	}
	pick := run[0]
	if v, ok := st.hooks["order"]; ok && v.(*Term).V.Sign() != 0 {
		pick = run[len(run)-1]
	}
	if ex.schedAll && len(run) > 1 {
		// explore every choice: fork over fresh choice variables
		ex.fresh++
		v := Var(fmt.Sprintf("sched!%d", ex.fresh), SBV(8))
		for i, r := range run {
			s := st
			if i < len(run)-1 {
				s = st.clone()
			}
			s.assume(Eq(v, BVu(uint64(i), 8)))
			s.cur = r
			s.switches++
			ex.push(s)
		}
		return false
	}
	if pick != st.cur {
		st.cur = pick
		st.switches++
	}
	return true
}

func (st *State) wake() {
	for _, t := range st.threads {
		t.blocked = false
	}
}

// ---------- operands

func (ex *Exec) get(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return &Ptr{Obj: ex.globalObj(x)}
	case *ssa.Function:
		return &Func{Fn: x}
	case *ssa.Builtin:
		return &Func{Bi: x}
	}
	i, ok := f.fi.idx[v]
	if !ok {
		panic(unsup(fmt.Sprintf("operand %T", v)))
	}
	r := f.regs[i]
	if r == nil {
		panic(fmt.Sprintf("undefined register %s in %s", v.Name(), f.fi.name))
	}
	return r
}

func (ex *Exec) globalObj(g *ssa.Global) int {
	if id, ok := ex.globals[g]; ok {
		return id
	}
	ex.nextObj++
	id := ex.nextObj
	ex.globals[g] = id
	t := g.Type().(*types.Pointer).Elem()
	ex.base[id] = zero(t)
	ex.btype[id] = t
	if g.Pkg != nil && !ex.pkgInit[g.Pkg.Pkg.Path()] && !ex.initMode {
		k := g.Pkg.Pkg.Path() + "." + g.Name()
		if !ex.warned[k] {
			ex.warned[k] = true
		}
	}
	return id
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if w, _ := intWidth(b); w > 0 {
			v := constant.ToInt(c.Value)
			bi, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				panic(unsup("const " + c.String()))
			}
			return BVc(bi, w)
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return strOf(constant.StringVal(c.Value))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return &Float{f}
		}
	}
	if tp, ok := t.Underlying().(*types.Interface); ok && tp != nil {
		return zero(t)
	}
	panic(unsup("const of type " + t.String()))
}

func (ex *Exec) set(f *Frame, v ssa.Value, x Value) {
	f.regs[f.fi.idx[v]] = x
}

// ---------- instruction execution

func (ex *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, ex.get(st, f, phi.Edges[pi]))
	}
	f.enter(to)
	for i, p := range phis {
		ex.set(f, p, vals[i])
	}
	f.pc = len(phis)
	for _, n := range f.iters {
		if n > ex.maxIter {
			ex.event(st, Event{Kind: "unwind", Msg: fmt.Sprintf("loop bound %d exceeded in %s", ex.maxIter, f.fi.name)})
			panic(killReq{"unwind"})
		}
	}
}

func (ex *Exec) exec(st *State, f *Frame, in ssa.Instruction) (cont, yield bool) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		p := ex.alloc(st, zero(t), t)
		ex.set(f, x, p)
		f.pc++
	case *ssa.BinOp:
		r := ex.binop(st, x.Op, ex.get(st, f, x.X), ex.get(st, f, x.Y), x.X.Type(), x.Y.Type())
		ex.set(f, x, r)
		f.pc++
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return ex.recv(st, f, x)
		}
		ex.set(f, x, ex.unop(st, f, x))
		f.pc++
	case *ssa.Call:
		return ex.call(st, f, x)
	case *ssa.ChangeInterface:
		ex.set(f, x, ex.get(st, f, x.X))
		f.pc++
	case *ssa.ChangeType:
		ex.set(f, x, ex.get(st, f, x.X))
		f.pc++
	case *ssa.Convert:
		ex.set(f, x, ex.convert(st, ex.get(st, f, x.X), x.X.Type(), x.Type()))
		f.pc++
	case *ssa.MultiConvert:
		ex.set(f, x, ex.convert(st, ex.get(st, f, x.X), x.X.Type(), x.Type()))
		f.pc++
	case *ssa.Defer:
		fn, args := ex.callTarget(st, f, &x.Call)
		f.defers = append(f.defers, deferred{fn, args, x})
		f.pc++
	case *ssa.Extract:
		v := ex.get(st, f, x.Tuple)
		switch tv := v.(type) {
		case *Tuple:
			ex.set(f, x, tv.V[x.Index])
		case *Choice:
			t := ex.resolve(st, v).(*Tuple)
			ex.set(f, x, t.V[x.Index])
		default:
			panic(unsup(fmt.Sprintf("extract of %T", v)))
		}
		f.pc++
	case *ssa.Field:
		v := ex.resolve(st, ex.get(st, f, x.X))
		ex.set(f, x, v.(*Struct).F[x.Field])
		f.pc++
	case *ssa.FieldAddr:
		p := ex.get(st, f, x.X)
		ex.set(f, x, ex.mapPtr(st, p, func(q *Ptr) Value {
			return &Ptr{q.Obj, appendPath(q.Path, PE{I: x.Field})}
		}))
		f.pc++
	case *ssa.Go:
		fn, args := ex.callTarget(st, f, &x.Call)
		f.pc++
		return ex.spawn(st, fn, args, x)
	case *ssa.If:
		c := ex.resolve(st, ex.get(st, f, x.Cond)).(*Term)
		c = st.simp(c)
		if c == TTrue {
			ex.jump(st, f, f.block.Succs[0])
			return true, len(f.block.Preds) > 1
		}
		if c == TFalse {
			ex.jump(st, f, f.block.Succs[1])
			return true, len(f.block.Preds) > 1
		}
		t := ex.feasible(st, c)
		e := ex.feasible(st, Not(c))
		switch {
		case t && e:
			ex.forks++
			if os.Getenv("GOSYM_FORKS") != "" {
				fmt.Fprintf(os.Stderr, "if at %s %s: %v\n", ex.pos(st), f.fi.name, c)
			}
			s2 := st.clone()
			st.assume(c)
			s2.assume(Not(c))
			func() {
				defer ex.catchKill()
				ex.jump(st, st.top(), st.top().block.Succs[0])
				ex.push(st)
			}()
			func() {
				defer ex.catchKill()
				ex.jump(s2, s2.top(), s2.top().block.Succs[1])
				ex.push(s2)
			}()
			return false, false
		case t:
			st.addFact(c)
			ex.jump(st, f, f.block.Succs[0])
		case e:
			st.addFact(Not(c))
			ex.jump(st, f, f.block.Succs[1])
		default:
			return false, false
		}
		return true, len(f.block.Preds) > 1
	case *ssa.Index:
		v := ex.resolve(st, ex.get(st, f, x.X))
		i := ex.idx64(st, ex.get(st, f, x.Index), x.Index.Type())
		switch a := v.(type) {
		case *Array:
			ex.must(st, Ult(i, BVu(uint64(len(a.E)), 64)), "index out of range")
			ex.set(f, x, getPath(a, []PE{mkPE(i)}))
		case *Str:
			ex.set(f, x, ex.strIndex(st, a, i))
		default:
			panic(unsup(fmt.Sprintf("index of %T", v)))
		}
		f.pc++
	case *ssa.IndexAddr:
		ex.set(f, x, ex.indexAddr(st, f, x))
		f.pc++
	case *ssa.Jump:
		ex.jump(st, f, f.block.Succs[0])
		return true, len(f.block.Preds) > 1
	case *ssa.Lookup:
		ex.set(f, x, ex.lookup(st, f, x))
		f.pc++
	case *ssa.MakeChan:
		n := ex.concInt(st, ex.get(st, f, x.Size), 16)
		p := ex.alloc(st, &ChanObj{Cap: n}, nil)
		ex.set(f, x, &ChanV{p.Obj})
		f.pc++
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, ex.get(st, f, v))
		}
		ex.set(f, x, &Func{Fn: x.Fn.(*ssa.Function), Bind: b})
		f.pc++
	case *ssa.MakeInterface:
		v := ex.get(st, f, x.X)
		ex.set(f, x, &Iface{T: x.X.Type(), V: v})
		f.pc++
	case *ssa.MakeMap:
		p := ex.alloc(st, &MapObj{}, nil)
		ex.set(f, x, &MapV{p.Obj})
		f.pc++
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		lt := ex.idx64(st, ex.resolve(st, ex.get(st, f, x.Len)), x.Len.Type())
		// negative or absurd sizes panic at run time; very large ones are memory exhaustion
		ex.must(st, Ult(lt, BVu(uint64(maxAlloc), 64)), "makeslice: len out of range or excessive allocation")
		if ub, ok := ex.manyValues(st, lt, 24); ok && x.Cap == x.Len {
			// symbolic length: allocate the largest possible backing array
			s := ex.newSlice(st, et, ub, ub)
			s.Len, s.Cap = lt, lt
			ex.set(f, x, s)
			f.pc++
			return true, false
		}
		n := ex.concInt(st, lt, 400)
		c := n
		if x.Cap != x.Len {
			ct := ex.idx64(st, ex.resolve(st, ex.get(st, f, x.Cap)), x.Cap.Type())
			ex.must(st, Ult(ct, BVu(uint64(maxAlloc), 64)), "makeslice: cap out of range or excessive allocation")
			c = ex.concInt(st, ct, 400)
		}
		ex.set(f, x, ex.newSlice(st, et, n, c))
		f.pc++
	case *ssa.MapUpdate:
		m := ex.resolve(st, ex.get(st, f, x.Map)).(*MapV)
		if m.Obj == 0 {
			panic(panicReq{msg: "assignment to entry in nil map", rt: true})
		}
		k, v := ex.get(st, f, x.Key), ex.get(st, f, x.Value)
		o := ex.heapGet(st, m.Obj).(*MapObj)
		for i := range o.K {
			if ex.decide(st, ex.eqVals(st, o.K[i], k)) {
				nv := append([]Value(nil), o.V...)
				nv[i] = v
				st.heap[m.Obj] = &MapObj{o.K, nv}
				f.pc++
				return true, false
			}
		}
		st.heap[m.Obj] = &MapObj{append(o.K[:len(o.K):len(o.K)], k), append(o.V[:len(o.V):len(o.V)], v)}
		f.pc++
	case *ssa.Next:
		ex.set(f, x, ex.next(st, f, x))
		f.pc++
	case *ssa.Panic:
		v := ex.get(st, f, x.X)
		panic(panicReq{msg: "panic: " + ex.describe(st, v), val: v})
	case *ssa.Range:
		v := ex.resolve(st, ex.get(st, f, x.X))
		p := ex.alloc(st, &Struct{[]Value{BVu(0, 64), v}}, nil)
		ex.set(f, x, p)
		f.pc++
	case *ssa.Return:
		var vs []Value
		for _, r := range x.Results {
			vs = append(vs, ex.get(st, f, r))
		}
		return ex.ret(st, vs), true
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case forkReq, blockReq:
							f.defers = append(f.defers, d)
						}
						panic(r)
					}
				}()
				ex.callDeferred(st, f, d)
			}()
			return true, false
		}
		f.pc++
	case *ssa.Select:
		return ex.sel(st, f, x)
	case *ssa.Send:
		ch := ex.resolve(st, ex.get(st, f, x.Chan)).(*ChanV)
		if ch.Obj == 0 {
			panic(blockReq{})
		}
		if !ex.trySend(st, ch, ex.get(st, f, x.X)) {
			panic(blockReq{})
		}
		f.pc++
	case *ssa.Slice:
		ex.set(f, x, ex.slice(st, f, x))
		f.pc++
	case *ssa.SliceToArrayPointer:
		s := ex.resolve(st, ex.get(st, f, x.X)).(*Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		ex.must(st, Ule(BVu(uint64(n), 64), s.Len), "slice to array: length")
		off := ex.concInt(st, s.Off, 64)
		arr := getPath(ex.heapGet(st, s.Arr.Obj), s.Arr.Path).(*Array)
		if off == 0 && len(arr.E) == int(n) {
			ex.set(f, x, s.Arr)
		} else {
			panic(unsup("slice to array pointer with offset"))
		}
		f.pc++
	case *ssa.Store:
		ex.storeV(st, ex.get(st, f, x.Addr), ex.get(st, f, x.Val))
		f.pc++
	case *ssa.TypeAssert:
		ex.set(f, x, ex.typeAssert(st, f, x))
		f.pc++
	default:
		panic(unsup(fmt.Sprintf("instruction %T", in)))
	}
	return true, false
}

var maxAlloc = 1 << 20

// validPath reports whether path stays within the arrays of v.
func validPath(v Value, path []PE) bool {
	for _, p := range path {
		switch x := v.(type) {
		case *Array:
			if p.T == nil && p.I >= len(x.E) {
				return false
			}
			if p.T != nil {
				return true
			}
			v = x.E[p.I]
		case *Struct:
			v = x.F[p.I]
		default:
			return true
		}
	}
	return true
}

// manyValues reports whether t has more than limit values on this path, and an upper bound of t.
func (ex *Exec) manyValues(st *State, t *Term, limit int) (int, bool) {
	if t.isConst() {
		return 0, false
	}
	if _, ok := st.vals[t.id]; ok {
		return 0, false
	}
	if t.Op == OpIte {
		if g := st.simp(t.A[0]); g == TTrue {
			return ex.manyValues(st, t.A[1], limit)
		} else if g == TFalse {
			return ex.manyValues(st, t.A[2], limit)
		}
	}
	if !ex.feasible(st, Not(Ult(t, BVu(uint64(limit), 64)))) {
		return 0, false
	}
	lo, hi := uint64(limit), uint64(maxAlloc) // t can be >= lo, is < hi
	for hi-lo > 1 {
		mid := lo + (hi-lo)/2
		if ex.feasible(st, Not(Ult(t, BVu(mid, 64)))) {
			lo = mid
		} else {
			hi = mid
		}
	}
	if lo > 1<<17 {
		return 0, false
	}
	return int(lo), true
}

func (ex *Exec) catchKill() {
	if r := recover(); r != nil {
		if _, ok := r.(killReq); !ok {
			panic(r)
		}
	}
}

func appendPath(p []PE, e PE) []PE {
	n := make([]PE, len(p)+1)
	copy(n, p)
	n[len(p)] = e
	return n
}

func mkPE(i *Term) PE {
	if i.isConst() {
		return PE{I: int(i.V.Int64())}
	}
	return PE{T: i}
}

// mapPtr applies fn to every non-nil pointer alternative, panicking on nil.
func (ex *Exec) mapPtr(st *State, p Value, fn func(*Ptr) Value) Value {
	switch x := p.(type) {
	case *Ptr:
		if x.Obj == 0 {
			panic(panicReq{msg: "nil pointer dereference", rt: true})
		}
		return fn(x)
	case *Choice:
		ok := TTrue
		for _, a := range x.A {
			if q, isP := a.V.(*Ptr); isP && q.Obj == 0 {
				ok = And(ok, Not(a.G))
			}
		}
		ex.must(st, ok, "nil pointer dereference")
		var alts []Alt
		for _, a := range x.A {
			q := a.V.(*Ptr)
			if q.Obj == 0 {
				continue
			}
			g := st.simp(a.G)
			if g == TFalse {
				continue
			}
			alts = append(alts, Alt{a.G, fn(q)})
		}
		if len(alts) == 1 {
			return alts[0].V
		}
		if len(alts) == 0 {
			panic(killReq{"infeasible"})
		}
		return &Choice{alts}
	}
	panic(unsup(fmt.Sprintf("pointer %T", p)))
}

func (ex *Exec) idx64(st *State, v Value, t types.Type) *Term {
	x := ex.resolve(st, v).(*Term)
	_, signed, _ := isInt(t)
	if x.S.W == 64 {
		return x
	}
	if signed {
		return Sext(x, 64)
	}
	return Zext(x, 64)
}

func (ex *Exec) newSlice(st *State, et types.Type, n, c int) *Slice {
	e := make([]Value, c)
	if c > 0 {
		z := zero(et)
		for i := range e {
			e[i] = z
		}
	}
	p := ex.alloc(st, &Array{e}, types.NewArray(et, int64(c)))
	return &Slice{Arr: p, Off: BVu(0, 64), Len: BVu(uint64(n), 64), Cap: BVu(uint64(c), 64)}
}

// bytesSlice allocates a fresh byte slice holding bs.
func (ex *Exec) bytesSlice(st *State, bs []*Term) *Slice {
	e := make([]Value, len(bs))
	for i := range e {
		e[i] = bs[i]
	}
	p := ex.alloc(st, &Array{e}, types.NewArray(types.Typ[types.Uint8], int64(len(bs))))
	n := BVu(uint64(len(bs)), 64)
	return &Slice{Arr: p, Off: BVu(0, 64), Len: n, Cap: n}
}

// elems returns the element values of a slice with concrete bounds (materialising ropes).
func (ex *Exec) elems(st *State, s *Slice) []Value {
	s = ex.mat(st, s)
	if s.Arr == nil {
		return nil
	}
	off := ex.concInt(st, s.Off, 64)
	n := ex.concInt(st, s.Len, 400)
	if n == 0 {
		return nil
	}
	ex.accessRange(st, s, off, n, false)
	arr := getPath(ex.heapGet(st, s.Arr.Obj), s.Arr.Path).(*Array)
	return arr.E[off : off+n]
}

func (ex *Exec) accessRange(st *State, s *Slice, off, n int, w bool) {
	if !ex.raceOn || !st.multi {
		return
	}
	for i := off; i < off+n; i++ {
		ex.access(st, &Ptr{s.Arr.Obj, appendPath(s.Arr.Path, PE{I: i})}, w)
	}
}

func (ex *Exec) bytesOf(st *State, v Value) []*Term {
	s := ex.resolve(st, v)
	switch x := s.(type) {
	case *Str:
		if x.B == nil && x.Opq != "" {
			panic(unsup("bytes of opaque string"))
		}
		return x.B
	case *Slice:
		es := ex.elems(st, x)
		out := make([]*Term, len(es))
		for i, e := range es {
			out[i] = ex.resolve(st, e).(*Term)
		}
		return out
	}
	panic(unsup(fmt.Sprintf("bytes of %T", s)))
}

func (ex *Exec) strIndex(st *State, a *Str, i *Term) Value {
	if a.B == nil {
		panic(unsup("index of opaque string"))
	}
	ex.must(st, Ult(i, BVu(uint64(len(a.B)), 64)), "index out of range")
	if i.isConst() {
		return a.B[i.V.Int64()]
	}
	r := a.B[len(a.B)-1]
	for k := len(a.B) - 2; k >= 0; k-- {
		r = Ite(Eq(i, BVu(uint64(k), 64)), a.B[k], r)
	}
	return r
}

func (ex *Exec) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Value {
	i := ex.idx64(st, ex.get(st, f, x.Index), x.Index.Type())
	b := ex.get(st, f, x.X)
	if at, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		n := at.Elem().Underlying().(*types.Array).Len()
		ex.must(st, Ult(i, BVu(uint64(n), 64)), "index out of range")
		return ex.mapPtr(st, b, func(q *Ptr) Value {
			return &Ptr{q.Obj, appendPath(q.Path, mkPE(i))}
		})
	}
	if c, ok := b.(*Choice); ok {
		// all alternatives must be in range; then map
		all := TTrue
		simple := true
		for _, a := range c.A {
			s, ok := a.V.(*Slice)
			if !ok || s.Rope != nil {
				simple = false
				break
			}
			all = And(all, Or(Not(a.G), Ult(i, s.Len)))
		}
		if simple {
			ex.must(st, all, "index out of range")
			var alts []Alt
			for _, a := range c.A {
				s := a.V.(*Slice)
				if s.Arr == nil || st.simp(a.G) == TFalse {
					continue
				}
				alts = append(alts, Alt{a.G, &Ptr{s.Arr.Obj, appendPath(s.Arr.Path, mkPE(Add(s.Off, i)))}})
			}
			if len(alts) == 1 {
				return alts[0].V
			}
			if len(alts) > 1 {
				return &Choice{alts}
			}
			panic(killReq{"infeasible"})
		}
		b = ex.resolve(st, b)
	}
	s := b.(*Slice)
	if s.Rope != nil {
		s = ex.mat(st, s)
		ex.set(f, x.X, s)
	}
	ex.must(st, Ult(i, s.Len), "index out of range")
	return &Ptr{s.Arr.Obj, appendPath(s.Arr.Path, mkPE(Add(s.Off, i)))}
}

func (ex *Exec) slice(st *State, f *Frame, x *ssa.Slice) Value {
	v := ex.resolve(st, ex.get(st, f, x.X))
	var lo, hi, mx *Term
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return ex.idx64(st, ex.get(st, f, o), o.Type())
	}
	lo, hi, mx = opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = BVu(0, 64)
	}
	switch a := v.(type) {
	case *Str:
		if a.B == nil {
			panic(unsup("slice of opaque string"))
		}
		n := BVu(uint64(len(a.B)), 64)
		if hi == nil {
			hi = n
		}
		ex.must(st, And(Ule(lo, hi), Ule(hi, n)), "slice bounds out of range")
		l, h := ex.concInt(st, lo, 300), ex.concInt(st, hi, 300)
		return &Str{B: a.B[l:h:h]}
	case *Ptr: // pointer to array
		if a.Obj == 0 {
			panic(panicReq{msg: "nil pointer dereference", rt: true})
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return ex.reslice(st, &Slice{Arr: a, Off: BVu(0, 64), Len: BVu(uint64(n), 64), Cap: BVu(uint64(n), 64)}, lo, hi, mx)
	case *Slice:
		if a.Rope != nil {
			if lo.isConst() && lo.V.Sign() == 0 && hi == nil && mx == nil {
				return a
			}
			a = ex.mat(st, a)
		}
		return ex.reslice(st, a, lo, hi, mx)
	}
	panic(unsup(fmt.Sprintf("slice of %T", v)))
}

func (ex *Exec) reslice(st *State, a *Slice, lo, hi, mx *Term) *Slice {
	cp := a.Cap
	if hi == nil {
		hi = a.Len
		ex.must(st, Ule(lo, hi), "slice bounds out of range")
	} else if mx == nil {
		ex.must(st, And(Ule(lo, hi), Ule(hi, cp)), "slice bounds out of range")
	}
	if mx != nil {
		ex.must(st, And(Ule(lo, hi), Ule(hi, mx), Ule(mx, cp)), "slice bounds out of range")
		cp = mx
	}
	if a.Arr == nil {
		return a
	}
	return &Slice{Arr: a.Arr, Off: Add(a.Off, lo), Len: Sub(hi, lo), Cap: Sub(cp, lo)}
}

// ---------- operators

func (ex *Exec) unop(st *State, f *Frame, x *ssa.UnOp) Value {
	v := ex.get(st, f, x.X)
	switch x.Op {
	case token.MUL:
		if c, ok := v.(*Choice); ok {
			_ = c
		}
		return ex.loadV(st, v)
	case token.NOT:
		return Not(ex.resolve(st, v).(*Term))
	case token.SUB:
		switch t := ex.resolve(st, v).(type) {
		case *Term:
			return Neg(t)
		case *Float:
			return &Float{-t.F}
		}
	case token.XOR:
		return BNot(ex.resolve(st, v).(*Term))
	}
	panic(unsup("unop " + x.Op.String()))
}

func (ex *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	switch op {
	case token.EQL:
		return ex.eqVals(st, a, b)
	case token.NEQ:
		return Not(ex.eqVals(st, a, b))
	}
	a, b = ex.resolve(st, a), ex.resolve(st, b)
	if sa, ok := a.(*Str); ok {
		sb := b.(*Str)
		switch op {
		case token.ADD:
			if sa.B == nil || sb.B == nil {
				return &Str{Opq: "concat"}
			}
			return &Str{B: append(sa.B[:len(sa.B):len(sa.B)], sb.B...)}
		default:
			x, ok1 := sa.goStr()
			y, ok2 := sb.goStr()
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return Bool(x < y)
				case token.LEQ:
					return Bool(x <= y)
				case token.GTR:
					return Bool(x > y)
				case token.GEQ:
					return Bool(x >= y)
				}
			}
		}
		panic(unsup("string op"))
	}
	if fa, ok := a.(*Float); ok {
		fb := b.(*Float)
		switch op {
		case token.ADD:
			return &Float{fa.F + fb.F}
		case token.SUB:
			return &Float{fa.F - fb.F}
		case token.MUL:
			return &Float{fa.F * fb.F}
		case token.QUO:
			return &Float{fa.F / fb.F}
		case token.LSS:
			return Bool(fa.F < fb.F)
		case token.LEQ:
			return Bool(fa.F <= fb.F)
		case token.GTR:
			return Bool(fa.F > fb.F)
		case token.GEQ:
			return Bool(fa.F >= fb.F)
		}
		panic(unsup("float op"))
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsup(fmt.Sprintf("binop %v on %T %T", op, a, b)))
	}
	_, signed, isI := isInt(ta)
	if !isI {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
		panic(unsup("bool binop"))
	}
	switch op {
	case token.ADD:
		return Add(x, y)
	case token.SUB:
		return Sub(x, y)
	case token.MUL:
		return Mul(x, y)
	case token.QUO, token.REM:
		ex.must(st, Not(Eq(y, BVu(0, y.S.W))), "integer divide by zero")
		o := OpUDiv
		switch {
		case signed && op == token.QUO:
			o = OpSDiv
		case signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return BVDivRem(o, x, y)
	case token.AND:
		return BAnd(x, y)
	case token.OR:
		return BOr(x, y)
	case token.XOR:
		return BXor(x, y)
	case token.AND_NOT:
		return BAnd(x, BNot(y))
	case token.SHL, token.SHR:
		_, ys, _ := isInt(tb)
		if ys {
			ex.must(st, Sle(BVu(0, y.S.W), y), "negative shift amount")
		}
		w := x.S.W
		// saturate the amount to width
		var amt *Term
		if y.S.W > w {
			amt = Ite(Ult(y, BVu(uint64(w), y.S.W)), Extract(y, w-1, 0), BVu(uint64(w), w))
			if w < 8 && w <= 4 {
				panic(unsup("narrow shift"))
			}
		} else {
			amt = Zext(y, w)
		}
		o := OpShl
		if op == token.SHR {
			o = OpLShr
			if signed {
				o = OpAShr
			}
		}
		return Shift(o, x, amt)
	case token.LSS:
		if signed {
			return Slt(x, y)
		}
		return Ult(x, y)
	case token.LEQ:
		if signed {
			return Sle(x, y)
		}
		return Ule(x, y)
	case token.GTR:
		if signed {
			return Slt(y, x)
		}
		return Ult(y, x)
	case token.GEQ:
		if signed {
			return Sle(y, x)
		}
		return Ule(y, x)
	}
	panic(unsup("binop " + op.String()))
}

// eqVals returns the condition under which two Go values are equal (==).
func (ex *Exec) eqVals(st *State, a, b Value) *Term {
	if c, ok := a.(*Choice); ok {
		r := TFalse
		for _, al := range c.A {
			r = Or(r, And(al.G, ex.eqVals(st, al.V, b)))
		}
		return r
	}
	if _, ok := b.(*Choice); ok {
		return ex.eqVals(st, b, a)
	}
	switch x := a.(type) {
	case *Term:
		return Eq(x, b.(*Term))
	case *Ptr:
		y := b.(*Ptr)
		if x.Obj != y.Obj {
			return TFalse
		}
		if len(x.Path) != len(y.Path) {
			return TFalse
		}
		r := TTrue
		for i := range x.Path {
			p, q := x.Path[i], y.Path[i]
			if p.T == nil && q.T == nil {
				if p.I != q.I {
					return TFalse
				}
				continue
			}
			pt, qt := p.T, q.T
			if pt == nil {
				pt = BVu(uint64(p.I), 64)
			}
			if qt == nil {
				qt = BVu(uint64(q.I), 64)
			}
			r = And(r, Eq(pt, qt))
		}
		return r
	case *Iface:
		y, ok := b.(*Iface)
		if !ok {
			panic(unsup("iface compare"))
		}
		if x.T == nil || y.T == nil {
			return Bool(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return TFalse
		}
		return ex.eqVals(st, x.V, y.V)
	case *Str:
		y := b.(*Str)
		if x.B == nil || y.B == nil {
			if x.Opq == y.Opq && x.Opq != "" {
				return TTrue
			}
			panic(unsup("comparison of formatted strings"))
		}
		if len(x.B) != len(y.B) {
			return TFalse
		}
		r := TTrue
		for i := range x.B {
			r = And(r, Eq(x.B[i], y.B[i]))
		}
		return r
	case *Struct:
		y := b.(*Struct)
		r := TTrue
		for i := range x.F {
			r = And(r, ex.eqVals(st, x.F[i], y.F[i]))
		}
		return r
	case *Array:
		y := b.(*Array)
		r := TTrue
		for i := range x.E {
			r = And(r, ex.eqVals(st, x.E[i], y.E[i]))
		}
		return r
	case *Slice: // only comparison with nil
		y := b.(*Slice)
		isNil := func(s *Slice) bool { return s.Arr == nil && s.Rope == nil }
		if isNil(x) {
			return Bool(isNil(y))
		}
		if isNil(y) {
			return Bool(isNil(x))
		}
		panic(unsup("slice compare"))
	case *Func:
		y := b.(*Func)
		nx := x.Fn == nil && x.Bi == nil && x.Nat == nil
		ny := y.Fn == nil && y.Bi == nil && y.Nat == nil
		return Bool(nx == ny)
	case *MapV:
		return Bool(x.Obj == b.(*MapV).Obj)
	case *ChanV:
		return Bool(x.Obj == b.(*ChanV).Obj)
	case *Float:
		return Bool(x.F == b.(*Float).F)
	case *BigVal:
		return Eq(x.T, b.(*BigVal).T)
	}
	panic(unsup(fmt.Sprintf("compare %T", a)))
}

func (ex *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if tb, ok := tu.(*types.Basic); ok {
		if fb, ok := fu.(*types.Basic); ok {
			fw, fs := intWidth(fb)
			tw, ts := intWidth(tb)
			if fw > 0 && tw > 0 {
				if c, isC := v.(*Choice); isC {
					v = ex.resolve(st, c)
				}
				x := v.(*Term)
				if tw <= fw {
					return Extract(x, tw-1, 0)
				}
				if fs {
					return Sext(x, tw)
				}
				return Zext(x, tw)
			}
			if fw > 0 && tb.Info()&types.IsFloat != 0 {
				x := ex.resolve(st, v).(*Term)
				if n, ok := constInt(x); ok {
					return &Float{float64(n)}
				}
				panic(unsup("int to float"))
			}
			if tw > 0 && fb.Info()&types.IsFloat != 0 {
				_ = ts
				return BVi(int64(v.(*Float).F), tw)
			}
			if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 {
				return v
			}
			if tb.Info()&types.IsString != 0 {
				if fb.Info()&types.IsString != 0 {
					return v
				}
				if fw > 0 {
					x := ex.resolve(st, v).(*Term)
					if n, ok := constInt(x); ok {
						return strOf(string(rune(n)))
					}
					panic(unsup("rune to string"))
				}
			}
			if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
				return v
			}
		}
		if tb.Info()&types.IsString != 0 {
			return &Str{B: append([]*Term{}, ex.bytesOf(st, v)...)}
		}
		if tb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if w, _, _ := isInt(sl.Elem()); w == 8 {
				return ex.bytesSlice(st, ex.bytesOf(st, v))
			}
		}
		if _, ok := fu.(*types.Slice); ok {
			return v
		}
	}
	panic(unsup(fmt.Sprintf("convert %v to %v", from, to)))
}

func (ex *Exec) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) Value {
	v := ex.resolve(st, ex.get(st, f, x.X)).(*Iface)
	ok := false
	var res Value
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v.T != nil && types.AssertableTo(x.AssertedType.Underlying().(*types.Interface), v.T) && implements(v.T, x.AssertedType) {
			ok = true
			res = v
		}
	} else if v.T != nil && types.Identical(v.T, x.AssertedType) {
		ok = true
		res = v.V
	}
	if x.CommaOk {
		if !ok {
			res = zero(x.AssertedType)
		}
		return &Tuple{[]Value{res, Bool(ok)}}
	}
	if !ok {
		panic(panicReq{msg: "interface conversion", rt: true})
	}
	return res
}

func implements(t types.Type, i types.Type) bool {
	return types.Implements(t, i.Underlying().(*types.Interface))
}

func (ex *Exec) lookup(st *State, f *Frame, x *ssa.Lookup) Value {
	v := ex.resolve(st, ex.get(st, f, x.X))
	switch m := v.(type) {
	case *Str:
		return ex.strIndex(st, m, ex.idx64(st, ex.get(st, f, x.Index), x.Index.Type()))
	case *MapV:
		et := x.X.Type().Underlying().(*types.Map).Elem()
		var r Value = zero(et)
		ok := TFalse
		if m.Obj != 0 {
			o := ex.heapGet(st, m.Obj).(*MapObj)
			k := ex.get(st, f, x.Index)
			for i := range o.K {
				e := ex.eqVals(st, o.K[i], k)
				r = mergeVal(e, o.V[i], r)
				ok = Or(ok, e)
			}
		}
		if x.CommaOk {
			return &Tuple{[]Value{r, ok}}
		}
		return r
	}
	panic(unsup(fmt.Sprintf("lookup in %T", v)))
}

func (ex *Exec) next(st *State, f *Frame, x *ssa.Next) Value {
	p := ex.get(st, f, x.Iter).(*Ptr)
	it := ex.heapGet(st, p.Obj).(*Struct)
	i := int(it.F[0].(*Term).V.Int64())
	tt := x.Type().(*types.Tuple)
	z := func(k int) Value {
		if b, ok := tt.At(k).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return Undef{}
		}
		return zero(tt.At(k).Type())
	}
	switch c := it.F[1].(type) {
	case *Str:
		if c.B == nil {
			panic(unsup("range over opaque string"))
		}
		if i >= len(c.B) {
			return &Tuple{[]Value{TFalse, z(1), z(2)}}
		}
		s, ok := (&Str{B: c.B[i:]}).goStr()
		if !ok {
			// symbolic bytes: only ASCII supported
			b := c.B[i]
			ex.must(st, Ult(b, BVu(0x80, 8)), "non-ascii symbolic string")
			st.heap[p.Obj] = &Struct{[]Value{BVu(uint64(i+1), 64), c}}
			return &Tuple{[]Value{TTrue, BVu(uint64(i), 64), Zext(b, 32)}}
		}
		for j, r := range s {
			_ = j
			n := len(string(r))
			st.heap[p.Obj] = &Struct{[]Value{BVu(uint64(i+n), 64), c}}
			return &Tuple{[]Value{TTrue, BVu(uint64(i), 64), BVi(int64(r), 32)}}
		}
	case *MapV:
		var o *MapObj
		if c.Obj != 0 {
			o = ex.heapGet(st, c.Obj).(*MapObj)
		}
		if o == nil || i >= len(o.K) {
			return &Tuple{[]Value{TFalse, z(1), z(2)}}
		}
		st.heap[p.Obj] = &Struct{[]Value{BVu(uint64(i+1), 64), c}}
		return &Tuple{[]Value{TTrue, o.K[i], o.V[i]}}
	}
	panic(unsup("range"))
}

// ---------- channels

func (ex *Exec) chanObj(st *State, ch *ChanV) *ChanObj {
	v := ex.heapGet(st, ch.Obj)
	o, ok := ex.resolve(st, v).(*ChanObj)
	if !ok {
		panic(unsup("channel object"))
	}
	return o
}

func copyVC(m map[int]int) map[int]int {
	n := make(map[int]int, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}
func joinVC(a, b map[int]int) {
	for k, v := range b {
		if a[k] < v {
			a[k] = v
		}
	}
}

func (ex *Exec) trySend(st *State, ch *ChanV, v Value) bool {
	o := ex.chanObj(st, ch)
	if o.Closed {
		panic(panicReq{msg: "send on closed channel", rt: true})
	}
	c := o.Cap
	if c == 0 {
		c = 1
	}
	if len(o.Buf) >= c {
		return false
	}
	n := *o
	n.Buf = append(o.Buf[:len(o.Buf):len(o.Buf)], v)
	t := st.th()
	n.VC = append(o.VC[:len(o.VC):len(o.VC)], copyVC(t.vc))
	t.vc[t.id]++
	st.heap[ch.Obj] = &n
	st.wake()
	return true
}

func (ex *Exec) tryRecv(st *State, ch *ChanV, et types.Type) (Value, bool, bool) { // value, ok, ready
	o := ex.chanObj(st, ch)
	if len(o.Buf) > 0 {
		n := *o
		v := o.Buf[0]
		n.Buf = o.Buf[1:]
		if len(o.VC) > 0 {
			joinVC(st.th().vc, o.VC[0])
			n.VC = o.VC[1:]
		}
		st.heap[ch.Obj] = &n
		st.wake()
		return v, true, true
	}
	if o.Closed {
		st.acquireVC(fmt.Sprintf("close%d", ch.Obj), st.th())
		return zero(et), false, true
	}
	return nil, false, false
}

func (ex *Exec) recv(st *State, f *Frame, x *ssa.UnOp) (bool, bool) {
	ch := ex.resolve(st, ex.get(st, f, x.X)).(*ChanV)
	if ch.Obj == 0 {
		panic(blockReq{})
	}
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	v, ok, ready := ex.tryRecv(st, ch, et)
	if !ready {
		panic(blockReq{})
	}
	if x.CommaOk {
		ex.set(f, x, &Tuple{[]Value{v, Bool(ok)}})
	} else {
		ex.set(f, x, v)
	}
	f.pc++
	return true, false
}

func (ex *Exec) sel(st *State, f *Frame, x *ssa.Select) (bool, bool) {
	// result tuple: index, recvOk, recv values...
	var recvTypes []types.Type
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			recvTypes = append(recvTypes, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	mkRes := func(idx int, ok bool, slot int, v Value) *Tuple {
		t := []Value{BVi(int64(idx), 64), Bool(ok)}
		for i, rt := range recvTypes {
			if i == slot {
				t = append(t, v)
			} else {
				t = append(t, zero(rt))
			}
		}
		return &Tuple{t}
	}
	slot := 0
	for i, s := range x.States {
		ch := ex.resolve(st, ex.get(st, f, s.Chan)).(*ChanV)
		if ch.Obj == 0 {
			if s.Dir == types.RecvOnly {
				slot++
			}
			continue
		}
		if s.Dir == types.RecvOnly {
			v, ok, ready := ex.tryRecv(st, ch, recvTypes[slot])
			if ready {
				ex.set(f, x, mkRes(i, ok, slot, v))
				f.pc++
				return true, false
			}
			slot++
		} else {
			if ex.trySend(st, ch, ex.get(st, f, s.Send)) {
				ex.set(f, x, mkRes(i, false, -1, nil))
				f.pc++
				return true, false
			}
		}
	}
	if !x.Blocking {
		ex.set(f, x, mkRes(-1, false, -1, nil))
		f.pc++
		return true, false
	}
	panic(blockReq{})
}

// ---------- calls

func (ex *Exec) callTarget(st *State, f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := ex.get(st, f, c.Value)
		iv, ok := ex.resolve(st, recv).(*Iface)
		if !ok {
			panic(unsup("invoke on non-interface"))
		}
		if iv.T == nil {
			panic(panicReq{msg: "nil pointer dereference (method call on nil interface)", rt: true})
		}
		fn := ex.prog.LookupMethod(iv.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(unsup("method " + c.Method.Name() + " on " + iv.T.String()))
		}
		args = append(args, iv.V)
		for _, a := range c.Args {
			args = append(args, ex.get(st, f, a))
		}
		return &Func{Fn: fn}, args
	}
	fv := ex.get(st, f, c.Value)
	for _, a := range c.Args {
		args = append(args, ex.get(st, f, a))
	}
	return ex.resolve(st, fv), args
}

func (ex *Exec) call(st *State, f *Frame, x *ssa.Call) (bool, bool) {
	fn, args := ex.callTarget(st, f, &x.Call)
	pushed := ex.invoke(st, fn, args, x, false, x)
	return true, !pushed && false
}

// invoke calls fn. Returns true if a new frame was pushed (result delivered on return).
// For intrinsics the result register is set and the caller's pc advanced.
func (ex *Exec) invoke(st *State, fv Value, args []Value, x *ssa.Call, isDefer bool, inst ssa.Instruction) bool {
	f := st.top()
	fn := fv.(*Func)
	deliver := func(vs []Value) {
		if x != nil {
			ex.setResult(f, x, vs)
			f.pc++
		}
	}
	if fn.Bi != nil {
		deliver(ex.builtin(st, f, fn.Bi, args, x, inst))
		return false
	}
	if fn.Nat != nil {
		deliver(fn.Nat(ex, st, &callCtx{args: args, inst: inst, name: fn.Name}))
		return false
	}
	if fn.Fn == nil {
		panic(panicReq{msg: "nil pointer dereference (call of nil func)", rt: true})
	}
	name := fnName(fn.Fn)
	if h, ok := ex.ctrOverride[name]; ok {
		deliver(h(ex, st, &callCtx{fn: fn.Fn, args: args, inst: inst, name: name}))
		return false
	}
	if name == "(*sync.Once).Do" {
		k := fmt.Sprintf("once:%v", *args[0].(*Ptr))
		if st.hooks[k] != nil {
			deliver(nil)
			return false
		}
		st.hooks[k] = TTrue
		return ex.invoke(st, ex.resolve(st, args[1]), nil, x, isDefer, inst)
	}
	if h, ok := intrinsics[name]; ok {
		deliver(h(ex, st, &callCtx{fn: fn.Fn, args: args, inst: inst, name: name}))
		return false
	}
	if fn.Fn.Synthetic == "package initializer" && !ex.pkgInit[fn.Fn.Pkg.Pkg.Path()] {
		deliver(nil)
		return false
	}
	if len(fn.Fn.Blocks) == 0 {
		panic(unsup("external function " + name))
	}
	if fn.Fn.Pkg != nil && denyPkg(fn.Fn.Pkg.Pkg.Path()) && !ex.initMode {
		panic(unsup("call into " + name))
	}
	if len(st.th().frames) > 200 {
		panic(unsup("recursion too deep in " + name))
	}
	ex.pushFrame(st, fn.Fn, args, fn.Bind, x, isDefer)
	return true
}

func denyPkg(p string) bool {
	switch p {
	case "fmt", "log", "os", "reflect", "runtime", "syscall", "time", "math/big", "unsafe", "flag", "compress/zlib", "compress/flate", "sync", "sync/atomic", "internal/sync":
		return true
	}
	return false
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args, bind []Value, x *ssa.Call, isDefer bool) *Frame {
	fi := infoOf(fn)
	ex.fnsSeen[fi.name] = true
	nf := &Frame{fi: fi, regs: make([]Value, fi.nregs), block: fn.Blocks[0], isDefer: isDefer}
	nf.iters = make([]int, len(fi.nest[0]))
	if x != nil {
		nf.call = x
	}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity mismatch calling %s: %d vs %d", fi.name, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		nf.regs[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.regs[fi.idx[p]] = bind[i]
	}
	t := st.th()
	t.frames = append(t.frames, nf)
	return nf
}

func (ex *Exec) setResult(f *Frame, x *ssa.Call, vs []Value) {
	res := x.Call.Signature().Results()
	switch res.Len() {
	case 0:
		ex.set(f, x, &Tuple{nil})
	case 1:
		if len(vs) != 1 {
			panic(fmt.Sprintf("result count for %s", x))
		}
		ex.set(f, x, vs[0])
	default:
		ex.set(f, x, &Tuple{vs})
	}
}

// ret pops the current frame. Returns whether the state continues.
func (ex *Exec) ret(st *State, vs []Value) bool {
	t := st.th()
	f := t.frames[len(t.frames)-1]
	t.frames = t.frames[:len(t.frames)-1]
	if f.onRet != nil {
		f.onRet(ex, st, vs)
	}
	if len(t.frames) == 0 {
		t.done = true
		if t.id == 0 {
			ex.ends++
			if ex.onEnd != nil {
				ex.onEnd(st)
			}
			return false
		}
		st.wake()
		return ex.schedule(st, true)
	}
	c := t.frames[len(t.frames)-1]
	if f.isDefer {
		if c.unwind {
			if t.recovered {
				return ex.finishRecover(st)
			}
			if t.panic != nil {
				return ex.unwind(st)
			}
		}
		return true // RunDefers re-executes
	}
	if f.call != nil {
		ex.setResult(c, f.call.(*ssa.Call), vs)
		c.pc++
	}
	return true
}

func (ex *Exec) spawn(st *State, fv Value, args []Value, inst ssa.Instruction) (bool, bool) {
	fn := fv.(*Func)
	st.multi = true
	cur := st.th()
	t := &Thread{id: len(st.threads), vc: copyVC(cur.vc)}
	t.vc[t.id] = 1
	cur.vc[cur.id]++
	st.threads = append(st.threads, t)
	if len(st.threads) > 200 {
		panic(unsup("too many goroutines"))
	}
	save := st.cur
	st.cur = t.id
	if fn.Fn == nil || len(fn.Fn.Blocks) == 0 {
		panic(unsup("go of intrinsic"))
	}
	ex.pushFrame(st, fn.Fn, args, fn.Bind, nil, false)
	st.cur = save
	if ex.schedAll {
		return ex.schedule(st, false), true
	}
	return true, false
}

func (ex *Exec) describe(st *State, v Value) string {
	switch x := v.(type) {
	case *Iface:
		if x.T == nil {
			return "nil"
		}
		return x.T.String() + ":" + ex.describe(st, x.V)
	case *Str:
		if s, ok := x.goStr(); ok {
			return s
		}
		return "<string>"
	case *Term:
		return x.String()
	}
	return fmt.Sprintf("%T", v)
}

var dbgState *State

// boolOnly reports whether t is a boolean combination of equations between
// bit-vector variables and constants.
func boolOnly(t *Term) bool {
	if b, ok := boolMemo[t.id]; ok {
		return b
	}
	r := true
	switch t.Op {
	case OpAnd, OpOr, OpNot:
		for _, a := range t.A {
			r = r && boolOnly(a)
		}
	case OpEq:
		for _, a := range t.A {
			r = r && a.S.K != KInt && (a.isConst() || a.Op == OpVar)
		}
	case OpIte:
		r = t.S.K == KBool && boolOnly(t.A[0]) && boolOnly(t.A[1]) && boolOnly(t.A[2])
	default:
		r = t.isConst() || t.Op == OpVar && t.S.K == KBool
	}
	boolMemo[t.id] = r
	return r
}

var boolMemo = map[int64]bool{}
