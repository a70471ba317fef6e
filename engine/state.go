package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow exceptions used by the direct-style interpreter ----

type unsupported struct{ why string }
type forkRetry struct {
	states []*State
	merge  bool
}
type goPanic struct {
	val Value
	msg string
}
type pathEnd struct{ why string }

type FuncInfo struct {
	fn    *ssa.Function
	index map[ssa.Value]int
	n     int
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	inst  int
	rlist []ssa.Value
}

type PanicInfo struct {
	val       Value
	msg       string
	pos       string
	stack     string
	recovered bool
}

type Deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type retKind uint8

const (
	retNormal retKind = iota
	retDefer
	retNative // native continuation: stored in frame.onReturn
)

type Frame struct {
	owner     int64
	fi        *FuncInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []Deferred
	ret       retKind
	retReg    int // register index in caller; -1 none
	panicking *PanicInfo
	forks     map[*ssa.BasicBlock]int
	symDepth  int
	isInit    bool
}

type Thread struct {
	owner   int64
	id      int
	frames  []*Frame
	done    bool
	blocked func(st *State) bool // non-nil: runnable only if it returns true
	why     string
	recvOn  int    // channel a plain receive of this thread is parked on
	recvAny []int  // channels a select of this thread is parked on
	slept   bool   // gave way in time.Sleep
	wantW   string // RWMutex this thread waits to write-lock
}

type State struct {
	id       int64
	over     map[int]*Obj
	pc       []*Term
	known    map[*Term]bool
	consts   map[*Term]uint64
	threads  []*Thread
	cur      int
	witness  *Model
	nd       map[string]int
	preempt  int
	schedOK  bool
	sched    []int
	switches []Switch
	visits   *visit
	tags     map[string]int // small concrete facts (mutex owners etc. are in heap)
	names    []string
	branches int
}

type Violation struct {
	Label    string
	Kind     string // assert, panic, deadlock
	Pos      string
	Stack    string
	Inputs   map[string]uint64
	Widths   map[string]int
	Sched    []int
	Switches []Switch
	Harness  string
}

type Engine struct {
	c        *Ctx
	solver   *Solver
	prog     *ssa.Program
	fset     *token.FileSet
	base     map[int]*Obj
	nextObj  int
	nextSt   int64
	globals  map[*ssa.Global]int
	pkgInit  map[*ssa.Package]int
	rt       rtypes
	fis      map[*ssa.Function]*FuncInfo
	consts   map[*ssa.Const]Value
	merging  bool
	unwind   int
	maxSteps int64
	deadline time.Time
	preBound int
	permMap  bool

	Violations []Violation
	vioSeen    map[string]int
	Reach      map[string]bool
	Asserts    map[string]int
	Folded     int
	Notes      map[string]int
	Funcs      map[string]bool
	Steps      int64
	Forks      int64
	Merges     int64
	Paths      int64
	PathEnds   map[string]int64
	harness    string
	initMode   bool
	maxVio     int
	stubs      map[string]func(c *ICall) Value
	exec1Pos   string
	allStates  int64
	timedOut   bool
	noMergeFns map[string]bool
	trace      bool
	maxConc    int
	natCache   map[*ssa.Function]native
	redirects  map[string]*ssa.Function
	inRepo     map[*ssa.Function]bool
	part, tier int
	fixedClock bool
	known      []Finding
	Witnesses  []Witness
	freshVio   int
	prof       map[string]int
	qcache     map[string]qres
	CacheHits  int
}

func NewEngine(prog *ssa.Program) *Engine {
	c := NewCtx()
	e := &Engine{c: c, solver: NewSolver(c), prog: prog, fset: prog.Fset, base: map[int]*Obj{}, nextObj: 1, nextSt: 1,
		globals: map[*ssa.Global]int{}, pkgInit: map[*ssa.Package]int{}, fis: map[*ssa.Function]*FuncInfo{}, consts: map[*ssa.Const]Value{},
		unwind: 64, maxSteps: 20_000_000_000, vioSeen: map[string]int{}, Reach: map[string]bool{}, Asserts: map[string]int{}, Notes: map[string]int{}, Funcs: map[string]bool{},
		PathEnds: map[string]int64{}, maxVio: 4, preBound: 2, noMergeFns: map[string]bool{}, maxConc: 300, natCache: map[*ssa.Function]native{}, redirects: map[string]*ssa.Function{}, inRepo: map[*ssa.Function]bool{}}
	e.stubs = map[string]func(c *ICall) Value{}
	return e
}

func (e *Engine) note(format string, a ...interface{}) {
	e.Notes[fmt.Sprintf(format, a...)]++
}

func (e *Engine) newID() int64 {
	e.nextSt++
	return e.nextSt
}

func (e *Engine) NewState() *State {
	return &State{id: e.newID(), over: map[int]*Obj{}, known: map[*Term]bool{}, consts: map[*Term]uint64{}, nd: map[string]int{}, witness: &Model{vals: map[*Term]uint64{}}}
}

func (e *Engine) fork(st *State) *State {
	e.allStates++
	n := &State{id: e.newID(), pc: st.pc[:len(st.pc):len(st.pc)], cur: st.cur, witness: st.witness, preempt: st.preempt, schedOK: st.schedOK,
		sched: st.sched[:len(st.sched):len(st.sched)], switches: st.switches[:len(st.switches):len(st.switches)], branches: st.branches, visits: st.visits}
	st.id = e.newID()
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	st.sched = st.sched[:len(st.sched):len(st.sched)]
	st.switches = st.switches[:len(st.switches):len(st.switches)]
	n.over = make(map[int]*Obj, len(st.over)+4)
	for k, v := range st.over {
		n.over[k] = v
	}
	n.known = make(map[*Term]bool, len(st.known)+2)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.consts = make(map[*Term]uint64, len(st.consts))
	for k, v := range st.consts {
		n.consts[k] = v
	}
	n.nd = make(map[string]int, len(st.nd))
	for k, v := range st.nd {
		n.nd[k] = v
	}
	if st.tags != nil {
		n.tags = make(map[string]int, len(st.tags))
		for k, v := range st.tags {
			n.tags[k] = v
		}
	}
	n.threads = append([]*Thread(nil), st.threads...)
	return n
}

func (st *State) thread() *Thread {
	t := st.threads[st.cur]
	if t.owner != st.id {
		nt := *t
		nt.owner = st.id
		nt.frames = append([]*Frame(nil), t.frames...)
		t = &nt
		st.threads[st.cur] = t
	}
	return t
}

func (st *State) threadN(i int) *Thread {
	t := st.threads[i]
	if t.owner != st.id {
		nt := *t
		nt.owner = st.id
		nt.frames = append([]*Frame(nil), t.frames...)
		t = &nt
		st.threads[i] = t
	}
	return t
}

// top returns the writable top frame of the current thread.
func (st *State) top() *Frame {
	t := st.thread()
	return st.frameW(t, len(t.frames)-1)
}

func (st *State) frameW(t *Thread, i int) *Frame {
	f := t.frames[i]
	if f.owner != st.id {
		nf := *f
		nf.owner = st.id
		nf.regs = append([]Value(nil), f.regs...)
		nf.defers = f.defers[:len(f.defers):len(f.defers)]
		if f.forks != nil {
			nf.forks = make(map[*ssa.BasicBlock]int, len(f.forks))
			for k, v := range f.forks {
				nf.forks[k] = v
			}
		}
		if f.panicking != nil {
			p := *f.panicking
			nf.panicking = &p
		}
		t.frames[i] = &nf
		f = &nf
	}
	return f
}

func (st *State) depth() int { return len(st.threads[st.cur].frames) }

// addPC conjoins a condition that is known to be feasible.
func (st *State) addPC(c *Ctx, t *Term) {
	if t.IsTrue() {
		return
	}
	st.pc = append(st.pc, t)
	st.learn(c, t, true)
}

func (st *State) learn(c *Ctx, t *Term, v bool) {
	if _, ok := st.known[t]; ok {
		return
	}
	st.known[t] = v
	switch t.op {
	case OpNot:
		st.learn(c, t.args[0], !v)
	case OpAnd:
		if v {
			st.learn(c, t.args[0], true)
			st.learn(c, t.args[1], true)
		}
	case OpOr:
		if !v {
			st.learn(c, t.args[0], false)
			st.learn(c, t.args[1], false)
		}
	case OpEq:
		if v && t.args[0].w > 0 {
			if t.args[0].op == OpConst {
				st.consts[t.args[1]] = t.args[0].k
			} else if t.args[1].op == OpConst {
				st.consts[t.args[0]] = t.args[1].k
			}
		}
	case OpUlt, OpUle, OpSlt, OpSle:
		st.known[c.Not(t)] = !v
	}
}

func (st *State) knownVal(c *Ctx, t *Term) (bool, bool) {
	if v, ok := st.known[t]; ok {
		return v, true
	}
	switch t.op {
	case OpNot:
		v, ok := st.knownVal(c, t.args[0])
		return !v, ok
	case OpAnd:
		a, aok := st.knownVal(c, t.args[0])
		if aok && !a {
			return false, true
		}
		b, bok := st.knownVal(c, t.args[1])
		if bok && !b {
			return false, true
		}
		return true, aok && bok
	case OpOr:
		a, aok := st.knownVal(c, t.args[0])
		if aok && a {
			return true, true
		}
		b, bok := st.knownVal(c, t.args[1])
		if bok && b {
			return true, true
		}
		return false, aok && bok
	case OpTrue:
		return true, true
	case OpFalse:
		return false, true
	case OpEq:
		if t.args[0].op == OpConst {
			if k, ok := st.consts[t.args[1]]; ok {
				return k == t.args[0].k, true
			}
		} else if t.args[1].op == OpConst {
			if k, ok := st.consts[t.args[0]]; ok {
				return k == t.args[1].k, true
			}
		}
	}
	return false, false
}

// feasible decides whether pc ∧ cond is satisfiable; returns a witness if so.
func (e *Engine) feasible(st *State, cond *Term) (Result, *Model) {
	if cond.IsTrue() {
		return Sat, st.witness
	}
	if cond.IsFalse() {
		return Unsat, nil
	}
	if v, ok := st.knownVal(e.c, cond); ok {
		if v {
			return Sat, st.witness
		}
		return Unsat, nil
	}
	if st.witness != nil {
		if v, ok := st.witness.EvalBool(cond); ok && v {
			return Sat, st.witness
		}
	}
	if e.prof != nil {
		e.prof[e.curPos(st)]++
		if os.Getenv("VERIF_PROFT") != "" && e.prof[e.curPos(st)] < 4 {
			fmt.Fprintln(os.Stderr, e.curPos(st), cond)
		}
	}
	r, m := e.sliced(st, cond)
	if r == Unknown {
		e.note("solver answered unknown on a feasibility query (treated as feasible)")
	}
	if m != nil {
		// guard against encoding mismatches between solver and evaluator
		if v, ok := m.EvalBool(cond); ok && !v {
			e.note("model mismatch")
			m = nil
		}
	}
	return r, m
}

type qres struct {
	r Result
	m *Model
}

// sliced answers pc ∧ cond, given that pc itself is satisfiable (the state carries a witness):
// only the conjuncts connected to cond through shared variables matter, and answers are
// cached by that slice.
func (e *Engine) sliced(st *State, cond *Term) (Result, *Model) {
	if st.witness == nil {
		return e.solver.Check(st.pc, cond, true)
	}
	in := map[int]bool{}
	for _, l := range e.c.leaves(cond) {
		in[l] = true
	}
	used := make([]bool, len(st.pc))
	for changed := true; changed; {
		changed = false
		for i, t := range st.pc {
			if used[i] {
				continue
			}
			ls := e.c.leaves(t)
			hit := false
			for _, l := range ls {
				if in[l] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, l := range ls {
					in[l] = true
				}
			}
		}
	}
	var pc []*Term
	var ids []int
	for i, t := range st.pc {
		if used[i] {
			pc = append(pc, t)
			ids = append(ids, t.id)
		}
	}
	sort.Ints(ids)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:", cond.id)
	for _, id := range ids {
		fmt.Fprintf(&sb, "%x,", id)
	}
	key := sb.String()
	q, ok := e.qcache[key]
	if !ok {
		q.r, q.m = e.solver.Check(pc, cond, true)
		if e.qcache == nil {
			e.qcache = map[string]qres{}
		}
		if q.r != Unknown {
			e.qcache[key] = q
		}
	} else {
		e.CacheHits++
	}
	if q.r != Sat || q.m == nil {
		return q.r, nil
	}
	m := &Model{vals: make(map[*Term]uint64, len(st.witness.vals)+len(q.m.vals))}
	for k, v := range st.witness.vals {
		m.vals[k] = v
	}
	for k, v := range q.m.vals {
		m.vals[k] = v
	}
	return Sat, m
}

// decide returns the truth of cond in st, forking (by exception) when both outcomes are possible.
func (e *Engine) decide(st *State, cond *Term) bool { return e.decideM(st, cond, true) }

func (e *Engine) decideM(st *State, cond *Term, mergeable bool) bool {
	if cond.IsTrue() {
		return true
	}
	if cond.IsFalse() {
		return false
	}
	if v, ok := st.knownVal(e.c, cond); ok {
		return v
	}
	if e.initMode {
		panic(unsupported{"symbolic branch in init"})
	}
	neg := e.c.Not(cond)
	rt, mt := e.feasible(st, cond)
	if rt == Unsat {
		st.learn(e.c, cond, false)
		return false
	}
	rf, mf := e.feasible(st, neg)
	if rf == Unsat {
		st.learn(e.c, cond, true)
		return true
	}
	e.Forks++
	a := e.fork(st)
	b := e.fork(st)
	a.addPC(e.c, cond)
	a.witness = mt
	b.addPC(e.c, neg)
	b.witness = mf
	e.countFork(st, a, b)
	panic(forkRetry{states: []*State{a, b}, merge: mergeable})
}

func (e *Engine) countFork(st *State, ss ...*State) {
	for _, s := range ss {
		f := s.top()
		if f.forks == nil {
			f.forks = map[*ssa.BasicBlock]int{}
		}
		f.forks[f.block]++
		s.branches++
	}
}

// assume conjoins cond, ending the path if infeasible.
func (e *Engine) assume(st *State, cond *Term) {
	if cond.IsTrue() {
		return
	}
	if v, ok := st.knownVal(e.c, cond); ok {
		if v {
			return
		}
		panic(pathEnd{"assume"})
	}
	r, m := e.feasible(st, cond)
	if r == Unsat {
		panic(pathEnd{"assume"})
	}
	st.addPC(e.c, cond)
	st.witness = m
}

// mustConst concretises t, forking over its feasible values.
func (e *Engine) mustConst(st *State, t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.IsTrue() {
		return 1
	}
	if t.IsFalse() {
		return 0
	}
	if k, ok := st.consts[t]; ok {
		return k
	}
	if t.w == 0 {
		return b2u(e.decideM(st, t, false))
	}
	var v uint64
	ok := false
	if st.witness != nil {
		v, ok = st.witness.Eval(t)
	}
	if !ok {
		r, m := e.solver.Check(st.pc, nil, true)
		if r == Unsat {
			panic(pathEnd{"infeasible"})
		}
		if m == nil {
			panic(unsupported{"no model to concretise with"})
		}
		v, ok = m.Eval(t)
		if !ok {
			panic(unsupported{"cannot evaluate term to concretise"})
		}
	}
	eq := e.c.Eq(t, e.c.BV(v, t.w))
	ne := e.c.Not(eq)
	rf, mf := e.feasible(st, ne)
	if rf == Unsat {
		st.consts[t] = v
		st.learn(e.c, eq, true)
		return v
	}
	e.Forks++
	a := e.fork(st)
	b := e.fork(st)
	a.addPC(e.c, eq)
	a.consts[t] = v
	b.addPC(e.c, ne)
	b.witness = mf
	f := b.top()
	if f.forks == nil {
		f.forks = map[*ssa.BasicBlock]int{}
	}
	f.symDepth++
	if f.symDepth > e.maxConc {
		e.note("concretisation limit %d reached at %s", e.maxConc, e.curPos(st))
		panic(forkRetry{states: []*State{a}})
	}
	panic(forkRetry{states: []*State{a, b}})
}

// resolve turns a union into one alternative, forking over feasible guards.
func (e *Engine) resolve(st *State, v Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return v
	}
	var open []Alt
	for _, a := range u.alts {
		if k, ok := st.knownVal(e.c, a.g); ok {
			if k {
				return e.resolve(st, a.v)
			}
			continue
		}
		open = append(open, a)
	}
	var states []*State
	var first *Alt
	for i := range open {
		r, m := e.feasible(st, open[i].g)
		if r == Unsat {
			continue
		}
		if first == nil {
			first = &open[i]
		}
		n := e.fork(st)
		n.addPC(e.c, open[i].g)
		n.witness = m
		states = append(states, n)
	}
	if len(states) == 0 {
		panic(pathEnd{"infeasible union"})
	}
	if len(states) == 1 {
		st.learn(e.c, first.g, true)
		return e.resolve(st, first.v)
	}
	e.Forks++
	panic(forkRetry{states: states, merge: true})
}

// ---- heap ----

func (e *Engine) alloc(st *State, v Value, t types.Type) int {
	id := e.nextObj
	e.nextObj++
	o := &Obj{id: id, v: v, typ: t, owner: st.id}
	if e.initMode {
		e.base[id] = o
	} else {
		st.over[id] = o
	}
	return id
}

func (e *Engine) obj(st *State, id int) *Obj {
	if o, ok := st.over[id]; ok {
		return o
	}
	if o, ok := e.base[id]; ok {
		return o
	}
	panic(fmt.Sprintf("no object %d", id))
}

func (e *Engine) objW(st *State, id int) *Obj {
	if e.initMode {
		return e.base[id]
	}
	o, ok := st.over[id]
	if ok && o.owner == st.id {
		return o
	}
	if !ok {
		o = e.base[id]
	}
	n := *o
	n.owner = st.id
	if n.m != nil {
		n.m = n.m.clone()
	}
	if n.ch != nil {
		c := *n.ch
		c.buf = append([]Value(nil), c.buf...)
		c.sendq = append([]sendWait(nil), c.sendq...)
		n.ch = &c
	}
	if n.it != nil {
		it := *n.it
		n.it = &it
	}
	st.over[id] = &n
	return &n
}

func (e *Engine) selectElem(st *State, a *ArrayV, idx *Term) Value {
	if idx.op == OpConst {
		return a.Get(int(idx.k))
	}
	if k, ok := st.consts[idx]; ok {
		return a.Get(int(k))
	}
	if a.n > 70000 {
		return a.Get(int(e.mustConst(st, idx)))
	}
	// run-length compressed chain
	hi := a.n
	if idx.umaxv+1 < uint64(hi) && idx.umaxv+1 != 0 {
		hi = int(idx.umaxv) + 1
	}
	if hi == 0 {
		panic(pathEnd{"empty select"})
	}
	type run struct {
		v   Value
		end int
	}
	var runs []run
	for i := 0; i < hi; i++ {
		v := a.Get(i)
		if len(runs) > 0 && same(runs[len(runs)-1].v, v) {
			runs[len(runs)-1].end = i + 1
		} else {
			runs = append(runs, run{v, i + 1})
		}
	}
	var build func(lo, hi int) Value
	build = func(lo, hi int) Value {
		if hi-lo == 1 {
			return runs[lo].v
		}
		mid := (lo + hi) / 2
		return merge(e.c, e.c.Ult(idx, e.c.BV(uint64(runs[mid-1].end), idx.w)), build(lo, mid), build(mid, hi))
	}
	return build(0, len(runs))
}

func (e *Engine) loadPath(st *State, v Value, path []PE) Value {
	for i, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[p.i]
		case *ArrayV:
			if p.s == nil {
				v = x.Get(p.i)
			} else {
				v = e.selectElem(st, x, p.s)
			}
		case *Union:
			var out Value
			for k, al := range x.alts {
				lv := e.loadPath(st, al.v, path[i:])
				if k == 0 {
					out = lv
				} else {
					out = merge(e.c, al.g, lv, out)
				}
			}
			return out
		case Poison:
			panic(unsupported{"use of value from unsupported initialiser: " + x.why})
		default:
			panic(unsupported{fmt.Sprintf("load path through %T", v)})
		}
	}
	return v
}

func (e *Engine) storePath(st *State, v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		f := append([]Value(nil), x.f...)
		f[p.i] = e.storePath(st, f[p.i], path[1:], nv)
		return &StructV{f}
	case *ArrayV:
		if p.s == nil {
			return x.Set(p.i, e.storePath(st, x.Get(p.i), path[1:], nv))
		}
		if k, ok := st.consts[p.s]; ok {
			return x.Set(int(k), e.storePath(st, x.Get(int(k)), path[1:], nv))
		}
		if x.n > 4096 {
			k := int(e.mustConst(st, p.s))
			return x.Set(k, e.storePath(st, x.Get(k), path[1:], nv))
		}
		vs := make([]Value, x.n)
		for i := 0; i < x.n; i++ {
			old := x.Get(i)
			c := e.c.Eq(p.s, e.c.BV(uint64(i), p.s.w))
			if c.IsFalse() {
				vs[i] = old
				continue
			}
			vs[i] = merge(e.c, c, e.storePath(st, old, path[1:], nv), old)
		}
		return ArrayOf(x.def, vs)
	case *Union:
		alts := make([]Alt, len(x.alts))
		for i, al := range x.alts {
			alts[i] = Alt{al.g, e.storePath(st, al.v, path, nv)}
		}
		return &Union{alts}
	}
	panic(unsupported{fmt.Sprintf("store path through %T", v)})
}

func (e *Engine) load(st *State, pv Value) Value {
	switch p := pv.(type) {
	case Ptr:
		if p.obj == 0 {
			panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		return e.loadPath(st, e.obj(st, p.obj).v, p.path)
	case *Union:
		// load each non-nil alternative, fork only for nil
		nilG := e.c.False
		for _, a := range p.alts {
			if q, ok := a.v.(Ptr); ok && q.obj == 0 {
				nilG = e.c.Or(nilG, a.g)
			} else if !ok {
				return e.load(st, e.resolve(st, pv))
			}
		}
		if !nilG.IsFalse() && e.decide(st, nilG) {
			panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
		}
		var out Value
		first := true
		for _, a := range p.alts {
			if q := a.v.(Ptr); q.obj != 0 {
				if v, ok := st.knownVal(e.c, a.g); ok && !v {
					continue
				}
				lv := e.load(st, q)
				if first {
					out = lv
					first = false
				} else {
					out = merge(e.c, a.g, lv, out)
				}
			}
		}
		if first {
			panic(pathEnd{"infeasible union"})
		}
		return out
	case Poison:
		panic(unsupported{"load through poison: " + p.why})
	}
	panic(unsupported{fmt.Sprintf("load from %T", pv)})
}

func (e *Engine) store(st *State, pv Value, v Value) {
	pv = e.resolve(st, pv)
	p, ok := pv.(Ptr)
	if !ok {
		panic(unsupported{fmt.Sprintf("store to %T", pv)})
	}
	if p.obj == 0 {
		panic(goPanic{msg: "runtime error: invalid memory address or nil pointer dereference"})
	}
	o := e.obj(st, p.obj)
	nv := e.storePath(st, o.v, p.path, v)
	e.objW(st, p.obj).v = nv
}

func (e *Engine) sliceArr(st *State, s Slice) *ArrayV {
	v := e.loadPath(st, e.obj(st, s.obj).v, s.path)
	v = e.resolve(st, v)
	a, ok := v.(*ArrayV)
	if !ok {
		panic(unsupported{fmt.Sprintf("slice backing %T", v)})
	}
	return a
}

func (e *Engine) sliceElems(st *State, s Slice) []Value {
	if s.len == 0 {
		return nil
	}
	a := e.sliceArr(st, s)
	out := make([]Value, s.len)
	for i := range out {
		out[i] = a.Get(s.off + i)
	}
	return out
}

func (e *Engine) sliceBytes(st *State, s Slice) []*Term {
	vs := e.sliceElems(st, s)
	out := make([]*Term, len(vs))
	for i, v := range vs {
		out[i] = v.(*Term)
	}
	return out
}

func (e *Engine) writeSlice(st *State, s Slice, at int, vs []Value) {
	if len(vs) == 0 {
		return
	}
	a := e.sliceArr(st, s)
	na := a.SetMany(s.off+at, vs)
	o := e.obj(st, s.obj)
	nv := e.storePath(st, o.v, s.path, na)
	e.objW(st, s.obj).v = nv
}

func (e *Engine) newSlice(st *State, elem types.Type, vs []Value, capn int) Slice {
	if capn < len(vs) {
		capn = len(vs)
	}
	z := e.zero(elem)
	a := NewArrayV(capn, z)
	a = a.SetMany(0, vs)
	id := e.alloc(st, a, types.NewArray(elem, int64(capn)))
	return Slice{obj: id, len: len(vs), cap: capn}
}

func (e *Engine) bytesSlice(st *State, bs []*Term) Slice {
	vs := make([]Value, len(bs))
	for i, b := range bs {
		vs[i] = b
	}
	return e.newSlice(st, types.Typ[types.Uint8], vs, len(bs))
}

// ---- equality ----

func (e *Engine) valEq(a, b Value) *Term {
	if ua, ok := a.(*Union); ok {
		r := e.c.False
		for _, al := range ua.alts {
			r = e.c.Or(r, e.c.And(al.g, e.valEq(al.v, b)))
		}
		return r
	}
	if _, ok := b.(*Union); ok {
		return e.valEq(b, a)
	}
	switch x := a.(type) {
	case nil:
		return e.isNil(b)
	case *Term:
		if b == nil {
			return e.c.False
		}
		return e.c.Eq(x, b.(*Term))
	case Str:
		y := b.(Str)
		if x.Len() != y.Len() {
			return e.c.False
		}
		if !x.sym && !y.sym {
			return e.c.Bool(x.s == y.s)
		}
		r := e.c.True
		for i := 0; i < x.Len(); i++ {
			r = e.c.And(r, e.c.Eq(x.at(e.c, i), y.at(e.c, i)))
		}
		return r
	case Ptr:
		if b == nil {
			return e.c.Bool(x.obj == 0)
		}
		y, ok := b.(Ptr)
		if !ok {
			return e.c.False
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return e.c.False
		}
		r := e.c.True
		for i := range x.path {
			p, q := x.path[i], y.path[i]
			if p.s == nil && q.s == nil {
				if p.i != q.i {
					return e.c.False
				}
				continue
			}
			ps, qs := p.s, q.s
			if ps == nil {
				ps = e.c.BV(uint64(p.i), qs.w)
			}
			if qs == nil {
				qs = e.c.BV(uint64(q.i), ps.w)
			}
			r = e.c.And(r, e.c.Eq(ps, qs))
		}
		return r
	case Iface:
		if b == nil {
			return e.c.Bool(x.t == nil)
		}
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported{"interface vs concrete equality"})
		}
		if x.t == nil || y.t == nil {
			return e.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.c.False
		}
		if !types.Comparable(x.t) {
			panic(goPanic{msg: "runtime error: comparing uncomparable type " + x.t.String()})
		}
		return e.valEq(x.v, y.v)
	case *StructV:
		y := b.(*StructV)
		r := e.c.True
		for i := range x.f {
			r = e.c.And(r, e.valEq(x.f[i], y.f[i]))
		}
		return r
	case *ArrayV:
		y := b.(*ArrayV)
		r := e.c.True
		for i := 0; i < x.n; i++ {
			r = e.c.And(r, e.valEq(x.Get(i), y.Get(i)))
		}
		return r
	case MapV:
		if b == nil {
			return e.c.Bool(x.obj == 0)
		}
		return e.c.Bool(x == b.(MapV))
	case ChanV:
		if b == nil {
			return e.c.Bool(x.obj == 0)
		}
		return e.c.Bool(x == b.(ChanV))
	case Slice:
		if b == nil {
			return e.c.Bool(x.obj == 0)
		}
		y := b.(Slice)
		return e.c.Bool(x.obj == 0 && y.obj == 0)
	case *FuncV:
		if b == nil {
			return e.c.Bool(x == nil)
		}
		y := b.(*FuncV)
		return e.c.Bool(x == nil && y == nil)
	}
	panic(unsupported{fmt.Sprintf("equality of %T", a)})
}

func (e *Engine) isNil(v Value) *Term {
	switch x := v.(type) {
	case nil:
		return e.c.True
	case *Union:
		r := e.c.False
		for _, al := range x.alts {
			r = e.c.Or(r, e.c.And(al.g, e.isNil(al.v)))
		}
		return r
	case Ptr:
		return e.c.Bool(x.obj == 0)
	case Iface:
		return e.c.Bool(x.t == nil)
	case MapV:
		return e.c.Bool(x.obj == 0)
	case ChanV:
		return e.c.Bool(x.obj == 0)
	case Slice:
		return e.c.Bool(x.obj == 0)
	case *FuncV:
		return e.c.Bool(x == nil)
	}
	panic(unsupported{fmt.Sprintf("nil test of %T", v)})
}

func (e *Engine) strLess(a, b Str) *Term {
	if !a.sym && !b.sym {
		return e.c.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := e.c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(e.c, i), b.at(e.c, i)
		r = e.c.Ite(e.c.Eq(x, y), r, e.c.Ult(x, y))
	}
	return r
}

// ---- misc ----

func (e *Engine) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := e.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, repoDir), ps.Line)
}

func (e *Engine) curPos(st *State) string {
	t := st.threads[st.cur]
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		// nearest instruction with a position
		for k := f.pc; k >= 0; k-- {
			if k < len(f.block.Instrs) {
				if p := f.block.Instrs[k].Pos(); p.IsValid() {
					return e.posOf(p) + " (" + f.fi.fn.Name() + ")"
				}
			}
		}
		if f.fi.fn.Pos().IsValid() {
			return e.posOf(f.fi.fn.Pos()) + " (" + f.fi.fn.Name() + ")"
		}
	}
	return "?"
}

func (e *Engine) stackOf(st *State) string {
	t := st.threads[st.cur]
	var out []string
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		p := ""
		if f.pc < len(f.block.Instrs) {
			p = e.posOf(f.block.Instrs[f.pc].Pos())
		}
		out = append(out, f.fi.fn.RelString(nil)+"@"+p)
	}
	return strings.Join(out, " < ")
}

func (e *Engine) info(fn *ssa.Function) *FuncInfo {
	if fi, ok := e.fis[fn]; ok {
		return fi
	}
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
	}
	fi := &FuncInfo{fn: fn, index: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.index[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			fi.inst++
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if fn.Recover != nil {
		for _, i := range fn.Recover.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if _, ok := fi.index[v]; !ok {
					add(v)
				}
			}
		}
	}
	e.fis[fn] = fi
	return fi
}

// ipdomOf computes immediate post-dominators, ignoring paths that end in panic.
func (fi *FuncInfo) ipdomOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	if fi.ipdom == nil {
		n := len(fi.fn.Blocks)
		words := (n + 64) / 64
		full := make([]uint64, words)
		for i := 0; i <= n; i++ {
			if i/64 < words {
				full[i/64] |= 1 << uint(i%64)
			}
		}
		exit := n
		_ = exit
		// reach: blocks that can reach a return
		reach := make([]bool, n)
		changed := true
		for changed {
			changed = false
			for _, b := range fi.fn.Blocks {
				if reach[b.Index] {
					continue
				}
				r := false
				if len(b.Succs) == 0 {
					_, r = b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				}
				for _, s := range b.Succs {
					if reach[s.Index] {
						r = true
					}
				}
				if r {
					reach[b.Index] = true
					changed = true
				}
			}
		}
		pd := make([][]uint64, n)
		for i := range pd {
			pd[i] = append([]uint64(nil), full...)
		}
		changed = true
		for changed {
			changed = false
			for bi := n - 1; bi >= 0; bi-- {
				b := fi.fn.Blocks[bi]
				if !reach[bi] {
					continue
				}
				nw := append([]uint64(nil), full...)
				any := false
				for _, s := range b.Succs {
					if !reach[s.Index] {
						continue
					}
					any = true
					for k := range nw {
						nw[k] &= pd[s.Index][k]
					}
				}
				if !any {
					for k := range nw {
						nw[k] = 0
					}
				}
				nw[bi/64] |= 1 << uint(bi%64)
				for k := range nw {
					if nw[k] != pd[bi][k] {
						changed = true
					}
				}
				pd[bi] = nw
			}
		}
		fi.ipdom = map[*ssa.BasicBlock]*ssa.BasicBlock{}
		cnt := func(s []uint64) int {
			c := 0
			for i := 0; i < n; i++ {
				if s[i/64]>>uint(i%64)&1 == 1 {
					c++
				}
			}
			return c
		}
		sizes := make([]int, n)
		for i := range sizes {
			sizes[i] = cnt(pd[i])
		}
		for bi := 0; bi < n; bi++ {
			if !reach[bi] {
				continue
			}
			// the immediate post-dominator is the strict post-dominator with the largest pd set
			best := -1
			for j := 0; j < n; j++ {
				if j != bi && pd[bi][j/64]>>uint(j%64)&1 == 1 {
					if best < 0 || sizes[j] > sizes[best] {
						best = j
					}
				}
			}
			if best >= 0 {
				fi.ipdom[fi.fn.Blocks[bi]] = fi.fn.Blocks[best]
			}
		}
	}
	return fi.ipdom[b]
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
