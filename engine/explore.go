package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// entry is one decision of a path.
type entry struct {
	taken   bool
	implied bool // the other side was unsatisfiable
	val     uint64
}

// item is a path prefix that is still to be explored, with a model that
// satisfies it.
type item struct {
	prefix []entry
	model  []uint64
}

type input struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Val  uint64 `json:"v"`
}

// Path is the state of the path being executed.
type Path struct {
	prefix  []entry
	pos     int
	trace   []entry
	model   []uint64
	vars    []input
	varW    []uint8
	uf      []int32
	groups  map[int32][]*Term
	facts   map[*Term]bool
	npc     int
	observe []string
	obsTerm []obs
	covers  map[string]bool
	ufs     map[string][]ufEntry
	labels  []string
	notes   []string
}

type ufEntry struct {
	idx *Term
	val *Term
}

type obs struct {
	label string
	vals  []Value
	w     []uint8
	raw   string
}

func newPath(it item) *Path {
	return &Path{prefix: it.prefix, model: append([]uint64(nil), it.model...), groups: map[int32][]*Term{}, facts: map[*Term]bool{}, covers: map[string]bool{}, ufs: map[string][]ufEntry{}}
}

func (p *Path) known(ts *Terms, t *Term) (bool, bool) {
	if t.isConst() {
		return t.val != 0, true
	}
	if p == nil {
		return false, false
	}
	if v, ok := p.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case OpNot:
		v, ok := p.known(ts, t.a)
		return !v, ok
	case OpAnd:
		a, oka := p.known(ts, t.a)
		if oka && !a {
			return false, true
		}
		b, okb := p.known(ts, t.b)
		if okb && !b {
			return false, true
		}
		if oka && okb {
			return true, true
		}
	case OpOr:
		a, oka := p.known(ts, t.a)
		if oka && a {
			return true, true
		}
		b, okb := p.known(ts, t.b)
		if okb && b {
			return true, true
		}
		if oka && okb {
			return false, true
		}
	}
	return false, false
}

func (p *Path) addFact(t *Term, v bool) {
	p.facts[t] = v
	switch t.op {
	case OpNot:
		p.addFact(t.a, !v)
	case OpAnd:
		if v {
			p.addFact(t.a, true)
			p.addFact(t.b, true)
		}
	case OpOr:
		if !v {
			p.addFact(t.a, false)
			p.addFact(t.b, false)
		}
	}
}

func (p *Path) find(i int32) int32 {
	for int(i) >= len(p.uf) {
		p.uf = append(p.uf, int32(len(p.uf)))
	}
	for p.uf[i] != i {
		p.uf[i] = p.uf[p.uf[i]]
		i = p.uf[i]
	}
	return i
}

// add conjoins a constraint to the path condition.
func (p *Path) add(t *Term) {
	p.addFact(t, true)
	vs := t.Vars()
	if len(vs) == 0 {
		return
	}
	p.npc++
	root := p.find(vs[0])
	for _, v := range vs[1:] {
		r := p.find(v)
		if r != root {
			if len(p.groups[r]) > len(p.groups[root]) {
				r, root = root, r
			}
			p.uf[r] = root
			p.groups[root] = append(p.groups[root], p.groups[r]...)
			delete(p.groups, r)
		}
	}
	p.groups[root] = append(p.groups[root], t)
}

// slice returns the constraints that share variables with t, transitively.
func (p *Path) slice(t *Term) []*Term {
	var out []*Term
	seen := map[int32]bool{}
	for _, v := range t.Vars() {
		r := p.find(v)
		if !seen[r] {
			seen[r] = true
			out = append(out, p.groups[r]...)
		}
	}
	return out
}

// Candidate is a possible violation, to be replayed natively.
type Candidate struct {
	Kind   string
	Label  string
	Pos    string
	Inputs []input
	Gates  []string
	Labels []string
}

// Witness is an explored path kept for native comparison.
type Witness struct {
	Inputs  []input
	Observe []string
	Gates   []string
	Covers  []string
}

// Explorer explores all paths of one harness.
type Explorer struct {
	prog     *Program
	entry    *Func
	stats    *SolverStats
	noMerge  bool
	tier     string
	maxSteps int64
	deadline time.Time
	workers  int
	softMs   int
	hardMs   int
	dump     string

	mu        sync.Mutex
	cond      *sync.Cond
	stack     []item
	active    int
	stop      bool
	timedOut  bool
	leftover  int
	paths     int64
	infeas    int64
	steps     atomic.Int64
	asserts   atomic.Int64
	assertsQ  atomic.Int64
	decisions atomic.Int64
	unknowns  int64
	forks     map[string]int
	costs     map[string]siteCost // time in queries by place, for -v
	forksMu   sync.Mutex
	cut       map[string]int
	cands     []*Candidate
	candSeen  map[string]int
	onCand    func(*Candidate)
	covers    map[string]int
	witness   []*Witness
	maxWit    int
	funcs     map[string]int
	funcsAll  map[*Func]bool
	varsMax   int
	maxPath   int64
	maxPaths  int64
	races     bool // watch for data races
	kinds     map[string]int
	params    map[string]int
	onQuery   func(text string, res SatResult, assertion bool)
	dumpN     int64
}

func newExplorer(p *Program, fn *Func, workers int) *Explorer {
	ex := &Explorer{prog: p, entry: fn, stats: &SolverStats{}, workers: workers, cut: map[string]int{}, candSeen: map[string]int{}, covers: map[string]int{}, funcs: map[string]int{}, funcsAll: map[*Func]bool{}, maxSteps: 40_000_000, softMs: 4000, hardMs: 60000, maxWit: 40, kinds: map[string]int{}, params: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) push(it item) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop() (item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return item{}, false
		}
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) || ex.maxPaths > 0 && ex.paths >= ex.maxPaths {
			ex.timedOut = true
			ex.stop = true
			ex.leftover = len(ex.stack)
			ex.cond.Broadcast()
			return item{}, false
		}
		if n := len(ex.stack); n > 0 {
			it := ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.stack) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Explorer) halt() {
	ex.mu.Lock()
	ex.stop = true
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

// wk is the worker-local part.
type worker struct {
	vm     *VM
	solver *Solver
}

func (ex *Explorer) run() {
	ex.push(item{})
	var wg sync.WaitGroup
	// wake sleepers when the deadline passes
	stopTick := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(200 * time.Millisecond):
				ex.cond.Broadcast()
			}
		}
	}()
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.work(i)
		}(i)
	}
	wg.Wait()
	close(stopTick)
}

func (ex *Explorer) work(id int) {
	var w *worker
	defer func() {
		if w != nil {
			w.solver.stop()
			ex.mu.Lock()
			for f := range w.vm.funcsUsed {
				ex.funcsAll[f] = true
			}
			ex.mu.Unlock()
		}
	}()
	for {
		it, ok := ex.pop()
		if !ok {
			return
		}
		if w == nil {
			w = ex.newWorker()
		}
		if w.vm.ts.next > 3_000_000 {
			w.solver.stop()
			w.vm.ts = NewTerms()
			w.solver = ex.newSolver(w.vm.ts)
		}
		ex.runPath(w, it)
		ex.done()
	}
}

func (ex *Explorer) newSolver(ts *Terms) *Solver {
	s := NewSolver(ts, ex.stats, ex.softMs, ex.hardMs)
	s.onQuery = ex.onQuery
	if ex.dump != "" {
		s.onQuery = func(text string, res SatResult, assertion bool) {
			n := atomic.AddInt64(&ex.dumpN, 1)
			os.WriteFile(fmt.Sprintf("%s/q%06d_%s.smt2", ex.dump, n, res), []byte("(set-logic QF_BV)\n"+text+"(check-sat)\n"), 0o644)
		}
	}
	return s
}

func (ex *Explorer) newWorker() *worker {
	vm := newVM(ex.prog)
	vm.ex = ex
	w := &worker{vm: vm, solver: ex.newSolver(vm.ts)}
	workers.Store(vm, w)
	ex.initRepo(vm)
	return w
}

var workers sync.Map // *VM -> *worker

func (vm *VM) w() *worker {
	v, _ := workers.Load(vm)
	return v.(*worker)
}

// initRepo initialises the repository's own packages eagerly, so that
// registrations made by init functions are in place.
func (ex *Explorer) initRepo(vm *VM) {
	for _, pk := range ex.prog.repoPkgs(ex.entry.ssa.Pkg) {
		func() {
			defer func() {
				if r := recover(); r != nil {
					ex.mu.Lock()
					ex.cut[fmt.Sprintf("initialisation of %s: %v", pk.Pkg.Path(), r)]++
					ex.mu.Unlock()
				}
			}()
			vm.initPkg(pk)
		}()
	}
}

func (ex *Explorer) runPath(w *worker, it item) {
	vm := w.vm
	p := newPath(it)
	vm.path = p
	vm.ts.SetModel(p.model)
	vm.threads, vm.runq, vm.parked, vm.cur, vm.nextTID = nil, nil, nil, nil, 0
	vm.steps, vm.maxSteps = 0, ex.maxSteps
	vm.journal, vm.journalOn = vm.journal[:0], true
	vm.sync = map[*Value]*syncState{}
	vm.side = map[string]any{}
	vm.now = 0
	vm.preempt = 0
	vm.race = nil
	if ex.races {
		vm.race = newRace()
	}
	vm.gates = nil
	vm.spec = 0
	end := pathEnd{kind: "done"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case pathEnd:
					end = e
				case specAbort:
					end = pathEnd{kind: "unsupported", msg: "stray speculation abort: " + e.why, pos: vm.where()}
				case goPanicSignal:
					end = pathEnd{kind: "panic", msg: e.msg, pos: vm.where()}
				default:
					end = pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine: %v", r), pos: vm.where()}
					if os.Getenv("VERIF_DEBUG") != "" {
						debug.PrintStack()
					}
				}
			}
		}()
		main := &Thread{id: 0}
		vm.nextTID = 1
		vm.cur = main
		if done, _ := vm.invoke(main, ex.entry, nil, nil, noReg, nil); done {
			return
		}
		vm.runThreads(main)
	}()
	// undo
	vm.spec = 0
	for i := len(vm.journal) - 1; i >= 0; i-- {
		u := &vm.journal[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	if cap(vm.journal) > 1<<22 {
		vm.journal = nil
	}
	vm.journalOn = false
	ex.steps.Add(vm.steps)

	if end.kind == "panic" || end.kind == "deadlock" || end.kind == "budget" {
		if p.pos >= len(p.prefix) {
			ex.candidate(vm, end.kind, end.kind+": "+end.msg, end.pos, p.model)
		} else {
			end.msg = fmt.Sprintf("%s with %d of %d decisions replayed: %s", end.kind, p.pos, len(p.prefix), end.msg)
			end.kind = "unsupported"
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.kinds[end.kind]++
	switch end.kind {
	case "assume":
		ex.infeas++
	default:
		ex.paths++
	}
	if vm.steps > ex.maxPath {
		ex.maxPath = vm.steps
	}
	if len(p.vars) > ex.varsMax {
		ex.varsMax = len(p.vars)
	}
	switch end.kind {
	case "unsupported", "budget":
		ex.cut[end.kind+": "+end.msg+" @ "+end.pos]++
	case "done", "exit":
		for c := range p.covers {
			ex.covers[c]++
		}
		if len(ex.witness) < ex.maxWit || len(p.obsTerm) > 0 && ex.paths%17 == 0 && len(ex.witness) < 3*ex.maxWit {
			ex.witness = append(ex.witness, ex.makeWitness(vm, p))
		}
	}
}

func (ex *Explorer) inputs(p *Path, model []uint64) []input {
	in := append([]input(nil), p.vars...)
	for i := range in {
		if i < len(model) {
			in[i].Val = model[i]
		}
	}
	return in
}

func (ex *Explorer) makeWitness(vm *VM, p *Path) *Witness {
	w := &Witness{Inputs: ex.inputs(p, p.model), Gates: append([]string(nil), vm.gates...)}
	vm.ts.SetModel(p.model)
	for _, o := range p.obsTerm {
		w.Observe = append(w.Observe, vm.renderObs(o))
	}
	for c := range p.covers {
		w.Covers = append(w.Covers, c)
	}
	sort.Strings(w.Covers)
	return w
}

func (ex *Explorer) candidate(vm *VM, kind, label, pos string, model []uint64) {
	p := vm.path
	c := &Candidate{Kind: kind, Label: label, Pos: pos, Inputs: ex.inputs(p, model), Gates: append([]string(nil), vm.gates...)}
	key := kind + "|" + label
	if kind == "panic" || kind == "deadlock" || kind == "budget" {
		key += "|" + pos
	}
	ex.mu.Lock()
	ex.candSeen[key]++
	n := ex.candSeen[key]
	if n <= 4 {
		ex.cands = append(ex.cands, c)
	}
	ex.mu.Unlock()
	if n <= 4 && ex.onCand != nil {
		ex.onCand(c)
	}
}

// newVar creates the next input variable of the path.
func (ex *Explorer) newVar(vm *VM, name string, w uint8) *Term {
	p := vm.path
	if p == nil {
		vm.unsupported("symbolic input during initialisation")
	}
	idx := len(p.vars)
	p.vars = append(p.vars, input{Name: name, W: w})
	for len(p.model) <= idx {
		p.model = append(p.model, 0)
		vm.ts.SetModel(p.model)
	}
	p.model[idx] &= mask(max8(w, 1))
	vm.ts.SetModel(p.model)
	return vm.ts.Var(idx, w)
}

func max8(a, b uint8) uint8 {
	if a > b {
		return a
	}
	return b
}

// check decides PC ∧ t, restricted to the constraints t depends on.
func (ex *Explorer) check(vm *VM, t *Term, assertion bool) (SatResult, []uint64) {
	p := vm.path
	if t.isConst() && t.val == 0 {
		return Unsat, nil
	}
	q := append(p.slice(t), t)
	vm.ts.SetModel(p.model)
	start := time.Now()
	r, m := vm.w().solver.Check(q, assertion)
	if ex.forks != nil {
		ex.forksMu.Lock()
		c := ex.costs[vm.where()]
		c.n++
		c.d += time.Since(start)
		ex.costs[vm.where()] = c
		ex.forksMu.Unlock()
	}
	if r == Unknown {
		ex.mu.Lock()
		ex.unknowns++
		ex.mu.Unlock()
		return r, nil
	}
	if r == Unsat {
		return r, nil
	}
	model := append([]uint64(nil), p.model...)
	for i, v := range m {
		for int(i) >= len(model) {
			model = append(model, 0)
		}
		model[i] = v
	}
	return Sat, model
}

type siteCost struct {
	n int
	d time.Duration
}

// fork counts where paths split, for -v.
func (ex *Explorer) fork(vm *VM, kind string) {
	if ex.forks == nil {
		return
	}
	ex.forksMu.Lock()
	ex.forks[kind+" "+vm.where()]++
	ex.forksMu.Unlock()
}

func (ex *Explorer) decide(vm *VM, t *Term) bool {
	p := vm.path
	if p == nil {
		vm.unsupported("symbolic decision during initialisation")
	}
	if k, ok := p.known(vm.ts, t); ok {
		return k
	}
	lit := func(b bool) *Term {
		if b {
			return t
		}
		return vm.ts.Not(t)
	}
	if p.pos < len(p.prefix) {
		e := p.prefix[p.pos]
		p.pos++
		p.trace = append(p.trace, e)
		if e.implied {
			p.addFact(t, e.taken)
		} else {
			p.add(lit(e.taken))
		}
		return e.taken
	}
	ex.decisions.Add(1)
	p.pos++
	taken := vm.ts.Eval(t) == 1
	r, model := ex.check(vm, lit(!taken), false)
	e := entry{taken: taken}
	switch r {
	case Sat:
		ex.fork(vm, "if")
		alt := make([]entry, len(p.trace)+1)
		copy(alt, p.trace)
		alt[len(p.trace)] = entry{taken: !taken}
		ex.push(item{alt, model})
	case Unsat:
		e.implied = true
	}
	p.trace = append(p.trace, e)
	p.prefix = p.trace
	if e.implied {
		p.addFact(t, taken)
	} else {
		p.add(lit(taken))
	}
	return taken
}

func (ex *Explorer) concretise(vm *VM, t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	p := vm.path
	if p == nil {
		vm.unsupported("symbolic value during initialisation")
	}
	eqc := func(v uint64) *Term {
		if t.w == 0 {
			if v != 0 {
				return t
			}
			return vm.ts.Not(t)
		}
		return vm.ts.Eq(t, vm.ts.Const(v, t.w))
	}
	// a value already fixed on this path takes no decision
	if v := vm.ts.Eval(t); true {
		c := eqc(v)
		if c.isConst() {
			return v
		}
		if k, ok := p.facts[c]; ok && k {
			return v
		}
	}
	for {
		if p.pos < len(p.prefix) {
			e := p.prefix[p.pos]
			p.pos++
			p.trace = append(p.trace, e)
			c := eqc(e.val)
			if e.taken {
				if e.implied {
					p.addFact(c, true)
				} else {
					p.add(c)
				}
				return e.val
			}
			p.add(vm.ts.Not(c))
			continue
		}
		ex.decisions.Add(1)
		p.pos++
		v := vm.ts.Eval(t)
		c := eqc(v)
		if c.isConst() { // t simplified to a constant
			p.pos--
			return v
		}
		if k, ok := p.facts[c]; ok && k {
			p.pos--
			return v
		}
		e := entry{taken: true, val: v}
		r, model := ex.check(vm, vm.ts.Not(c), false)
		switch r {
		case Sat:
			ex.fork(vm, "value")
			alt := make([]entry, len(p.trace)+1)
			copy(alt, p.trace)
			alt[len(p.trace)] = entry{taken: false, val: v}
			ex.push(item{alt, model})
		case Unsat:
			e.implied = true
		}
		p.trace = append(p.trace, e)
		p.prefix = p.trace
		if e.implied {
			p.addFact(c, true)
		} else {
			p.add(c)
		}
		return v
	}
}

// choose picks 0..n-1 nondeterministically; the choice is an input variable.
func (ex *Explorer) choose(vm *VM, n int) int {
	if n <= 1 {
		return 0
	}
	if vm.path == nil {
		return 0
	}
	t := ex.newVar(vm, "sched", 8)
	ex.assume(vm, vm.ts.Ult(t, vm.ts.Const(uint64(n), 8)))
	return int(ex.concretise(vm, t))
}

func (ex *Explorer) assume(vm *VM, t *Term) {
	p := vm.path
	if k, ok := p.known(vm.ts, t); ok {
		if !k {
			panic(pathEnd{kind: "assume"})
		}
		return
	}
	if vm.ts.Eval(t) != 1 {
		r, model := ex.check(vm, t, false)
		if r != Sat {
			if r == Unknown {
				panic(pathEnd{kind: "unsupported", msg: "assumption undecided", pos: vm.where()})
			}
			panic(pathEnd{kind: "assume"})
		}
		p.model = model
		vm.ts.SetModel(p.model)
	}
	p.add(t)
}

func (ex *Explorer) assert(vm *VM, c Value, label string) {
	p := vm.path
	ex.asserts.Add(1)
	t, sym := c.P.(*Term)
	if !sym && c.I != 0 {
		return
	}
	if p == nil {
		panic(pathEnd{kind: "violation", msg: label})
	}
	fresh := p.pos >= len(p.prefix)
	if !sym {
		if fresh {
			ex.candidate(vm, "assert", label, vm.where(), p.model)
		}
		panic(pathEnd{kind: "violation", msg: label})
	}
	if k, ok := p.known(vm.ts, t); ok && k {
		return
	}
	if !fresh {
		p.add(t)
		return
	}
	ex.assertsQ.Add(1)
	r, model := ex.check(vm, vm.ts.Not(t), true)
	switch r {
	case Unsat:
		p.addFact(t, true)
		return
	case Unknown:
		ex.mu.Lock()
		ex.cut["undecided assertion: "+label]++
		ex.mu.Unlock()
	case Sat:
		ex.candidate(vm, "assert", label, vm.where(), model)
	}
	// continue where it holds
	ex.assume(vm, t)
}
