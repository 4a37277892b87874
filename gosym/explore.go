package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Decision is one step of a path: a two-way branch, possibly on a concretised value.
type Decision struct {
	v       uint64
	taken   bool
	implied bool
	h       uint64
}

type WorkItem struct {
	dec   []Decision
	model Model
}

type Violation struct {
	ID      string // assertion id
	Msg     string
	Inputs  map[string]uint64
	Choices []uint64
	Sched   []int
	Harness string
	Where   string
}

type pathAbort struct{ why string }
type unsupported struct{ msg string }

type Stats struct {
	Paths, Complete, AssumeAborts, Unsupported, StepLimit, Timeouts int64
	Branches, Implied, Asserts, AssertsDischarged, AssertsConst     int64
	Instrs                                                          int64
	Queries, Unknown, Fallback, SolverErrors                        int64
	SolverTime, MaxQuery                                            time.Duration
}

type Sample struct {
	Inputs  map[string]uint64
	Choices []uint64
	Sched   []int
	Observe []string
}

// Explorer runs one harness entry over all paths.
type Explorer struct {
	prog      *ssa.Program
	entry     *ssa.Function
	args      []Value
	cfg       *Config
	harness   string
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []WorkItem
	active    int
	stop      atomic.Bool
	deadline  time.Time
	stats     Stats
	viol      []Violation
	stuck     []Violation
	unsup     map[string]int
	reach     map[string]int64
	asserts   map[string]*AssertStat
	funcs     map[string]bool
	samples   []Sample
	sampleN   int64
	remaining int
	limits    map[string]string
	tested    map[string]bool
}

type AssertStat struct {
	Checked, Const, Solver, Unknown int64
	SolverNs                        int64
}

type Config struct {
	Workers    int
	MaxSteps   int64
	MaxDepth   int
	Timeout    time.Duration
	QTimeout   time.Duration
	MaxSamples int
	Seed       int64
	Tier       int
	Verbose    bool
	RepoPrefix string
	NoMerge    bool
}

func NewExplorer(prog *ssa.Program, entry *ssa.Function, name string, cfg *Config) *Explorer {
	e := &Explorer{prog: prog, entry: entry, cfg: cfg, harness: name, unsup: map[string]int{}, reach: map[string]int64{},
		asserts: map[string]*AssertStat{}, funcs: map[string]bool{}, limits: map[string]string{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) Run() {
	e.deadline = time.Now().Add(e.cfg.Timeout)
	e.queue = []WorkItem{{nil, Model{}}}
	var wg sync.WaitGroup
	tm := time.AfterFunc(e.cfg.Timeout, func() { e.halt() })
	defer tm.Stop()
	for i := 0; i < e.cfg.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e.worker(i)
		}(i)
	}
	wg.Wait()
	e.remaining = len(e.queue)
}

func (e *Explorer) halt() {
	e.mu.Lock()
	e.stop.Store(true)
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (e *Explorer) push(it WorkItem) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.cond.Signal()
	e.mu.Unlock()
}

func (e *Explorer) pop() (WorkItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop.Load() {
			return WorkItem{}, false
		}
		if n := len(e.queue); n > 0 {
			it := e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return WorkItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) worker(id int) {
	var w *Worker
	flush := func() {
		if w == nil {
			return
		}
		e.mu.Lock()
		e.stats.Queries += int64(w.sol.Queries)
		e.stats.Unknown += int64(w.sol.Unknowns)
		e.stats.Fallback += int64(w.sol.Fallback)
		e.stats.SolverErrors += int64(w.sol.Errors)
		e.stats.SolverTime += w.sol.Time
		if w.sol.maxQ > e.stats.MaxQuery {
			e.stats.MaxQuery = w.sol.maxQ
		}
		if w.sol.lastErr != "" {
			e.limits["solver-error"] = w.sol.lastErr
		}
		for f := range w.funcs {
			e.funcs[f] = true
		}
		e.mu.Unlock()
		w.sol.Close()
		w = nil
	}
	defer flush()
	for {
		it, ok := e.pop()
		if !ok {
			return
		}
		if w != nil && w.tt.n > 3_000_000 {
			flush()
		}
		if w == nil {
			w = newWorker(e)
		}
		w.runPath(it)
		e.done()
	}
}

// ---- Worker: path control ----

type Worker struct {
	ex      *Explorer
	tt      *TermTable
	sol     *Solver
	rtypes  map[types.Type]*RType
	rcanon  *typeutil.Map
	layouts map[types.Type]*Layout
	cfuncs  map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Obj
	pkgInit map[*ssa.Package]int
	funcs   map[string]bool
	hasher  typeutil.Hasher
	initing int
	methVal map[*ssa.Function]*Closure
	gobReg  map[string]bool
	rawInit *ssa.Function
	pure    map[*ssa.Function]bool
	noFork  int

	// per path
	epoch    int
	undo     []undoRec
	prefix   []Decision
	dec      []Decision
	pc       []*Term
	model    Model
	ev       *evaluator
	steps    int64
	depth    int
	atomMemo map[*Term][]*Term
	durFn    *ssa.Function
	inputs   []*Term
	inNames  map[string]int
	choices  []uint64
	observes []obsRec
	out      *[]*Term // stdout capture
	stdout   *Obj
	stderr   *Obj
	gobBlobs []gobBlob
	frameFn  []*ssa.Function
	permMaps bool
	join     bool
	panicMsg string
	reachL   map[string]int64
	noReach  bool
	side     map[string]any
	facts    map[*Term]bool    // conjuncts of the path condition
	doms     map[*Term]bits256 // values of one-byte inputs that the path allows
	tied     map[*Term]bool    // inputs in a conjunct over more than one byte
	tiedT    map[*Term]bool
	tables   map[*Term]bits256
	recover  *frame
	impl     map[implKey]bool
}

type obsRec struct {
	pieces []any // string | *Term with format
}

func newWorker(e *Explorer) *Worker {
	w := &Worker{ex: e, tt: NewTermTable(), rtypes: map[types.Type]*RType{}, rcanon: new(typeutil.Map), layouts: map[types.Type]*Layout{},
		cfuncs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*Obj{}, pkgInit: map[*ssa.Package]int{}, funcs: map[string]bool{},
		methVal: map[*ssa.Function]*Closure{}, gobReg: map[string]bool{}, pure: map[*ssa.Function]bool{}}
	w.sol = NewSolver(w.tt, e.cfg.QTimeout)
	w.stdout = &Obj{slots: []Value{Ptr{}}, what: "os.Stdout"}
	w.stderr = &Obj{slots: []Value{Ptr{}}, what: "os.Stderr"}
	return w
}

func (w *Worker) evalModel(t *Term) uint64 { return w.ev.eval(t) }

func (w *Worker) setModel(name string, v uint64) {
	w.model[name] = v
}

func (w *Worker) newModel(m Model) {
	w.model = m
	w.ev = newEval(m)
}

func (w *Worker) addPC(c *Term) {
	if c == w.tt.T {
		return
	}
	if c.op == OAnd {
		w.addPC(c.a)
		w.addPC(c.b)
		return
	}
	w.pc = append(w.pc, c)
	w.noteFact(c)
}

// addDef adds a constraint that merely defines fresh variables (model already extended).
func (w *Worker) addDef(c *Term) {
	if w.noFork > 0 {
		panic(mergeBail{})
	}
	w.ev = newEval(w.model)
	w.addPC(c)
}

func (w *Worker) inPrefix() bool { return len(w.dec) < len(w.prefix) }

func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.k != 0
	}
	if w.noFork > 0 {
		panic(mergeBail{})
	}
	if w.initing > 0 {
		panic(unsupported{"symbolic branch during package initialisation"})
	}
	// canonical polarity so that x and ¬x hash alike
	if w.inPrefix() {
		d := w.prefix[len(w.dec)]
		if d.h != c.h {
			panic(unsupported{"engine: replay divergence"})
		}
		w.dec = append(w.dec, d)
		if !d.implied {
			if d.taken {
				w.addPC(c)
			} else {
				w.addPC(w.tt.Not(c))
			}
		}
		return d.taken
	}
	v := w.ev.eval(c) != 0
	atomic.AddInt64(&w.ex.stats.Branches, 1)
	alt := c
	if v {
		alt = w.tt.Not(c)
	}
	if w.ex.stop.Load() {
		panic(pathAbort{"deadline"})
	}
	if w.ex.cfg.Verbose {
		t0 := time.Now()
		defer func() {
			if dt := time.Since(t0); dt > time.Second {
				fmt.Printf("SLOW BRANCH %v at %s: %.600s\n", dt, w.where(), alt)
			}
		}()
	}
	r, m := w.feasible(alt)
	d := Decision{taken: v, h: c.h}
	switch r {
	case Unsat:
		d.implied = true
		atomic.AddInt64(&w.ex.stats.Implied, 1)
	case Unknown:
		w.ex.limit("solver-unknown-branch", "a branch side was not decided within the solver limits; that side is not explored")
	case Sat:
		nd := make([]Decision, len(w.dec)+1)
		copy(nd, w.dec)
		nd[len(w.dec)] = Decision{taken: !v, h: c.h}
		w.ex.push(WorkItem{nd, m})
	}
	w.dec = append(w.dec, d)
	if !d.implied {
		if v {
			w.addPC(c)
		} else {
			w.addPC(w.tt.Not(c))
		}
	}
	return v
}

func (e *Explorer) limit(k, v string) {
	e.mu.Lock()
	e.limits[k] = v
	e.mu.Unlock()
}

// concretize forks over the values t can take.
func (w *Worker) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if w.noFork > 0 {
		panic(mergeBail{})
	}
	for n := 0; ; n++ {
		if n > 600 {
			panic(unsupported{"concretisation fan-out"})
		}
		var v uint64
		if w.inPrefix() {
			v = w.prefix[len(w.dec)].v
		} else {
			v = w.ev.eval(t)
		}
		c := w.tt.Eq(t, w.tt.C(t.w, v))
		k := len(w.dec)
		if c.isConst() {
			if c.k != 0 {
				return v
			}
			panic(unsupported{"engine: concretise"})
		}
		// record v in the decision and in the queued alternative
		taken := w.branchV(c, v)
		_ = k
		if taken {
			return v
		}
	}
}

func (w *Worker) branchV(c *Term, v uint64) bool {
	if w.inPrefix() {
		return w.branch(c)
	}
	// as branch, but every recorded decision carries v
	if w.ex.stop.Load() {
		panic(pathAbort{"deadline"})
	}
	atomic.AddInt64(&w.ex.stats.Branches, 1)
	r, m := w.feasible(w.tt.Not(c))
	d := Decision{taken: true, h: c.h, v: v}
	switch r {
	case Unsat:
		d.implied = true
		atomic.AddInt64(&w.ex.stats.Implied, 1)
	case Unknown:
		w.ex.limit("solver-unknown-branch", "a branch side was not decided within the solver limits; that side is not explored")
	case Sat:
		nd := make([]Decision, len(w.dec)+1)
		copy(nd, w.dec)
		nd[len(w.dec)] = Decision{taken: false, h: c.h, v: v}
		w.ex.push(WorkItem{nd, m})
	}
	w.dec = append(w.dec, d)
	if !d.implied {
		w.addPC(c)
	}
	return true
}

// choose is an unconstrained n-way choice.
func (w *Worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	const hh = 0xc401ce
	var r int
	if w.inPrefix() {
		d := w.prefix[len(w.dec)]
		if d.h != hh {
			panic(unsupported{"engine: replay divergence (choice)"})
		}
		w.dec = append(w.dec, d)
		r = int(d.v)
	} else {
		for i := n - 1; i >= 1; i-- {
			nd := make([]Decision, len(w.dec)+1)
			copy(nd, w.dec)
			nd[len(w.dec)] = Decision{v: uint64(i), h: hh, taken: true}
			m := Model{}
			for k, v := range w.model {
				m[k] = v
			}
			w.ex.push(WorkItem{nd, m})
		}
		atomic.AddInt64(&w.ex.stats.Branches, 1)
		w.dec = append(w.dec, Decision{v: 0, h: hh, taken: true})
	}
	return r
}

func (w *Worker) assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			panic(pathAbort{"assume"})
		}
		return
	}
	if w.inPrefix() {
		w.addPC(c)
		return
	}
	if w.ev.eval(c) == 0 {
		r, m := w.feasible(c)
		switch r {
		case Unsat:
			panic(pathAbort{"assume"})
		case Unknown:
			w.ex.limit("solver-unknown-assume", "feasibility of an assumption was not decided; path dropped")
			panic(pathAbort{"unknown"})
		}
		w.newModel(m)
	}
	w.addPC(c)
}

func (w *Worker) assertStat(id string) *AssertStat {
	w.ex.mu.Lock()
	defer w.ex.mu.Unlock()
	s := w.ex.asserts[id]
	if s == nil {
		s = &AssertStat{}
		w.ex.asserts[id] = s
	}
	return s
}

// assert checks c for every value on this path.
func (w *Worker) assert(c *Term, id string) {
	if w.inPrefix() {
		// already checked by the path that forked here
		if !c.isConst() {
			return
		}
		if c.k != 0 {
			return
		}
	}
	st := w.assertStat(id)
	atomic.AddInt64(&st.Checked, 1)
	if c.isConst() {
		if c.k == 0 {
			w.violation(id, "assertion is false on this path", w.model)
		}
		atomic.AddInt64(&st.Const, 1)
		return
	}
	if w.ev.eval(c) == 0 {
		w.violation(id, "assertion fails", w.model)
	}
	if w.ex.cfg.Verbose {
		fmt.Printf("ASSERT %s: %.4000s\n", id, c)
	}
	t0 := time.Now()
	r, m := w.sol.Check(w.pc, w.tt.Not(c))
	atomic.AddInt64(&st.SolverNs, int64(time.Since(t0)))
	switch r {
	case Unsat:
		atomic.AddInt64(&st.Solver, 1)
	case Sat:
		w.violation(id, "assertion fails", m)
	case Unknown:
		atomic.AddInt64(&st.Unknown, 1)
		w.ex.limit("solver-unknown-assert:"+id, "the solver did not decide this assertion on some path within its limits")
	}
}

func (w *Worker) violation(id, msg string, m Model) {
	v := Violation{ID: id, Msg: msg, Harness: w.ex.harness, Inputs: w.inputValues(m), Choices: append([]uint64{}, w.choices...), Sched: w.sched()}
	v.Where = w.where()
	w.ex.mu.Lock()
	seen := 0
	for _, o := range w.ex.viol {
		if o.ID == id {
			seen++
		}
	}
	if seen < 4 {
		w.ex.viol = append(w.ex.viol, v)
	}
	n := len(w.ex.viol)
	w.ex.mu.Unlock()
	if n >= 12 {
		w.ex.halt()
	}
	panic(pathAbort{"violation"})
}

func (w *Worker) where() string {
	s := ""
	for i := len(w.frameFn) - 1; i >= 0 && i > len(w.frameFn)-6; i-- {
		s += w.frameFn[i].String() + " < "
	}
	return s
}

func (w *Worker) inputValues(m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, t := range w.inputs {
		r[t.name[:strings.LastIndexByte(t.name, '@')]] = m[t.name] & mask(t.w)
	}
	return r
}

func (w *Worker) runPath(it WorkItem) {
	w.epoch++
	w.prefix = it.dec
	w.dec = w.dec[:0]
	w.pc = w.pc[:0]
	w.facts, w.doms, w.tied, w.tiedT = map[*Term]bool{}, map[*Term]bits256{}, map[*Term]bool{}, map[*Term]bool{}
	m := Model{}
	for k, v := range it.model {
		m[k] = v
	}
	w.newModel(m)
	w.steps = 0
	w.depth = 0
	w.atomMemo = map[*Term][]*Term{}
	w.inputs = nil
	w.inNames = map[string]int{}
	w.choices = nil
	w.observes = nil
	w.out = nil
	w.gobBlobs = nil
	w.frameFn = w.frameFn[:0]
	w.permMaps = false
	w.join = false
	w.initing = 0
	w.noFork = 0
	w.side = map[string]any{}
	w.reachL = map[string]int64{}
	e := w.ex
	complete := false
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
				complete = true
			case testFatal:
			case pathAbort:
				switch x.why {
				case "assume":
					atomic.AddInt64(&e.stats.AssumeAborts, 1)
				case "steps":
					atomic.AddInt64(&e.stats.StepLimit, 1)
					e.limit("step-limit", "a path exceeded the step limit and was cut")
					e.mu.Lock()
					if len(e.stuck) < 2 {
						e.stuck = append(e.stuck, Violation{ID: "termination", Msg: "path exceeds the step limit", Harness: e.harness, Inputs: w.inputValues(w.model), Choices: append([]uint64{}, w.choices...), Sched: w.sched(), Where: w.where()})
					}
					e.mu.Unlock()
				case "deadline":
					atomic.AddInt64(&e.stats.Timeouts, 1)
				}
			case unsupported:
				atomic.AddInt64(&e.stats.Unsupported, 1)
				e.mu.Lock()
				e.unsup[x.msg+" @ "+w.where()]++
				e.mu.Unlock()
			case goFatal:
				func() {
					defer func() { recover() }()
					st := w.assertStat("no-panic")
					atomic.AddInt64(&st.Checked, 1)
					w.violation("no-panic", "uncaught panic: "+w.panicText(x.p), w.model)
				}()
			case *goPanic:
				func() {
					defer func() { recover() }()
					st := w.assertStat("no-panic")
					atomic.AddInt64(&st.Checked, 1)
					w.violation("no-panic", "uncaught panic: "+w.panicText(x), w.model)
				}()
			default:
				if e.cfg.Verbose {
					panic(r)
				}
				atomic.AddInt64(&e.stats.Unsupported, 1)
				e.mu.Lock()
				e.unsup[fmt.Sprintf("engine panic: %v @ %s", r, w.where())]++
				e.mu.Unlock()
			}
		}()
		w.ensureRepoInit(e.entry.Pkg)
		w.callFn(e.entry, e.args, nil)
		for _, c := range w.pc {
			if w.ev.eval(c) == 0 {
				panic(unsupported{"engine: model does not satisfy the path condition"})
			}
		}
	}()
	w.endConc()
	atomic.AddInt64(&e.stats.Paths, 1)
	atomic.AddInt64(&e.stats.Instrs, w.steps)
	if complete {
		atomic.AddInt64(&e.stats.Complete, 1)
		e.mu.Lock()
		for k, v := range w.reachL {
			e.reach[k] += v
		}
		e.sampleN++
		n := e.sampleN
		take := len(e.samples) < e.cfg.MaxSamples
		slot := -1
		if !take && e.cfg.MaxSamples > 0 {
			// reservoir
			h := hmix(uint64(e.cfg.Seed)+17, uint64(n))
			if k := h % uint64(n); k < uint64(e.cfg.MaxSamples) {
				slot = int(k)
			}
		}
		e.mu.Unlock()
		if take || slot >= 0 {
			s := Sample{Inputs: w.inputValues(w.model), Choices: append([]uint64{}, w.choices...), Sched: w.sched()}
			for _, o := range w.observes {
				s.Observe = append(s.Observe, w.renderObs(o))
			}
			e.mu.Lock()
			if slot >= 0 {
				e.samples[slot] = s
			} else {
				e.samples = append(e.samples, s)
			}
			e.mu.Unlock()
		}
	}
	w.rollback()
	if !complete && e.cfg.Verbose && false {
		fmt.Println("path aborted")
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
