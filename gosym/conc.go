package main

// Goroutines. Each interpreted goroutine runs on a host goroutine of its own; exactly one of
// them holds the baton. The baton changes hands when the holder blocks, sleeps or reaches a
// step of the environment (sym.Yield); which goroutine continues is a case split, so every
// order of these events within the bound on voluntary switches is explored.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const maxSwitches = 3 // voluntary switches per path

type gor struct {
	wake    chan struct{}
	gone    chan struct{}
	done    bool
	asleep  bool
	ready   func() bool // nil: can run
	depth   int
	frameFn []*ssa.Function
	recover *frame
}

type pathKilled struct{}

// goFatal is a panic no goroutine recovers from.
type goFatal struct{ p *goPanic }

type conc struct {
	gs       []*gor
	cur      *gor
	foreign  any // what another goroutine's path ended with
	abort    bool
	switches int
}

func (w *Worker) conc() *conc {
	c, _ := w.side["conc"].(*conc)
	if c == nil {
		g := &gor{wake: make(chan struct{})}
		c = &conc{gs: []*gor{g}, cur: g}
		w.side["conc"] = c
	}
	return c
}

// running tells whether there is more than one goroutine.
func (w *Worker) running() *conc {
	c, _ := w.side["conc"].(*conc)
	return c
}

func (w *Worker) goStmt(call func() Value) {
	if w.initing > 0 {
		panic(unsupported{"goroutine started by an initialiser"})
	}
	c := w.conc()
	if len(c.gs) > 8 {
		panic(unsupported{"more than 8 goroutines"})
	}
	g := &gor{wake: make(chan struct{}), gone: make(chan struct{}), depth: 1}
	c.gs = append(c.gs, g)
	go func() {
		defer close(g.gone)
		<-g.wake
		if c.abort {
			return
		}
		func() {
			defer func() {
				r := recover()
				if c.abort {
					return
				}
				if p, ok := r.(*goPanic); ok {
					if p.goexit {
						r = nil
					} else {
						r = goFatal{p}
					}
				}
				if r != nil && c.foreign == nil {
					c.foreign = r
				}
			}()
			call()
		}()
		if c.abort {
			return
		}
		g.done = true
		if c.foreign != nil {
			w.handTo(c.gs[0])
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if p, ok := r.(*goPanic); ok {
						r = goFatal{p}
					}
					c.foreign = r
					w.handTo(c.gs[0])
				}
			}()
			w.handTo(w.pick())
		}()
	}()
}

// handTo gives the baton away without taking it back.
func (w *Worker) handTo(g *gor) {
	c := w.conc()
	c.cur = g
	w.depth, w.frameFn, w.recover = g.depth, g.frameFn, g.recover
	g.asleep, g.ready = false, nil
	g.wake <- struct{}{}
}

// switchTo gives the baton to g and waits for it.
func (w *Worker) switchTo(g *gor) {
	c := w.conc()
	me := c.cur
	if g == me {
		me.asleep, me.ready = false, nil
		return
	}
	me.depth, me.frameFn, me.recover = w.depth, append([]*ssa.Function{}, w.frameFn...), w.recover
	w.handTo(g)
	<-me.wake
	if c.abort {
		panic(pathKilled{})
	}
	if me == c.gs[0] && c.foreign != nil {
		panic(c.foreign)
	}
}

func (w *Worker) runnable(sleepers bool) []*gor {
	var r []*gor
	for _, g := range w.conc().gs {
		if g.done || g.asleep && !sleepers || g.ready != nil && !g.ready() {
			continue
		}
		r = append(r, g)
	}
	return r
}

// pick chooses who runs when the current goroutine cannot.
func (w *Worker) pick() *gor {
	r := w.runnable(false)
	if len(r) == 0 {
		r = w.runnable(true)
	}
	if len(r) == 0 {
		panic(&goPanic{v: Iface{w.rtype(types.Typ[types.String]), "all goroutines are asleep - deadlock!"}, runtime: true, text: "all goroutines are asleep - deadlock!"})
	}
	return r[w.choose(len(r))]
}

// await blocks the current goroutine until the condition holds.
func (w *Worker) await(ready func() bool) {
	c := w.conc()
	for !ready() {
		c.cur.ready = ready
		w.switchTo(w.pick())
	}
}

// yield lets another goroutine, or one that sleeps, go first.
func (w *Worker) yield() {
	c := w.running()
	if c == nil || len(c.gs) == 1 || c.switches >= maxSwitches || w.noFork > 0 {
		return
	}
	var r []*gor
	for _, g := range w.runnable(true) {
		if g != c.cur {
			r = append(r, g)
		}
	}
	if len(r) == 0 {
		return
	}
	k := w.choose(len(r) + 1)
	if k == 0 {
		return
	}
	c.switches++
	w.switchTo(r[k-1])
}

// passed records which goroutine passes a step of the environment.
func (w *Worker) passed() {
	if w.initing > 0 {
		return
	}
	l, _ := w.side["sched"].([]int)
	k := 0
	if c := w.running(); c != nil {
		for i, g := range c.gs {
			if g == c.cur {
				k = i
			}
		}
	}
	w.side["sched"] = append(l, k)
}

// sched is the order in which the goroutines of the path passed the steps of the environment.
func (w *Worker) sched() []int {
	if c := w.running(); c == nil || len(c.gs) == 1 {
		return nil
	}
	l, _ := w.side["sched"].([]int)
	return append([]int{}, l...)
}

// settle lets the other goroutines run as far as they get, with the time that takes.
func (w *Worker) settle() {
	c := w.running()
	for i := 0; c != nil && i < 8; i++ {
		var r []*gor
		for _, g := range w.runnable(true) {
			if g != c.cur {
				r = append(r, g)
			}
		}
		if len(r) == 0 {
			return
		}
		c.cur.asleep = true
		w.switchTo(r[w.choose(len(r))])
	}
}

// sleep lets any amount of time pass.
func (w *Worker) sleep() {
	c := w.running()
	if c == nil {
		return
	}
	c.cur.asleep = true
	w.switchTo(w.pick())
}

// endConc stops the goroutines that are left when the path ends.
func (w *Worker) endConc() {
	c := w.running()
	if c == nil {
		return
	}
	c.abort = true
	for _, g := range c.gs[1:] {
		select {
		case <-g.gone:
		case g.wake <- struct{}{}:
			<-g.gone
		}
	}
	delete(w.side, "conc")
}

func (w *Worker) chanSend(c *Chan, v Value) {
	w.yield()
	if c == nil {
		w.await(func() bool { return false })
	}
	if c.closed {
		w.goPanicErr("send on closed channel")
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	it := &chanItem{v: v}
	c.sendq = append(c.sendq, it)
	w.await(func() bool { return it.taken || c.closed })
	if !it.taken {
		w.goPanicErr("send on closed channel")
	}
}

func (c *Chan) canRecv() bool {
	return c != nil && (len(c.buf) > 0 || len(c.sendq) > 0 || c.closed || c.ticks)
}

// take receives from a channel that can deliver.
func (w *Worker) take(c *Chan, elem types.Type) (Value, bool) {
	switch {
	case len(c.buf) > 0:
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if len(c.sendq) > 0 {
			it := c.sendq[0]
			c.sendq = c.sendq[1:]
			it.taken = true
			c.buf = append(c.buf, it.v)
		}
		return v, true
	case len(c.sendq) > 0:
		it := c.sendq[0]
		c.sendq = c.sendq[1:]
		it.taken = true
		return it.v, true
	case c.closed:
		return w.zeroV(elem), false
	case c.ticks:
		if c.once {
			c.ticks = false
		}
		return w.zeroV(elem), true
	}
	panic(unsupported{"engine: receive from an empty channel"})
}

func (w *Worker) chanRecv(c *Chan, elem types.Type) (Value, bool) {
	w.yield()
	if !c.canRecv() {
		if c != nil {
			c.waiting++
		}
		w.await(c.canRecv)
		if c != nil {
			c.waiting--
		}
	} else if c.ticks && len(c.buf) == 0 && len(c.sendq) == 0 {
		w.sleep() // until the time has come
	}
	return w.take(c, elem)
}

func (c *Chan) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || c.waiting > len(c.sendq))
}

// selectStmt is a select statement: the chosen case, whether a receive delivered a value, and
// the values received per receiving case.
func (w *Worker) selectStmt(x *ssa.Select, chans []*Chan, sends []Value) Value {
	w.yield()
	ready := func(timers bool) []int {
		var r []int
		for i, s := range x.States {
			c := chans[i]
			if s.Dir == types.SendOnly && c.canSend() || s.Dir == types.RecvOnly && c.canRecv() && (timers || !c.ticks || len(c.buf) > 0) {
				r = append(r, i)
			}
		}
		return r
	}
	r := ready(false)
	k := -1
	switch {
	case len(r) > 0:
		k = r[w.choose(len(r))]
	case !x.Blocking:
		// a timer may or may not have fired
		if t := ready(true); len(t) > 0 {
			if j := w.choose(len(t) + 1); j > 0 {
				k = t[j-1]
			}
		}
	default:
		for i, s := range x.States {
			if s.Dir == types.RecvOnly && chans[i] != nil {
				chans[i].waiting++
			}
		}
		if t := ready(true); len(t) > 0 {
			// time passes: others go first, and more may become ready
			w.sleep()
		} else {
			w.await(func() bool { return len(ready(true)) > 0 })
		}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly && chans[i] != nil {
				chans[i].waiting--
			}
		}
		if r = ready(false); len(r) == 0 {
			r = ready(true)
		}
		k = r[w.choose(len(r))]
	}
	res := Tuple{w.i64(k), w.tt.F}
	for i, s := range x.States {
		if s.Dir != types.RecvOnly {
			continue
		}
		elem := s.Chan.Type().Underlying().(*types.Chan).Elem()
		v := w.zeroV(elem)
		if i == k {
			var ok bool
			v, ok = w.take(chans[i], elem)
			res[1] = w.tt.Bool(ok)
		}
		res = append(res, v)
	}
	if k >= 0 && x.States[k].Dir == types.SendOnly {
		c := chans[k]
		switch {
		case c.closed:
			w.goPanicErr("send on closed channel")
		case len(c.buf) < c.cap:
			c.buf = append(c.buf, sends[k])
		default:
			c.sendq = append(c.sendq, &chanItem{v: sends[k]})
		}
	}
	return res
}

// ---- package sync and time ----

type lockState struct {
	held    bool
	readers int
	n       int // wait groups
}

func (w *Worker) lock(v Value) *lockState {
	if w.side == nil {
		w.side = map[string]any{}
	}
	m, _ := w.side["locks"].(map[Ptr]*lockState)
	if m == nil {
		m = map[Ptr]*lockState{}
		w.side["locks"] = m
	}
	p := v.(Ptr)
	if p.o == nil {
		w.nilDeref()
	}
	s := m[p]
	if s == nil {
		s = &lockState{}
		m[p] = s
	}
	return s
}

func (w *Worker) newTimer(fn *ssa.Function, once bool) Value {
	pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	o := w.newZero(pt)
	st := pt.Underlying().(*types.Struct)
	l := w.layout(pt)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "C" {
			o.slots[l.foff[i]] = &Chan{cap: 1, ticks: true, once: once}
		}
	}
	return Ptr{o, 0}
}

func (w *Worker) timerChan(fn *ssa.Function, v Value) *Chan {
	p := v.(Ptr)
	if p.o == nil {
		w.nilDeref()
	}
	pt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	st := pt.Underlying().(*types.Struct)
	l := w.layout(pt)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "C" {
			if c, ok := p.o.slots[p.off+l.foff[i]].(*Chan); ok {
				return c
			}
		}
	}
	panic(unsupported{"timer without channel"})
}

func init() {
	concIntrinsics = map[string]intrinsic{
		"(*sync.Mutex).Lock": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.yield()
			s := w.lock(a[0])
			w.await2(func() bool { return !s.held && s.readers == 0 })
			s.held = true
			return nil
		},
		"(*sync.Mutex).TryLock": func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := w.lock(a[0])
			if s.held {
				return w.tt.F
			}
			s.held = true
			return w.tt.T
		},
		"(*sync.Mutex).Unlock": func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := w.lock(a[0])
			if !s.held {
				w.goPanicErr("sync: unlock of unlocked mutex")
			}
			s.held = false
			return nil
		},
		"(*sync.RWMutex).RLock": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.yield()
			s := w.lock(a[0])
			w.await2(func() bool { return !s.held })
			s.readers++
			return nil
		},
		"(*sync.RWMutex).RUnlock": func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := w.lock(a[0])
			if s.readers == 0 {
				w.goPanicErr("sync: RUnlock of unlocked RWMutex")
			}
			s.readers--
			return nil
		},
		"(*sync.WaitGroup).Add": func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := w.lock(a[0])
			s.n += int(int64(w.concretize(a[1].(*Term))))
			if s.n < 0 {
				w.goPanicErr("sync: negative WaitGroup counter")
			}
			return nil
		},
		"(*sync.WaitGroup).Done": func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := w.lock(a[0])
			if s.n--; s.n < 0 {
				w.goPanicErr("sync: negative WaitGroup counter")
			}
			return nil
		},
		"(*sync.WaitGroup).Wait": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.yield()
			s := w.lock(a[0])
			w.await2(func() bool { return s.n == 0 })
			return nil
		},
		"(*sync.WaitGroup).Go": func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := w.lock(a[0])
			s.n++
			w.goStmt(func() Value {
				w.callClosure(a[1].(*Closure), nil)
				s.n--
				return nil
			})
			return nil
		},
		"(*sync/atomic.Value).Load": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.atomicValue(a[0])
		},
		"(*sync/atomic.Value).Store": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.atomicSet(a[0], a[1], "store")
			return nil
		},
		"(*sync/atomic.Value).Swap": func(w *Worker, fn *ssa.Function, a []Value) Value {
			old := w.atomicValue(a[0])
			w.atomicSet(a[0], a[1], "swap")
			return old
		},
		"(*sync/atomic.Value).CompareAndSwap": func(w *Worker, fn *ssa.Function, a []Value) Value {
			old, want := w.atomicValue(a[0]), a[1].(Iface)
			if old.t != want.t || old.t != nil && !w.branch(w.eqV(old.t.t, old.v, want.v)) {
				return w.tt.F
			}
			w.atomicSet(a[0], a[2], "compare and swap")
			return w.tt.T
		},
		"runtime.Gosched": func(w *Worker, fn *ssa.Function, a []Value) Value { w.sleep(); return nil },
		"time.Sleep":      func(w *Worker, fn *ssa.Function, a []Value) Value { w.sleep(); return nil },
		"time.NewTicker":  func(w *Worker, fn *ssa.Function, a []Value) Value { return w.newTimer(fn, false) },
		"time.NewTimer":   func(w *Worker, fn *ssa.Function, a []Value) Value { return w.newTimer(fn, true) },
		"time.Tick":       func(w *Worker, fn *ssa.Function, a []Value) Value { return &Chan{cap: 1, ticks: true} },
		"time.After":      func(w *Worker, fn *ssa.Function, a []Value) Value { return &Chan{cap: 1, ticks: true, once: true} },
		"(*time.Ticker).Stop": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.timerChan(fn, a[0]).ticks = false
			return nil
		},
		"(*time.Ticker).Reset": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.timerChan(fn, a[0]).ticks = true
			return nil
		},
		"(*time.Timer).Stop": func(w *Worker, fn *ssa.Function, a []Value) Value {
			c := w.timerChan(fn, a[0])
			old := c.ticks
			c.ticks = false
			return w.tt.Bool(old)
		},
		"(*time.Timer).Reset": func(w *Worker, fn *ssa.Function, a []Value) Value {
			c := w.timerChan(fn, a[0])
			old := c.ticks
			c.ticks = true
			return w.tt.Bool(old)
		},
	}
	concIntrinsics["(*sync.RWMutex).Lock"] = concIntrinsics["(*sync.Mutex).Lock"]
	concIntrinsics["(*sync.RWMutex).Unlock"] = concIntrinsics["(*sync.Mutex).Unlock"]
	concIntrinsics["(*sync.RWMutex).TryLock"] = concIntrinsics["(*sync.Mutex).TryLock"]
}

func (w *Worker) atomicValue(v Value) Iface {
	p := v.(Ptr)
	if p.o == nil {
		w.nilDeref()
	}
	return w.slotAt(p.o, p.off).(Iface)
}

func (w *Worker) atomicSet(v, x Value, op string) {
	old := w.atomicValue(v)
	if n := x.(Iface); n.t == nil {
		w.goPanicStr("sync/atomic: " + op + " of nil value into Value")
	} else if old.t != nil && old.t != n.t {
		w.goPanicStr("sync/atomic: " + op + " of inconsistently typed value into Value")
	}
	p := v.(Ptr)
	w.setSlot(p.o, p.off, x)
}

var concIntrinsics map[string]intrinsic

// await2 is await for conditions that usually hold.
func (w *Worker) await2(ready func() bool) {
	if !ready() {
		w.await(ready)
	}
}
