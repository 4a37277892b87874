package main

// A decision procedure for conditions over a single byte (or boolean) input: the set of its
// values that the path allows is kept as a bit set, so that most of the questions a byte-wise
// parser asks need no call of the external solver. Conditions over anything else go there.

type bits256 [4]uint64

func (b bits256) and(c bits256) (r bits256) {
	for i := range b {
		r[i] = b[i] & c[i]
	}
	return
}

func (b bits256) empty() bool { return b == bits256{} }

type supKind uint8

const (
	supUnset supKind = iota
	supNone
	supOne
	supMany
)

// support finds the only variable of a term if there is just one.
func (t *Term) support() (supKind, *Term) {
	if t.sk != supUnset {
		return t.sk, t.sv
	}
	k, v := supNone, (*Term)(nil)
	switch t.op {
	case OVar:
		k, v = supOne, t
	default:
		if t.isAtom() {
			k = supMany
			break
		}
		for _, s := range []*Term{t.a, t.b, t.c} {
			if s == nil || k == supMany {
				continue
			}
			sk, sv := s.support()
			switch {
			case sk == supMany, sk == supOne && k == supOne && sv != v:
				k, v = supMany, nil
			case sk == supOne:
				k, v = supOne, sv
			}
		}
	}
	t.sk, t.sv = k, v
	return k, v
}

func domSize(v *Term) int {
	switch v.w {
	case 0:
		return 2
	case 8:
		return 256
	}
	return 0
}

// table lists the values of the only variable of c that make it true.
func (w *Worker) table(c, v *Term) bits256 {
	if b, ok := w.tables[c]; ok {
		return b
	}
	var b bits256
	n := domSize(v)
	m := Model{}
	for x := 0; x < n; x++ {
		m[v.name] = uint64(x)
		if newEval(m).eval(c) != 0 {
			b[x>>6] |= 1 << (x & 63)
		}
	}
	if w.tables == nil || len(w.tables) > 1<<16 {
		w.tables = map[*Term]bits256{}
	}
	w.tables[c] = b
	return b
}

func fullDom(v *Term) (b bits256) {
	for x := 0; x < domSize(v); x++ {
		b[x>>6] |= 1 << (x & 63)
	}
	return
}

func (w *Worker) dom(v *Term) bits256 {
	if b, ok := w.doms[v]; ok {
		return b
	}
	return fullDom(v)
}

// noteFact records a conjunct of the path condition.
func (w *Worker) noteFact(c *Term) {
	w.facts[c] = true
	k, v := c.support()
	if k == supOne && domSize(v) > 0 {
		w.doms[v] = w.dom(v).and(w.table(c, v))
		return
	}
	w.tie(c)
}

func (w *Worker) tie(c *Term) {
	if c == nil || w.tiedT[c] {
		return
	}
	w.tiedT[c] = true
	if c.op == OVar {
		w.tied[c] = true
		return
	}
	w.tie(c.a)
	w.tie(c.b)
	w.tie(c.c)
}

// quick decides whether c can be true and can be false on this path: known only if ok.
// The models are for the side that the current model is not on.
func (w *Worker) quick(c *Term) (canT, canF bool, alt Model, ok bool) {
	if w.facts[c] {
		return true, false, nil, true
	}
	if w.facts[w.tt.Not(c)] {
		return false, true, nil, true
	}
	k, v := c.support()
	if k != supOne || domSize(v) == 0 {
		return
	}
	d := w.dom(v)
	t := w.table(c, v).and(d)
	if t == d {
		return true, false, nil, true
	}
	if t.empty() {
		return false, true, nil, true
	}
	if w.tied[v] {
		return
	}
	want := t
	if w.ev.eval(c) != 0 { // the other side
		for i := range want {
			want[i] = d[i] &^ t[i]
		}
	}
	alt = make(Model, len(w.model)+1)
	for k, x := range w.model {
		alt[k] = x
	}
	for x := 0; x < 256; x++ {
		if want[x>>6]>>(x&63)&1 != 0 {
			alt[v.name] = uint64(x)
			break
		}
	}
	return true, true, alt, true
}

// feasible is Check for the side of c that the current model is not on.
func (w *Worker) feasible(alt *Term) (SatResult, Model) {
	canT, _, m, ok := w.quick(alt)
	if ok {
		w.sol.Quick++
		if !canT {
			return Unsat, nil
		}
		if m != nil {
			return Sat, m
		}
	}
	return w.sol.Check(w.pc, alt)
}
