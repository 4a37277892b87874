package main

// Bit-vector / boolean term DAG with hash-consing and light rewriting.
//
// Width 0 denotes Bool, widths 1..64 denote (_ BitVec w). Floats are carried as
// their IEEE bit patterns. Terms are local to one worker's TermTable.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = low bit
	OSext
	OFAdd // floating point: operands/results as bit patterns, width 32/64
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFToSI // float(a) -> signed int of width w
	OSIToF
	OUIToF
	OFToF
	OFRnd // float rounded to a whole one; k = index in roundModes
	// string atoms: pseudo terms of width 8 that stand for an unexpanded run of characters
	OItoaS  // decimal of signed a
	OItoaU  // decimal of unsigned a
	OAtomFn // opaque formatted text: name identifies the format, args a,b
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat",
}

type Term struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
	id      int
	h       uint64 // structural hash, stable across workers
	name    string
	hasAtom bool
	mx      uint64 // upper bound of the value (bit-vectors)
	sk      supKind
	sv      *Term
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
	name    string
}

type TermTable struct {
	tab    map[termKey]*Term
	consts [65]map[uint64]*Term
	small  [65][]*Term
	n      int
	T, F   *Term
}

func NewTermTable() *TermTable {
	tt := &TermTable{tab: map[termKey]*Term{}}
	for i := range tt.consts {
		tt.consts[i] = map[uint64]*Term{}
	}
	for _, w := range []int{8, 16, 32, 64} {
		tt.small[w] = make([]*Term, 1024)
	}
	tt.T = tt.C(0, 1)
	tt.F = tt.C(0, 0)
	return tt
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isAtom() bool  { return t.op >= OItoaS }

func hmix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (tt *TermTable) C(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 1024 && tt.small[w] != nil {
		if t := tt.small[w][v]; t != nil {
			return t
		}
	}
	if t := tt.consts[w][v]; t != nil {
		return t
	}
	t := &Term{op: OConst, w: w, k: v, id: tt.n, mx: v}
	t.h = hmix(hmix(17, uint64(w)), v)
	tt.n++
	tt.consts[w][v] = t
	if v < 1024 && tt.small[w] != nil {
		tt.small[w][v] = t
	}
	return t
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}

func (tt *TermTable) mk(op Op, w uint8, k uint64, a, b, c *Term, name string) *Term {
	key := termKey{op, w, k, a, b, c, name}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, name: name, id: tt.n}
	tt.n++
	h := hmix(hmix(hmix(uint64(op)+100, uint64(w)), k), 7)
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			h = hmix(h, x.h)
		} else {
			h = hmix(h, 3)
		}
	}
	for i := 0; i < len(name); i++ {
		h = hmix(h, uint64(name[i]))
	}
	t.h = h
	t.mx = maxOf(t)
	tt.tab[key] = t
	return t
}

// maxOf bounds the unsigned value of a term from the bounds of its operands.
func maxOf(t *Term) uint64 {
	m := mask(t.w)
	if t.w == 0 {
		return m
	}
	r := m
	switch t.op {
	case OIte:
		r = max(t.b.mx, t.c.mx)
	case OConcat:
		r = t.a.mx<<t.b.w | t.b.mx
		if t.a.mx != 0 && t.b.mx != 0 {
			r = t.a.mx<<t.b.w | (1<<bits.Len64(t.b.mx) - 1)
		}
	case OExtract:
		if t.k == 0 {
			r = t.a.mx
		} else {
			r = t.a.mx >> t.k
		}
	case OAdd:
		if s, c := bits.Add64(t.a.mx, t.b.mx, 0); c == 0 {
			r = s
		}
	case OMul:
		if hi, lo := bits.Mul64(t.a.mx, t.b.mx); hi == 0 {
			r = lo
		}
	case OUDiv:
		if t.b.isConst() && t.b.k != 0 {
			r = t.a.mx / t.b.k
		}
	case OURem:
		if t.b.isConst() && t.b.k != 0 {
			r = min(t.a.mx, t.b.k-1)
		}
	case OBAnd:
		r = min(t.a.mx, t.b.mx)
	case OBOr, OBXor:
		if n := bits.Len64(t.a.mx | t.b.mx); n < 64 {
			r = 1<<n - 1
		}
	case OLshr:
		r = t.a.mx
	}
	if r > m {
		return m
	}
	return r
}

func (tt *TermTable) Var(name string, w uint8) *Term {
	return tt.mk(OVar, w, 0, nil, nil, nil, name)
}

func sx(v uint64, w uint8) int64 {
	if w == 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// ---- booleans ----

func (tt *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op { // canonicalise comparisons
	case OUlt:
		return tt.Ule(a.b, a.a)
	case OUle:
		return tt.Ult(a.b, a.a)
	case OSlt:
		return tt.Sle(a.b, a.a)
	case OSle:
		return tt.Slt(a.b, a.a)
	}
	return tt.mk(ONot, 0, 0, a, nil, nil, "")
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.isNeg(a, b) {
		return tt.F
	}
	if before(b, a) {
		a, b = b, a
	}
	return tt.mk(OAnd, 0, 0, a, b, nil, "")
}

func (tt *TermTable) isNeg(a, b *Term) bool {
	return (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.isNeg(a, b) {
		return tt.T
	}
	if before(b, a) {
		a, b = b, a
	}
	return tt.mk(OOr, 0, 0, a, b, nil, "")
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k == 1 {
				return c
			}
			return tt.Not(c)
		}
		if a.isConst() {
			if a.k == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	if c.op == OEq && (c.a == a && c.b == b || c.a == b && c.b == a) {
		return b // x == y ? x : y
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if a == b {
		return a
	}
	return tt.mk(OIte, a.w, 0, c, a, b, "")
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 1 {
				return a
			}
			return tt.Not(a)
		}
		if tt.isNeg(a, b) {
			return tt.F
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OConcat:
			lw := a.b.w
			return tt.And(tt.Eq(a.a, tt.C(a.a.w, b.k>>lw)), tt.Eq(a.b, tt.C(lw, b.k)))
		case OAdd:
			if a.b.isConst() {
				return tt.Eq(a.a, tt.C(a.w, b.k-a.b.k))
			}
		case OBXor:
			if a.b.isConst() {
				return tt.Eq(a.a, tt.C(a.w, b.k^a.b.k))
			}
		case OBNot:
			return tt.Eq(a.a, tt.C(a.w, ^b.k))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				p, q := a.b.k == b.k, a.c.k == b.k
				switch {
				case p && q:
					return tt.T
				case p:
					return a.a
				case q:
					return tt.Not(a.a)
				default:
					return tt.F
				}
			}
			if a.b.isConst() || a.c.isConst() {
				return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
			}
		}
	} else if a.op == OConcat && b.op == OConcat {
		if a.b.w == b.b.w {
			return tt.And(tt.Eq(a.a, b.a), tt.Eq(a.b, b.b))
		}
		lo := a.b.w
		if b.b.w < lo {
			lo = b.b.w
		}
		return tt.And(tt.Eq(tt.Extract(a, lo, a.w-lo), tt.Extract(b, lo, b.w-lo)), tt.Eq(tt.Extract(a, 0, lo), tt.Extract(b, 0, lo)))
	} else if a.op == OConcat || b.op == OConcat {
		x, y := a, b
		if y.op == OConcat {
			x, y = y, x
		}
		if x.a.isConst() || x.b.isConst() {
			lo := x.b.w
			return tt.And(tt.Eq(x.a, tt.Extract(y, lo, y.w-lo)), tt.Eq(x.b, tt.Extract(y, 0, lo)))
		}
	}
	if a.op == OAdd && b.op == OAdd {
		if a.a == b.a {
			return tt.Eq(a.b, b.b)
		}
		if a.b == b.b {
			return tt.Eq(a.a, b.a)
		}
	}
	if ar := func(t *Term) bool { return t.op == OAdd || t.op == OSub || t.op == OMul }; a.w > 8 && (ar(a) && (ar(b) || b.isConst()) || ar(b) && a.isConst()) {
		if eq, ok := tt.linearEq(a, b); ok {
			return tt.Bool(eq)
		}
	}
	if before(b, a) {
		a, b = b, a
	}
	return tt.mk(OEq, 0, 0, a, b, nil, "")
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k < b.k)
	}
	if b.isConst() {
		if b.k == 0 {
			return tt.F
		}
		if a.mx < b.k {
			return tt.T
		}
		if b.k == 1 {
			return tt.Eq(a, tt.C(a.w, 0))
		}
		if a.op == OConcat && a.a.isConst() {
			lw := a.b.w
			bh := b.k >> lw
			if a.a.k < bh {
				return tt.T
			}
			if a.a.k > bh {
				return tt.F
			}
			return tt.Ult(a.b, tt.C(lw, b.k))
		}
	}
	if a.isConst() {
		if a.k >= b.mx {
			return tt.F
		}
		if b.op == OConcat && b.a.isConst() {
			lw := b.b.w
			ah := a.k >> lw
			if ah < b.a.k {
				return tt.T
			}
			if ah > b.a.k {
				return tt.F
			}
			return tt.Ult(tt.C(lw, a.k), b.b)
		}
	}
	if a.op == OConcat && b.op == OConcat && a.a == b.a && a.b.w == b.b.w {
		return tt.Ult(a.b, b.b)
	}
	return tt.mk(OUlt, 0, 0, a, b, nil, "")
}

func (tt *TermTable) Ule(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.k <= b.k)
	}
	if b.isConst() {
		if b.k == mask(b.w) {
			return tt.T
		}
		return tt.Ult(a, tt.C(a.w, b.k+1))
	}
	if a.isConst() {
		if a.k == 0 {
			return tt.T
		}
		return tt.Ult(tt.C(a.w, a.k-1), b)
	}
	if a.op == OConcat && b.op == OConcat && a.a == b.a && a.b.w == b.b.w {
		return tt.Ule(a.b, b.b)
	}
	return tt.mk(OUle, 0, 0, a, b, nil, "")
}

// topZero reports that the sign bit of t is known to be zero.
func topZero(t *Term) bool {
	switch t.op {
	case OConst:
		return t.k>>(t.w-1)&1 == 0
	case OConcat:
		return topZero(t.a)
	case OIte:
		return topZero(t.b) && topZero(t.c)
	}
	return t.w > 0 && t.mx>>(t.w-1) == 0
}

func (tt *TermTable) Slt(a, b *Term) *Term {
	if a == b {
		return tt.F
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	if topZero(a) && topZero(b) {
		return tt.Ult(a, b)
	}
	if topZero(a) && b.isConst() { // b negative
		return tt.F
	}
	if topZero(b) && a.isConst() { // a negative
		return tt.T
	}
	return tt.mk(OSlt, 0, 0, a, b, nil, "")
}

func (tt *TermTable) Sle(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(sx(a.k, a.w) <= sx(b.k, b.w))
	}
	if topZero(a) && topZero(b) {
		return tt.Ule(a, b)
	}
	if topZero(a) && b.isConst() {
		return tt.F
	}
	if topZero(b) && a.isConst() {
		return tt.T
	}
	return tt.mk(OSle, 0, 0, a, b, nil, "")
}

// ---- bit-vectors ----

func (tt *TermTable) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.w == 0 || lo.w == 0 || w > 64 {
		panic("Concat width")
	}
	if hi.isConst() && lo.isConst() {
		return tt.C(w, hi.k<<lo.w|lo.k)
	}
	if hi.op == OConcat {
		return tt.Concat(hi.a, tt.Concat(hi.b, lo))
	}
	if lo.op == OConcat {
		if hi.isConst() && lo.a.isConst() {
			return tt.Concat(tt.C(hi.w+lo.a.w, hi.k<<lo.a.w|lo.a.k), lo.b)
		}
		if m := tt.joinExtract(hi, lo.a); m != nil {
			return tt.Concat(m, lo.b)
		}
	}
	if m := tt.joinExtract(hi, lo); m != nil {
		return m
	}
	if hi.isConst() && hi.k == 0 && lo.op == OExtract && lo.k == 0 && lo.a.w == w && lo.a.mx <= mask(lo.w) {
		return lo.a
	}
	return tt.mk(OConcat, w, 0, hi, lo, nil, "")
}

func (tt *TermTable) joinExtract(hi, lo *Term) *Term {
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && hi.k == lo.k+uint64(lo.w) {
		return tt.Extract(hi.a, uint8(lo.k), hi.w+lo.w)
	}
	return nil
}

func (tt *TermTable) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if w == 0 || lo+w > a.w {
		panic(fmt.Sprintf("Extract lo=%d w=%d of width %d", lo, w, a.w))
	}
	if lo > 0 && a.mx>>lo == 0 {
		return tt.C(w, 0)
	}
	switch a.op {
	case OConst:
		return tt.C(w, a.k>>lo)
	case OConcat:
		lw := a.b.w
		if lo >= lw {
			return tt.Extract(a.a, lo-lw, w)
		}
		if lo+w <= lw {
			return tt.Extract(a.b, lo, w)
		}
		return tt.Concat(tt.Extract(a.a, 0, lo+w-lw), tt.Extract(a.b, lo, lw-lo))
	case OExtract:
		return tt.Extract(a.a, uint8(a.k)+lo, w)
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tt.Ite(a.a, tt.Extract(a.b, lo, w), tt.Extract(a.c, lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return tt.Bin(a.op, tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 && !(a.op == OMul && a.mx <= mask(w)) {
			return tt.Bin(a.op, tt.Extract(a.a, 0, w), tt.Extract(a.b, 0, w))
		}
	case OSext:
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
		if lo == 0 {
			return tt.Sext(a.a, w)
		}
	}
	return tt.mk(OExtract, w, uint64(lo), a, nil, nil, "")
}

func (tt *TermTable) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	return tt.Concat(tt.C(w-a.w, 0), a)
}

func (tt *TermTable) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.C(w, uint64(sx(a.k, a.w)))
	}
	if topZero(a) {
		return tt.Zext(a, w)
	}
	if a.op == OSext {
		return tt.Sext(a.a, w)
	}
	return tt.mk(OSext, w, 0, a, nil, nil, "")
}

// segs lists the segments of t from least significant upwards.
func segs(t *Term) []*Term {
	if t.op == OConcat {
		return append(segs(t.b), segs(t.a)...)
	}
	return []*Term{t}
}

// segwise combines a and b segment by segment. ok is false if some segment pair
// needs a real operation and require is set.
func (tt *TermTable) segwise(op Op, a, b *Term, require bool) (*Term, bool) {
	if a.op != OConcat && b.op != OConcat {
		return nil, false
	}
	cuts := map[uint8]bool{}
	for _, t := range []*Term{a, b} {
		p := uint8(0)
		for _, s := range segs(t) {
			p += s.w
			cuts[p] = true
		}
	}
	var res *Term
	p := uint8(0)
	progress := false
	for q := uint8(1); q <= a.w; q++ {
		if !cuts[q] {
			continue
		}
		x, y := tt.Extract(a, p, q-p), tt.Extract(b, p, q-p)
		var r *Term
		switch {
		case x.isConst() && x.k == 0:
			r = y
			if op == OBAnd {
				r = x
			}
			progress = true
		case y.isConst() && y.k == 0:
			r = x
			if op == OBAnd {
				r = y
			}
			progress = true
		default:
			if require {
				return nil, false
			}
			if x.op == OConcat || y.op == OConcat {
				return nil, false
			}
			r = tt.Bin(op, x, y)
		}
		if res == nil {
			res = r
		} else {
			res = tt.Concat(r, res)
		}
		p = q
	}
	return res, progress
}

// sumOf builds the left-associated sum, ordered by id, of the addends of a
// and b; neither carries a constant at its top.
func (tt *TermTable) sumOf(w uint8, a, b *Term) *Term {
	var parts []*Term
	var k uint64
	var collect func(t *Term)
	collect = func(t *Term) {
		switch {
		case t.isConst():
			k += t.k
		case t.op == OAdd && len(parts) < 64:
			collect(t.a)
			collect(t.b)
		default:
			parts = append(parts, t)
		}
	}
	collect(a)
	collect(b)
	// x/c*c + x%c = x
	for i := 0; i < len(parts); i++ {
		r := parts[i]
		if r.op != OURem || !r.b.isConst() {
			continue
		}
		for j, q := range parts {
			if q.op == OMul && q.b == r.b && q.a.op == OUDiv && q.a.a == r.a && q.a.b == r.b {
				lo, hi := min(i, j), max(i, j)
				parts = append(parts[:hi], parts[hi+1:]...)
				parts = append(parts[:lo], parts[lo+1:]...)
				rest := r.a
				for _, p := range parts {
					rest = tt.Bin(OAdd, rest, p)
				}
				return tt.Bin(OAdd, rest, tt.C(w, k))
			}
		}
	}
	sort.Slice(parts, func(i, j int) bool { return before(parts[i], parts[j]) })
	r := parts[0]
	for _, p := range parts[1:] {
		r = tt.mk(OAdd, w, 0, r, p, nil, "")
	}
	if k &= mask(w); k != 0 {
		r = tt.mk(OAdd, w, 0, r, tt.C(w, k), nil, "")
	}
	return r
}

func commutative(op Op) bool {
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		return true
	}
	return false
}

func foldBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		a := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(a>>y) & m
	}
	panic("foldBin")
}

// Div is Bin for a division on a path where b is not 0: it is done in no more bits than
// the operands need.
func (tt *TermTable) Div(op Op, a, b *Term) *Term {
	if op == OSDiv && topZero(a) && topZero(b) {
		op = OUDiv
	}
	if op == OSRem && topZero(a) && topZero(b) {
		op = OURem
	}
	if n := uint8(max(bits.Len64(a.mx|b.mx), 1)); !b.isConst() && n < a.w && (op == OUDiv || op == OURem) {
		return tt.Zext(tt.Bin(op, tt.Extract(a, 0, n), tt.Extract(b, 0, n)), a.w)
	}
	return tt.Bin(op, a, b)
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width mismatch %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.C(w, foldBin(op, w, a.k, b.k))
	}
	if commutative(op) && (a.isConst() || (!b.isConst() && before(b, a))) {
		a, b = b, a
	}
	m := mask(w)
	bc := b.isConst()
	switch op {
	case OAdd:
		if bc {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tt.Bin(OAdd, a.a, tt.C(w, a.b.k+b.k))
			}
			if a.op == OSub && a.a.isConst() {
				return tt.Bin(OSub, tt.C(w, a.a.k+b.k), a.b)
			}
		}
		// float constants outwards so sums normalise
		if a.op == OAdd && a.b.isConst() && !bc {
			return tt.Bin(OAdd, tt.Bin(OAdd, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return tt.Bin(OAdd, tt.Bin(OAdd, a, b.a), b.b)
		}
		if r, ok := tt.segwise(OAdd, a, b, true); ok {
			return r
		}
		// flatten sums of non-constants
		if a.op == OAdd || b.op == OAdd || a.op == OURem || b.op == OURem {
			return tt.sumOf(w, a, b)
		}
	case OSub:
		if a == b {
			return tt.C(w, 0)
		}
		if bc {
			return tt.Bin(OAdd, a, tt.C(w, -b.k))
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
			if a.b.isConst() {
				return tt.Bin(OAdd, tt.Bin(OSub, a.a, b), a.b)
			}
		}
		if b.op == OAdd && b.b.isConst() {
			return tt.Bin(OAdd, tt.Bin(OSub, a, b.a), tt.C(w, -b.b.k))
		}
	case OMul:
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return tt.Bin(OShl, a, tt.C(w, uint64(bits.TrailingZeros64(b.k))))
			}
		}
	case OUDiv:
		if bc && b.k == 1 {
			return a
		}
		if bc && b.k != 0 && b.k&(b.k-1) == 0 {
			return tt.Bin(OLshr, a, tt.C(w, uint64(bits.TrailingZeros64(b.k))))
		}
		if bc && b.k != 0 && a.mx < b.k {
			return tt.C(w, 0)
		}
		if bc && b.k != 0 && a.op == OMul && a.b.isConst() && a.b.k != 0 && noOverflow(a) {
			switch {
			case b.k%a.b.k == 0:
				return tt.Bin(OUDiv, a.a, tt.C(w, b.k/a.b.k))
			case a.b.k%b.k == 0:
				return tt.Bin(OMul, a.a, tt.C(w, a.b.k/b.k))
			}
		}
	case OURem:
		if bc && b.k != 0 && b.k&(b.k-1) == 0 {
			return tt.Bin(OBAnd, a, tt.C(w, b.k-1))
		}
		if bc && a.mx < b.k {
			return a
		}
		if bc && b.k != 0 && a.op == OMul && a.b.isConst() && a.b.k != 0 && noOverflow(a) {
			switch {
			case b.k%a.b.k == 0:
				return tt.Bin(OMul, tt.Bin(OURem, a.a, tt.C(w, b.k/a.b.k)), a.b)
			case a.b.k%b.k == 0:
				return tt.C(w, 0)
			}
		}
	case OSDiv:
		if bc && b.k == 1 {
			return a
		}
		if topZero(a) && topZero(b) {
			return tt.Bin(OUDiv, a, b)
		}
	case OSRem:
		if topZero(a) && topZero(b) {
			return tt.Bin(OURem, a, b)
		}
	case OBAnd:
		if a == b {
			return a
		}
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if b.k&(b.k+1) == 0 { // low mask
				n := uint8(bits.Len64(b.k))
				return tt.Zext(tt.Extract(a, 0, n), w)
			}
			// contiguous mask
			tz := uint8(bits.TrailingZeros64(b.k))
			r := b.k >> tz
			if r&(r+1) == 0 {
				n := uint8(bits.Len64(r))
				mid := tt.Extract(a, tz, n)
				t := mid
				if tz > 0 {
					t = tt.Concat(mid, tt.C(tz, 0))
				}
				return tt.Zext(t, w)
			}
		}
		if r, ok := tt.segwise(OBAnd, a, b, false); ok {
			return r
		}
	case OBOr:
		if a == b {
			return a
		}
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
		if r, ok := tt.segwise(OBOr, a, b, false); ok {
			return r
		}
	case OBXor:
		if a == b {
			return tt.C(w, 0)
		}
		if bc && b.k == 0 {
			return a
		}
		if bc && b.k == m {
			return tt.BNot(a)
		}
		if r, ok := tt.segwise(OBXor, a, b, false); ok {
			return r
		}
	case OShl:
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tt.C(w, 0)
			}
			n := uint8(b.k)
			return tt.Concat(tt.Extract(a, 0, w-n), tt.C(n, 0))
		}
	case OLshr:
		if bc {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tt.C(w, 0)
			}
			n := uint8(b.k)
			return tt.Zext(tt.Extract(a, n, w-n), w)
		}
	case OAshr:
		if bc {
			if b.k == 0 {
				return a
			}
			n := b.k
			if n >= uint64(w) {
				n = uint64(w) - 1
			}
			return tt.Sext(tt.Extract(a, uint8(n), w-uint8(n)), w)
		}
		if topZero(a) {
			return tt.Bin(OLshr, a, b)
		}
	}
	return tt.mk(op, w, 0, a, b, nil, "")
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.C(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.w, 0, a, nil, nil, "")
}

func (tt *TermTable) Neg(a *Term) *Term { return tt.Bin(OSub, tt.C(a.w, 0), a) }

// Cmp builds an integer comparison.
func (tt *TermTable) Cmp(op string, a, b *Term, signed bool) *Term {
	switch op {
	case "<":
		if signed {
			return tt.Slt(a, b)
		}
		return tt.Ult(a, b)
	case "<=":
		if signed {
			return tt.Sle(a, b)
		}
		return tt.Ule(a, b)
	case ">":
		return tt.Cmp("<", b, a, signed)
	case ">=":
		return tt.Cmp("<=", b, a, signed)
	}
	panic(op)
}

// ---- floats (bit patterns) ----

func fval(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return math.Float64frombits(t.k)
}

func (tt *TermTable) FC(w uint8, f float64) *Term {
	if w == 32 {
		return tt.C(32, uint64(math.Float32bits(float32(f))))
	}
	return tt.C(64, math.Float64bits(f))
}

func foldF(op Op, w uint8, x, y uint64) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		switch op {
		case OFAdd:
			return uint64(math.Float32bits(a + b))
		case OFSub:
			return uint64(math.Float32bits(a - b))
		case OFMul:
			return uint64(math.Float32bits(a * b))
		case OFDiv:
			return uint64(math.Float32bits(a / b))
		}
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	switch op {
	case OFAdd:
		return math.Float64bits(a + b)
	case OFSub:
		return math.Float64bits(a - b)
	case OFMul:
		return math.Float64bits(a * b)
	case OFDiv:
		return math.Float64bits(a / b)
	}
	panic("foldF")
}

func foldFCmp(op Op, w uint8, x, y uint64) bool {
	a, b := fval(&Term{w: w, k: x}), fval(&Term{w: w, k: y})
	switch op {
	case OFLt:
		return a < b
	case OFLe:
		return a <= b
	case OFEq:
		return a == b
	}
	panic("foldFCmp")
}

func (tt *TermTable) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.C(a.w, foldF(op, a.w, a.k, b.k))
	}
	return tt.mk(op, a.w, 0, a, b, nil, "")
}

func (tt *TermTable) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.Bool(foldFCmp(op, a.w, a.k, b.k))
	}
	return tt.mk(op, 0, 0, a, b, nil, "")
}

// fToI converts like amd64 Go: out of range and NaN give the minimum int64.
func fToI(f float64, w uint8) uint64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return uint64(1<<63) & mask(w)
	}
	return uint64(int64(f)) & mask(w)
}

func (tt *TermTable) FToSI(a *Term, w uint8) *Term {
	if a.isConst() {
		return tt.C(w, fToI(fval(a), w))
	}
	a = tt.FToF(a, 64)
	return tt.mk(OFToSI, w, 0, a, nil, nil, "")
}

var roundModes = []struct {
	name string
	f    func(float64) float64
}{{"RTN", math.Floor}, {"RTP", math.Ceil}, {"RTZ", math.Trunc}, {"RNA", math.Round}, {"RNE", math.RoundToEven}}

// FRnd rounds to a whole number.
func (tt *TermTable) FRnd(a *Term, mode int) *Term {
	if a.isConst() {
		return tt.FC(a.w, roundModes[mode].f(fval(a)))
	}
	return tt.mk(OFRnd, a.w, uint64(mode), a, nil, nil, "")
}

func (tt *TermTable) IToF(a *Term, w uint8, signed bool) *Term {
	if a.isConst() {
		if signed {
			if w == 32 {
				return tt.C(32, uint64(math.Float32bits(float32(sx(a.k, a.w)))))
			}
			return tt.FC(w, float64(sx(a.k, a.w)))
		}
		if w == 32 {
			return tt.C(32, uint64(math.Float32bits(float32(a.k))))
		}
		return tt.FC(w, float64(a.k))
	}
	if signed {
		return tt.mk(OSIToF, w, 0, a, nil, nil, "")
	}
	return tt.mk(OUIToF, w, 0, a, nil, nil, "")
}

func (tt *TermTable) FToF(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.FC(w, fval(a))
	}
	return tt.mk(OFToF, w, 0, a, nil, nil, "")
}

// Itoa makes the atom for the decimal rendering of a.
func (tt *TermTable) Itoa(a *Term, signed bool) *Term {
	// one term per number, whatever type it has in the program
	op := OItoaU
	if signed {
		a = tt.Sext(a, 64)
	} else {
		a = tt.Zext(a, 64)
	}
	if signed || maxOf(a) < 1<<63 {
		op = OItoaS
	}
	t := tt.mk(op, 8, 0, a, nil, nil, "")
	t.hasAtom = true
	return t
}

// linear adds k times t to the linear form.
func (tt *TermTable) linear(t *Term, k uint64, m map[*Term]uint64, c *uint64, n *int) {
	*n++
	switch {
	case *n > 60:
		m[t] += k
	case t.isConst():
		*c += k * t.k
	case t.op == OAdd:
		tt.linear(t.a, k, m, c, n)
		tt.linear(t.b, k, m, c, n)
	case t.op == OSub:
		tt.linear(t.a, k, m, c, n)
		tt.linear(t.b, -k, m, c, n)
	case t.op == OMul && t.b.isConst():
		tt.linear(t.a, k*t.b.k, m, c, n)
	case t.op == OShl && t.b.isConst() && t.b.k < 64:
		tt.linear(t.a, k<<t.b.k, m, c, n)
	case t.op == OConcat && t.b.isConst() && t.b.k == 0 && t.a.op == OExtract && t.a.k == 0 && t.a.a.w == t.w:
		tt.linear(t.a.a, k<<t.b.w, m, c, n)
	case t.op == OURem && t.b.isConst() && t.b.k != 0: // x - x/c*c
		tt.linear(t.a, k, m, c, n)
		tt.linear(tt.Bin(OUDiv, t.a, t.b), -k*t.b.k, m, c, n)
	default:
		m[t] += k
	}
}

// linearEq decides a = b if both are the same or differ by a constant as linear forms.
func (tt *TermTable) linearEq(a, b *Term) (eq, ok bool) {
	m := map[*Term]uint64{}
	var c uint64
	n := 0
	tt.linear(a, 1, m, &c, &n)
	tt.linear(b, ^uint64(0), m, &c, &n)
	for _, k := range m {
		if k&mask(a.w) != 0 {
			return false, false
		}
	}
	return c&mask(a.w) == 0, true
}

// Atom is a text that is an injective function of a.
func (tt *TermTable) Atom(name string, a *Term) *Term {
	t := tt.mk(OAtomFn, 8, 0, a, nil, nil, name)
	t.hasAtom = true
	return t
}

// ---- evaluation under a model ----

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[*Term]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[*Term]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return e.m[t.name] & mask(t.w)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - e.eval(t.a)
	case OAnd:
		r = e.eval(t.a)
		if r != 0 {
			r = e.eval(t.b)
		}
	case OOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	case OEq:
		r = b2u(e.eval(t.a) == e.eval(t.b))
	case OIte:
		if e.eval(t.a) != 0 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OUlt:
		r = b2u(e.eval(t.a) < e.eval(t.b))
	case OUle:
		r = b2u(e.eval(t.a) <= e.eval(t.b))
	case OSlt:
		r = b2u(sx(e.eval(t.a), t.a.w) < sx(e.eval(t.b), t.b.w))
	case OSle:
		r = b2u(sx(e.eval(t.a), t.a.w) <= sx(e.eval(t.b), t.b.w))
	case OBNot:
		r = ^e.eval(t.a) & mask(t.w)
	case OConcat:
		r = e.eval(t.a)<<t.b.w | e.eval(t.b)
	case OExtract:
		r = (e.eval(t.a) >> t.k) & mask(t.w)
	case OSext:
		r = uint64(sx(e.eval(t.a), t.a.w)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		r = foldF(t.op, t.w, e.eval(t.a), e.eval(t.b))
	case OFLt, OFLe, OFEq:
		r = b2u(foldFCmp(t.op, t.a.w, e.eval(t.a), e.eval(t.b)))
	case OFToSI:
		r = fToI(fval(&Term{w: t.a.w, k: e.eval(t.a)}), t.w)
	case OFRnd:
		f := roundModes[t.k].f(fval(&Term{w: t.a.w, k: e.eval(t.a)}))
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(f)))
		} else {
			r = math.Float64bits(f)
		}
	case OSIToF, OUIToF:
		tt := &TermTable{}
		_ = tt
		v := e.eval(t.a)
		if t.op == OSIToF {
			if t.w == 32 {
				r = uint64(math.Float32bits(float32(sx(v, t.a.w))))
			} else {
				r = math.Float64bits(float64(sx(v, t.a.w)))
			}
		} else if t.w == 32 {
			r = uint64(math.Float32bits(float32(v)))
		} else {
			r = math.Float64bits(float64(v))
		}
	case OFToF:
		f := fval(&Term{w: t.a.w, k: e.eval(t.a)})
		if t.w == 32 {
			r = uint64(math.Float32bits(float32(f)))
		} else {
			r = math.Float64bits(f)
		}
	default:
		r = foldBin(t.op, t.w, e.eval(t.a), e.eval(t.b))
	}
	e.memo[t] = r
	return r
}

// ---- SMT-LIB printing ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.k != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.k)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.k)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// smtBody prints t's top operator with operands referred to through ref.
func smtBody(t *Term, ref func(*Term) string) string {
	fp := func(x *Term) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(x.w), ref(x)) }
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case ONot, OBNot:
		return fmt.Sprintf("(%s %s)", opName[t.op], ref(t.a))
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", ref(t.a), ref(t.b), ref(t.c))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, fp(t.a), fp(t.b))
	case OFLt, OFLe, OFEq:
		n := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.op]
		return fmt.Sprintf("(%s %s %s)", n, fp(t.a), fp(t.b))
	case OFToSI:
		x := fp(t.a)
		if t.a.w != 64 {
			panic("FToSI of float32 not printed")
		}
		conv := fmt.Sprintf("((_ fp.to_sbv 64) RTZ %s)", x)
		lo := "((_ to_fp 11 53) #xc3e0000000000000)"
		hi := "((_ to_fp 11 53) #x43e0000000000000)"
		full := fmt.Sprintf("(ite (and (fp.geq %s %s) (fp.lt %s %s)) %s #x8000000000000000)", x, lo, x, hi, conv)
		if t.w == 64 {
			return full
		}
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, full)
	case OFRnd:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral %s %s))", roundModes[t.k].name, fp(t.a))
	case OSIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), ref(t.a))
	case OUIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), ref(t.a))
	case OFToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), fp(t.a))
	}
	n, ok := opName[t.op]
	if !ok {
		panic(fmt.Sprintf("cannot print op %d", t.op))
	}
	return fmt.Sprintf("(%s %s %s)", n, ref(t.a), ref(t.b))
}

func usesFP(op Op) bool { return op >= OFAdd && op <= OFRnd }

func (t *Term) String() string {
	var sb strings.Builder
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > 60 {
			sb.WriteString("..")
			return
		}
		switch t.op {
		case OConst:
			if t.w == 0 {
				fmt.Fprintf(&sb, "%v", t.k != 0)
			} else {
				fmt.Fprintf(&sb, "%d", t.k)
			}
		case OVar:
			sb.WriteString(t.name)
		default:
			nm := opName[t.op]
			if nm == "" {
				nm = fmt.Sprintf("op%d", t.op)
			}
			if t.op == OExtract {
				nm = fmt.Sprintf("ext[%d+%d]", t.k, t.w)
			}
			sb.WriteString("(" + nm)
			for _, x := range []*Term{t.a, t.b, t.c} {
				if x != nil {
					sb.WriteByte(' ')
					rec(x)
				}
			}
			sb.WriteByte(')')
		}
	}
	rec(t)
	return sb.String()
}

// before is the canonical operand order; it does not depend on creation order, so that
// every worker builds the same terms.
func before(a, b *Term) bool {
	if a.h != b.h {
		return a.h < b.h
	}
	return a.id < b.id
}

// noOverflow: the product cannot exceed its width.
func noOverflow(t *Term) bool {
	hi, lo := bits.Mul64(t.a.mx, t.b.mx)
	return hi == 0 && lo <= mask(t.w)
}
