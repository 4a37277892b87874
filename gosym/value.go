package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integer, float scalars), string, *SymStr, *LazyStr,
// Ptr, SymPtr, Slice, *MapObj, Iface, *Closure, *Chan, Agg (struct/array), Tuple, iterators.
type Value = any

type Agg []Value   // flattened struct or array
type Tuple []Value // multi-value result

type Obj struct {
	slots []Value
	epoch int
	zero  []Value // per-element zero for sparse (symbolic length) objects
	frz   bool
	what  string
}

type Ptr struct {
	o   *Obj
	off int
}

// SymPtr addresses element idx (symbolic, already bounds checked) of a region.
type SymPtr struct {
	o    *Obj
	base int
	idx  *Term
	n    int
	esz  int
	fld  int // slot offset inside the element
}

type Slice struct {
	o      *Obj
	off    int
	ln, cp int
	sl     *Term // symbolic length (and capacity) when non-nil
	sc     *Term // symbolic capacity of a slice of concrete length when non-nil
}

type MapEnt struct {
	k, v    Value
	deleted bool
}

type MapObj struct {
	ents  []*MapEnt
	idx   map[any]*MapEnt
	symK  int // number of entries with a non-concrete key
	n     int
	epoch int
	kt    *RType
	vt    *RType
}

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	nat  func(w *Worker, args []Value) Value
	name string
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool

	sendq   []*chanItem
	waiting int  // goroutines blocked in a receive
	ticks   bool // a timer's: delivers at any time
	once    bool
}

type chanItem struct {
	v     Value
	taken bool
}

type SymStr struct {
	b     []*Term
	atoms bool
}

type LazyStr struct {
	f func() Value
	v Value
}

type RType struct {
	t     types.Type
	id    int
	lay   *Layout
	meths map[string]*ssa.Function
	name  string
}

type Layout struct {
	n    int
	zero []Value
	foff []int // struct field offsets
	fn   []int // struct field sizes
	esz  int   // array element size
}

var nilIface Value = Iface{}

func (w *Worker) rtype(t types.Type) *RType {
	if r, ok := w.rtypes[t]; ok {
		return r
	}
	t0 := t
	t = types.Unalias(t)
	if r := w.rcanon.At(t); r != nil {
		rr := r.(*RType)
		w.rtypes[t0] = rr
		return rr
	}
	r := &RType{t: t, id: w.rcanon.Len() + 1, meths: map[string]*ssa.Function{}, name: typeName(t)}
	w.rcanon.Set(t, r)
	w.rtypes[t0] = r
	return r
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0
}

func basicWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	panic(unsupported{fmt.Sprintf("basic type %v", b)})
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (w *Worker) layout(t types.Type) *Layout {
	if l, ok := w.layouts[t]; ok {
		return l
	}
	l := w.mkLayout(t)
	w.layouts[t] = l
	return l
}

func (w *Worker) mkLayout(t types.Type) *Layout {
	one := func(v Value) *Layout { return &Layout{n: 1, zero: []Value{v}} }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return one(Ptr{})
		case u.Info()&types.IsString != 0:
			return one("")
		case u.Kind() == types.UntypedNil:
			return one(Ptr{})
		case u.Info()&types.IsComplex != 0:
			return one(nil)
		}
		return one(w.tt.C(basicWidth(u), 0))
	case *types.Pointer:
		return one(Ptr{})
	case *types.Slice:
		return one(Slice{})
	case *types.Map:
		return one((*MapObj)(nil))
	case *types.Chan:
		return one((*Chan)(nil))
	case *types.Signature:
		return one((*Closure)(nil))
	case *types.Interface:
		return one(nilIface)
	case *types.TypeParam:
		panic(unsupported{"type parameter layout"})
	case *types.Struct:
		l := &Layout{}
		for i := 0; i < u.NumFields(); i++ {
			fl := w.layout(u.Field(i).Type())
			l.foff = append(l.foff, l.n)
			l.fn = append(l.fn, fl.n)
			l.n += fl.n
			l.zero = append(l.zero, fl.zero...)
		}
		return l
	case *types.Array:
		el := w.layout(u.Elem())
		n := int(u.Len())
		l := &Layout{n: n * el.n, esz: el.n}
		l.zero = make([]Value, 0, l.n)
		for i := 0; i < n; i++ {
			l.zero = append(l.zero, el.zero...)
		}
		return l
	case *types.Tuple:
		l := &Layout{n: 1}
		return l
	}
	panic(unsupported{fmt.Sprintf("layout of %v", t)})
}

func isAggT(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// pack turns slots into the register representation of type t.
func packV(t types.Type, s []Value) Value {
	if isAggT(t) {
		a := make(Agg, len(s))
		copy(a, s)
		return a
	}
	return s[0]
}

func (w *Worker) zeroV(t types.Type) Value {
	l := w.layout(t)
	if isAggT(t) {
		return Agg(l.zero)
	}
	return l.zero[0]
}

func (w *Worker) newObj(n int, what string) *Obj {
	return &Obj{slots: make([]Value, n), epoch: w.epoch, what: what}
}

func (w *Worker) newZero(t types.Type) *Obj {
	l := w.layout(t)
	o := w.newObj(l.n, "")
	copy(o.slots, l.zero)
	return o
}

type undoRec struct {
	o   *Obj
	off int
	v   Value
	m   *MapObj
	ms  *MapObj
	f   func()
}

func (w *Worker) setSlot(o *Obj, i int, v Value) {
	if o.epoch != w.epoch {
		w.undo = append(w.undo, undoRec{o: o, off: i, v: o.slots[i]})
	}
	o.slots[i] = v
}

func (w *Worker) touchMap(m *MapObj) {
	if m.epoch == w.epoch {
		return
	}
	c := *m
	c.ents = nil
	c.idx = map[any]*MapEnt{}
	for _, e := range m.ents {
		ne := *e
		c.ents = append(c.ents, &ne)
	}
	for k, e := range m.idx {
		for i, oe := range m.ents {
			if oe == e {
				c.idx[k] = c.ents[i]
			}
		}
	}
	w.undo = append(w.undo, undoRec{m: m, ms: &c})
	m.epoch = w.epoch
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		u := w.undo[i]
		switch {
		case u.f != nil:
			u.f()
		case u.m != nil:
			*u.m = *u.ms
		default:
			u.o.slots[u.off] = u.v
		}
	}
	w.undo = w.undo[:0]
}

// ---- strings ----

func (w *Worker) mkStr(b []*Term) Value {
	conc, atoms := true, false
	for _, t := range b {
		if !t.isConst() {
			conc = false
		}
		if t.isAtom() {
			atoms = true
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.k)
		}
		return string(bs)
	}
	return &SymStr{b, atoms}
}

func (w *Worker) force(v Value) Value {
	for {
		l, ok := v.(*LazyStr)
		if !ok {
			return v
		}
		if l.v == nil {
			l.v = l.f()
		}
		v = l.v
	}
}

// rawBytes gives the bytes of a string, possibly with atoms.
func (w *Worker) rawBytes(v Value) []*Term {
	switch s := w.force(v).(type) {
	case string:
		b := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = w.tt.C(8, uint64(s[i]))
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(unsupported{fmt.Sprintf("string value %T", v)})
}

// bytesOf gives the bytes with every atom expanded.
func (w *Worker) bytesOf(v Value) []*Term {
	b := w.rawBytes(v)
	has := false
	for _, t := range b {
		if t.isAtom() {
			has = true
			break
		}
	}
	if !has {
		return b
	}
	var r []*Term
	for _, t := range b {
		if t.isAtom() {
			r = append(r, w.expandAtom(t)...)
		} else {
			r = append(r, t)
		}
	}
	return r
}

// expand returns v with no atoms.
func (w *Worker) expand(v Value) Value {
	v = w.force(v)
	if s, ok := v.(*SymStr); ok && s.atoms {
		return w.mkStr(w.bytesOf(s))
	}
	return v
}

func (w *Worker) expandAtom(t *Term) []*Term {
	if r, ok := w.atomMemo[t]; ok {
		return r
	}
	if t.op == OAtomFn && t.name == "Duration" {
		r := w.bytesOf(w.callReal(w.durFn, []Value{t.a})) // the real formatting
		w.atomMemo[t] = r
		return r
	}
	if t.op != OItoaS && t.op != OItoaU {
		panic(unsupported{"expansion of opaque text"})
	}
	tt := w.tt
	a := t.a
	var r []*Term
	mag := a
	if t.op == OItoaS {
		if w.branch(tt.Slt(a, tt.C(a.w, 0))) {
			mag = tt.Neg(a)
			r = append(r, tt.C(8, '-'))
		}
	}
	if mag.w < 64 {
		mag = tt.Zext(mag, 64)
	}
	// number of digits
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if w.branch(tt.Ult(mag, tt.C(64, p))) {
			break
		}
		nd++
		if nd < 20 {
			p *= 10
		}
	}
	if mag.isConst() {
		for _, c := range fmt.Sprint(mag.k) {
			r = append(r, tt.C(8, uint64(c)))
		}
	} else {
		// fresh digits, defined by mag = sum d_i 10^i
		mv := w.evalModel(mag)
		sum := tt.C(64, 0)
		pw := uint64(1)
		ds := make([]*Term, nd)
		cons := tt.T
		for i := 0; i < nd; i++ {
			name := fmt.Sprintf("itoa!%x!%d", t.h, i)
			d := tt.Var(name, 4)
			w.setModel(name, mv/pw%10)
			cons = tt.And(cons, tt.Ule(d, tt.C(4, 9)))
			sum = tt.Bin(OAdd, sum, tt.Bin(OMul, tt.Zext(d, 64), tt.C(64, pw)))
			ds[nd-1-i] = tt.Concat(tt.C(4, 3), d)
			pw *= 10
		}
		w.addDef(tt.And(cons, tt.Eq(mag, sum)))
		r = append(r, ds...)
	}
	w.atomMemo[t] = r
	return r
}

func (w *Worker) strLen(v Value) int {
	switch s := w.force(v).(type) {
	case string:
		return len(s)
	case *SymStr:
		if !s.atoms {
			return len(s.b)
		}
		return len(w.bytesOf(s))
	}
	panic(unsupported{fmt.Sprintf("len of %T", v)})
}

func (w *Worker) concat(a, b Value) Value {
	a, b = w.force(a), w.force(b)
	if x, ok := a.(string); ok {
		if x == "" {
			return b
		}
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := w.rawBytes(a), w.rawBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return w.mkStr(r)
}

func (w *Worker) strEq(a, b Value) *Term {
	a, b = w.force(a), w.force(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return w.tt.Bool(x == y)
		}
	}
	x, y := w.rawBytes(a), w.rawBytes(b)
	// strip identical ends (atoms included), then expand
	for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	if len(x) == 0 && len(y) == 0 {
		return w.tt.T
	}
	if len(x) == 1 && len(y) == 1 && x[0].isAtom() && y[0].isAtom() && x[0].op == y[0].op && x[0].name == y[0].name && x[0].a.w == y[0].a.w {
		return w.tt.Eq(x[0].a, y[0].a)
	}
	if !hasAtoms(x) && !hasAtoms(y) && len(x) != len(y) {
		return w.tt.F
	}
	if len(x) == 0 && len(y) > 0 || len(y) == 0 && len(x) > 0 { // atoms are never empty
		return w.tt.F
	}
	x, y = w.bytesOf(&SymStr{x, hasAtoms(x)}), w.bytesOf(&SymStr{y, hasAtoms(y)})
	if len(x) != len(y) {
		return w.tt.F
	}
	r := w.tt.T
	for i := range x {
		e := w.tt.Eq(x[i], y[i])
		if e == w.tt.F {
			return e
		}
		r = w.tt.And(r, e)
	}
	return r
}

func hasAtoms(b []*Term) bool {
	for _, t := range b {
		if t.isAtom() {
			return true
		}
	}
	return false
}

func (w *Worker) strLess(a, b Value) *Term {
	a, b = w.force(a), w.force(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return w.tt.Bool(x < y)
		}
	}
	x, y := w.bytesOf(a), w.bytesOf(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := w.tt.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = w.tt.Ite(w.tt.Eq(x[i], y[i]), r, w.tt.Ult(x[i], y[i]))
	}
	return r
}

func (w *Worker) substr(v Value, lo, hi int) Value {
	switch s := w.expand(v).(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return w.mkStr(s.b[lo:hi])
	}
	panic("substr")
}

func strconcrete(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

// ---- equality ----

// eqV compares two values of static type t, as a term.
func (w *Worker) eqV(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.strEq(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return w.tt.FCmp(OFEq, a.(*Term), b.(*Term))
		}
		if x, ok := a.(*Term); ok {
			if y, ok := b.(*Term); ok {
				return w.tt.Eq(x, y)
			}
		}
		return w.ptrEq(a, b)
	case *types.Pointer:
		return w.ptrEq(a, b)
	case *types.Interface:
		return w.ifaceEq(a.(Iface), b.(Iface))
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		l := w.layout(t)
		r := w.tt.T
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if u.Field(i).Name() == "_" {
				continue
			}
			o, n := l.foff[i], l.fn[i]
			e := w.eqV(ft, packV(ft, x[o:o+n]), packV(ft, y[o:o+n]))
			if e == w.tt.F {
				return e
			}
			r = w.tt.And(r, e)
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		l := w.layout(t)
		r := w.tt.T
		for i := 0; i < int(u.Len()); i++ {
			e := w.eqV(u.Elem(), packV(u.Elem(), x[i*l.esz:(i+1)*l.esz]), packV(u.Elem(), y[i*l.esz:(i+1)*l.esz]))
			if e == w.tt.F {
				return e
			}
			r = w.tt.And(r, e)
		}
		return r
	case *types.Map:
		return w.tt.Bool(a.(*MapObj) == b.(*MapObj))
	case *types.Chan:
		return w.tt.Bool(a.(*Chan) == b.(*Chan))
	case *types.Signature:
		return w.tt.Bool(a.(*Closure) == b.(*Closure))
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		return w.tt.Bool(x.o == nil && y.o == nil && x.sl == nil && y.sl == nil)
	}
	panic(unsupported{fmt.Sprintf("== on %v", t)})
}

func (w *Worker) ptrEq(a, b Value) *Term {
	x, ok1 := a.(Ptr)
	y, ok2 := b.(Ptr)
	if !ok1 || !ok2 {
		panic(unsupported{"comparison of symbolic pointers"})
	}
	return w.tt.Bool(x == y)
}

func (w *Worker) ifaceEq(a, b Iface) *Term {
	if a.t != b.t {
		return w.tt.F
	}
	if a.t == nil {
		return w.tt.T
	}
	if !types.Comparable(a.t.t) {
		w.goPanicErr("comparing uncomparable type " + a.t.name)
	}
	return w.eqV(a.t.t, a.v, b.v)
}

// ---- maps ----

// concKey returns a hashable Go key if v is fully concrete.
func (w *Worker) concKey(t types.Type, v Value) (any, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return x.k, true
		}
	case string:
		return x, true
	case Ptr:
		return x, true
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		k, ok := w.concKey(x.t.t, x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t.id, k}, true
	case Agg:
		var sb strings.Builder
		for _, e := range x {
			k, ok := w.concKey(nil, e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "agg:" + sb.String(), true
	case *LazyStr:
		return w.concKey(t, w.force(x))
	}
	return nil, false
}

func (w *Worker) newMap(kt, vt types.Type) *MapObj {
	return &MapObj{idx: map[any]*MapEnt{}, epoch: w.epoch, kt: w.rtype(kt), vt: w.rtype(vt)}
}

func (w *Worker) mapFind(m *MapObj, k Value) *MapEnt {
	if m == nil {
		return nil
	}
	k = w.force(k)
	ck, conc := w.concKey(m.kt.t, k)
	if conc && !isFloat(m.kt.t) {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.symK == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if conc {
			if _, c := w.concKey(m.kt.t, e.k); c {
				continue
			}
		}
		if w.branch(w.eqV(m.kt.t, e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *MapObj, k, v Value) {
	k = w.force(k)
	w.touchMap(m)
	if e := w.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &MapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := w.concKey(m.kt.t, k); ok {
		m.idx[ck] = e
	} else {
		m.symK++
	}
}

func (w *Worker) mapDelete(m *MapObj, k Value) {
	if m == nil {
		return
	}
	w.touchMap(m)
	if e := w.mapFind(m, k); e != nil {
		e.deleted = true
		m.n--
		if ck, ok := w.concKey(m.kt.t, e.k); ok {
			delete(m.idx, ck)
		} else {
			m.symK--
		}
		var ne []*MapEnt
		for _, x := range m.ents {
			if x != e {
				ne = append(ne, x)
			}
		}
		m.ents = ne
	}
}

// ---- memory ----

func (w *Worker) loadN(p Ptr, t types.Type) Value {
	if p.o == nil {
		w.nilDeref()
	}
	if isAggT(t) {
		n := w.layout(t).n
		a := make(Agg, n)
		w.readSlots(p.o, p.off, a)
		return a
	}
	return w.slotAt(p.o, p.off)
}

func (w *Worker) slotAt(o *Obj, i int) Value {
	if i < len(o.slots) {
		return o.slots[i]
	}
	if o.zero != nil {
		return o.zero[i%len(o.zero)]
	}
	panic(unsupported{fmt.Sprintf("read past object end (%d of %d)", i, len(o.slots))})
}

func (w *Worker) readSlots(o *Obj, off int, dst []Value) {
	if off+len(dst) <= len(o.slots) {
		copy(dst, o.slots[off:])
		return
	}
	for i := range dst {
		dst[i] = w.slotAt(o, off+i)
	}
}

func (w *Worker) storeN(p Ptr, v Value) {
	if p.o == nil {
		w.nilDeref()
	}
	if a, ok := v.(Agg); ok {
		w.growTo(p.o, p.off+len(a))
		for i, x := range a {
			w.setSlot(p.o, p.off+i, x)
		}
		return
	}
	w.growTo(p.o, p.off+1)
	w.setSlot(p.o, p.off, v)
}

func (w *Worker) growTo(o *Obj, n int) {
	if n <= len(o.slots) {
		return
	}
	if o.zero == nil {
		panic(unsupported{fmt.Sprintf("write past object end (%d of %d) %s", n, len(o.slots), o.what)})
	}
	if n > 1<<22 {
		panic(unsupported{"sparse object too large"})
	}
	for len(o.slots) < n {
		o.slots = append(o.slots, o.zero[len(o.slots)%len(o.zero)])
	}
}

// loadSym reads through a symbolic element index by building an ite chain.
func (w *Worker) loadSym(p SymPtr, t types.Type) Value {
	n := w.layout(t).n
	var out Agg
	for s := 0; s < n; s++ {
		var acc *Term
		// group runs of equal values
		type run struct {
			hi int
			v  *Term
		}
		var runs []run
		ok := true
		for i := 0; i < p.n; i++ {
			v, is := w.slotAt(p.o, p.base+i*p.esz+p.fld+s).(*Term)
			if !is {
				ok = false
				break
			}
			if len(runs) > 0 && runs[len(runs)-1].v == v {
				runs[len(runs)-1].hi = i
			} else {
				runs = append(runs, run{i, v})
			}
		}
		if !ok {
			i := int(w.concretize(p.idx))
			return w.loadN(Ptr{p.o, p.base + i*p.esz + p.fld}, t)
		}
		for i := len(runs) - 1; i >= 0; i-- {
			if acc == nil {
				acc = runs[i].v
			} else {
				acc = w.tt.Ite(w.tt.Ule(p.idx, w.tt.C(p.idx.w, uint64(runs[i].hi))), runs[i].v, acc)
			}
		}
		out = append(out, acc)
	}
	if isAggT(t) {
		return out
	}
	return out[0]
}

func (w *Worker) load(p Value, t types.Type) Value {
	switch q := p.(type) {
	case Ptr:
		return w.loadN(q, t)
	case SymPtr:
		return w.loadSym(q, t)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (w *Worker) store(p Value, v Value) {
	switch q := p.(type) {
	case Ptr:
		w.storeN(q, v)
		return
	case SymPtr:
		i := int(w.concretize(q.idx))
		w.storeN(Ptr{q.o, q.base + i*q.esz + q.fld}, v)
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

// sliceBytes returns the terms of a []byte.
func (w *Worker) sliceBytes(s Slice) []*Term {
	n := w.sliceLen(s)
	r := make([]*Term, n)
	for i := 0; i < n; i++ {
		r[i] = w.slotAt(s.o, s.off+i).(*Term)
	}
	return r
}

func (w *Worker) sliceLen(s Slice) int {
	if s.sl != nil {
		return int(w.concretize(s.sl))
	}
	return s.ln
}

func (w *Worker) bytesSlice(b []*Term) Slice {
	o := w.newObj(len(b), "bytes")
	for i, t := range b {
		o.slots[i] = t
	}
	return Slice{o: o, ln: len(b), cp: len(b)}
}

func (w *Worker) strSlice(ss []Value) Slice {
	o := w.newObj(len(ss), "strings")
	copy(o.slots, ss)
	return Slice{o: o, ln: len(ss), cp: len(ss)}
}
