package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "github.com/danielleontiev/neojhat/internal/zzverif/sym"

// skipInit lists packages whose initialisers are not executed.
var skipInit = map[string]bool{
	"os": true, "runtime": true, "syscall": true, "reflect": true, "sync": true, "sync/atomic": true,
	"internal/cpu": true, "internal/godebug": true, "internal/godebugs": true, "internal/poll": true,
	"internal/testlog": true, "internal/reflectlite": true, "internal/bytealg": true, "internal/abi": true,
	"encoding/gob": true, "html/template": true, "text/template": true, "fmt": true, "log": true,
	"math/rand": true, "math/rand/v2": true, "testing": true, "internal/runtime/atomic": true,
	"unsafe": true, "net/url": true, "encoding/json": true, "runtime/debug": true, "os/signal": true,
	"internal/syscall/unix": true, "internal/syscall/execenv": true, "embed": true, "text/template/parse": true,
	"context": false, "path/filepath": false, "internal/filepathlite": true, "net/http": true, "log/slog": true,
	"sort": false, symPkg: true,
}

func (w *Worker) specialInit(p *ssa.Package) {}

func (w *Worker) presetGlobal(g *ssa.Global, o *Obj) {
	switch g.String() {
	case "os.Stdout":
		o.slots[0] = Ptr{w.stdout, 0}
	case "os.Stderr":
		o.slots[0] = Ptr{w.stderr, 0}
	case "os.Args":
		o.slots[0] = Slice{o: &Obj{slots: []Value{"neojhat"}}, ln: 1, cp: 1}
	case "os.ErrInvalid", "os.ErrPermission", "os.ErrExist", "os.ErrNotExist", "os.ErrClosed":
		if q := w.ex.prog.ImportedPackage("io/fs"); q != nil {
			if v, ok := q.Members[g.Name()].(*ssa.Global); ok {
				o.slots[0] = w.global(v).slots[0]
			}
		}
	case "internal/bytealg.MaxLen":
		o.slots[0] = w.tt.C(64, 63)
	case "time.UTC", "time.Local":
	}
}

// embeds maps a global's full name to its go:embed content (loaded by the driver).
var embeds = map[string][]byte{}

func (w *Worker) loadEmbeds(p *ssa.Package) {
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		b, ok := embeds[g.String()]
		if !ok {
			continue
		}
		o := w.globals[g]
		if o == nil {
			continue
		}
		w.setEmbed(g, o, b)
	}
}

func (w *Worker) setEmbed(g *ssa.Global, o *Obj, b []byte) {
	switch g.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Basic:
		o.slots[0] = string(b)
	case *types.Slice:
		s := make([]*Term, len(b))
		for i, c := range b {
			s[i] = w.tt.C(8, uint64(c))
		}
		e := w.epoch
		w.epoch = 0
		o.slots[0] = w.bytesSlice(s)
		w.epoch = e
	}
}

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == symPkg {
		if i, ok := symIntr[f.Name()]; ok && f.Signature.Recv() == nil {
			return i
		}
	}
	return nil
}

func nop(w *Worker, fn *ssa.Function, a []Value) Value { return w.zeroResult(fn) }

func (w *Worker) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return w.zeroV(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = w.zeroV(r.At(i).Type())
	}
	return t
}

func arg0(w *Worker, fn *ssa.Function, a []Value) Value { return a[0] }

func unsup(msg string) intrinsic {
	return func(w *Worker, fn *ssa.Function, a []Value) Value { panic(unsupported{msg}) }
}

func (w *Worker) i64(n int) *Term { return w.tt.C(64, uint64(n)) }

// varargs gives the elements of a ...any slice.
func (w *Worker) varargs(v Value) []Iface {
	s := v.(Slice)
	r := make([]Iface, s.ln)
	for i := range r {
		r[i] = w.slotAt(s.o, s.off+i).(Iface)
	}
	return r
}

func (w *Worker) isStdout(v Value) (bool, bool) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	p, ok := v.(Ptr)
	if !ok || p.o == nil {
		return false, false
	}
	if p.o == w.stdout {
		return true, true
	}
	return p.o == w.stderr, false
}

func (w *Worker) emitStdout(v Value) {
	if w.out != nil {
		*w.out = append(*w.out, w.rawBytes(v)...)
	}
}

// writeTo writes a string to an io.Writer; returns (n, err).
func (w *Worker) writeTo(dst Value, s Value) Value {
	i := dst.(Iface)
	if i.t == nil {
		w.nilDeref()
	}
	if std, out := w.isStdout(dst); std {
		if out {
			w.emitStdout(s)
		}
		return Tuple{w.i64(0), nilIface}
	}
	if i.t.name == "*strings.Builder" {
		w.sbAppend(i.v.(Ptr), s)
		return Tuple{w.i64(0), nilIface}
	}
	b := w.bytesSlice(w.bytesOf(s))
	return w.invokeByName(i, "Write", b)
}

// strings.Builder is held natively: the slot of its buf field keeps a string value.
func (w *Worker) sbGet(p Ptr) Value {
	if p.o == nil {
		w.nilDeref()
	}
	v := w.slotAt(p.o, p.off+1)
	if _, ok := v.(Slice); ok {
		return ""
	}
	return v
}

func (w *Worker) sbAppend(p Ptr, s Value) {
	w.setSlot(p.o, p.off+1, w.concat(w.sbGet(p), s))
}

func (w *Worker) findByte(b []*Term, c *Term) int {
	for i, t := range b {
		if w.branch(w.tt.Eq(t, c)) {
			return i
		}
	}
	return -1
}

func (w *Worker) matchAt(b, sub []*Term) *Term {
	r := w.tt.T
	for i, t := range sub {
		r = w.tt.And(r, w.tt.Eq(b[i], t))
		if r == w.tt.F {
			break
		}
	}
	return r
}

func (w *Worker) findSub(b, sub []*Term) int {
	for i := 0; i+len(sub) <= len(b); i++ {
		if w.branch(w.matchAt(b[i:], sub)) {
			return i
		}
	}
	return -1
}

func (w *Worker) countByte(b []*Term, c *Term) int {
	n := 0
	for _, t := range b {
		if w.branch(w.tt.Eq(t, c)) {
			n++
		}
	}
	return n
}

func (w *Worker) anyBytes(v Value) []*Term {
	if s, ok := v.(Slice); ok {
		return w.sliceBytes(s)
	}
	return w.bytesOf(v)
}

func init() {
	idx := func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.i64(w.findSub(w.anyBytes(a[0]), w.anyBytes(a[1])))
	}
	idxB := func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.i64(w.findByte(w.anyBytes(a[0]), a[1].(*Term)))
	}
	cntB := func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.i64(w.countByte(w.anyBytes(a[0]), a[1].(*Term)))
	}
	eqB := func(w *Worker, fn *ssa.Function, a []Value) Value {
		x, y := w.anyBytes(a[0]), w.anyBytes(a[1])
		if len(x) != len(y) {
			return w.tt.F
		}
		return w.matchAt(x, y)
	}
	cmpB := func(w *Worker, fn *ssa.Function, a []Value) Value {
		x, y := w.mkStr(w.anyBytes(a[0])), w.mkStr(w.anyBytes(a[1]))
		lt, eq := w.strLess(x, y), w.strEq(x, y)
		return w.tt.Ite(lt, w.tt.C(64, ^uint64(0)), w.tt.Ite(eq, w.i64(0), w.i64(1)))
	}
	atomicLoad := func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.load(a[0], fn.Signature.Results().At(0).Type())
	}
	atomicStore := func(w *Worker, fn *ssa.Function, a []Value) Value { w.store(a[0], a[1]); return nil }
	atomicAdd := func(w *Worker, fn *ssa.Function, a []Value) Value {
		v := w.tt.Bin(OAdd, w.load(a[0], fn.Signature.Results().At(0).Type()).(*Term), a[1].(*Term))
		w.store(a[0], v)
		return v
	}
	atomicCAS := func(w *Worker, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Params().At(1).Type()
		cur := w.load(a[0], t)
		if w.branch(w.eqV(t, cur, a[1])) {
			w.store(a[0], a[2])
			return w.tt.T
		}
		return w.tt.F
	}
	atomicSwap := func(w *Worker, fn *ssa.Function, a []Value) Value {
		cur := w.load(a[0], fn.Signature.Params().At(1).Type())
		w.store(a[0], a[1])
		return cur
	}
	intrinsics = map[string]intrinsic{
		"flag.isZeroValue":           isZeroFlag,
		zzPath + "mflag.isZeroValue": isZeroFlag,
		"fmt.Sprintf": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.sprintf(a[0], w.varargs(a[1]), nil)
		},
		"fmt.Sprint":   func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sprint(w.varargs(a[0])) },
		"fmt.Sprintln": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sprintln(w.varargs(a[0])) },
		"fmt.Errorf":   errorfI,
		"fmt.Fprintf": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.writeTo(a[0], w.sprintf(a[1], w.varargs(a[2]), nil))
		},
		"fmt.Fprint": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.writeTo(a[0], w.sprint(w.varargs(a[1])))
		},
		"fmt.Fprintln": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.writeTo(a[0], w.sprintln(w.varargs(a[1])))
		},
		"fmt.Printf": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.emitStdout(w.sprintf(a[0], w.varargs(a[1]), nil))
			return Tuple{w.i64(0), nilIface}
		},
		"fmt.Print": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.emitStdout(w.sprint(w.varargs(a[0])))
			return Tuple{w.i64(0), nilIface}
		},
		"fmt.Println": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.emitStdout(w.sprintln(w.varargs(a[0])))
			return Tuple{w.i64(0), nilIface}
		},
		"fmt.Append": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.bytesSlice(append(append([]*Term{}, w.sliceBytes(a[0].(Slice))...), w.bytesOf(w.sprint(w.varargs(a[1])))...))
		},
		"fmt.Appendf": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.bytesSlice(append(append([]*Term{}, w.sliceBytes(a[0].(Slice))...), w.bytesOf(w.sprintf(a[1], w.varargs(a[2]), nil))...))
		},
		"io.WriteString": func(w *Worker, fn *ssa.Function, a []Value) Value {
			n := w.strLen(a[1])
			r := w.writeTo(a[0], a[1]).(Tuple)
			if r[1].(Iface).t == nil {
				return Tuple{w.i64(n), nilIface}
			}
			return r
		},
		"(*os.File).Write": func(w *Worker, fn *ssa.Function, a []Value) Value {
			if std, out := w.isStdout(a[0]); std {
				b := w.sliceBytes(a[1].(Slice))
				if out {
					w.emitStdout(w.mkStr(b))
				}
				return Tuple{w.i64(len(b)), nilIface}
			}
			panic(unsupported{"os.File.Write on a real file"})
		},
		"(*os.File).WriteString": func(w *Worker, fn *ssa.Function, a []Value) Value {
			if std, out := w.isStdout(a[0]); std {
				if out {
					w.emitStdout(a[1])
				}
				return Tuple{w.i64(0), nilIface}
			}
			panic(unsupported{"os.File.WriteString on a real file"})
		},
		"(*os.File).Sync":  nop,
		"(*os.File).Close": nop,
		"os.Getenv":        nop,
		"os.Exit":          unsup("os.Exit"),
		"strconv.Itoa": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.itoa(a[0].(*Term), true)
		},
		"strconv.FormatInt": func(w *Worker, fn *ssa.Function, a []Value) Value {
			b := a[1].(*Term)
			if b.isConst() && b.k == 10 {
				return w.itoa(a[0].(*Term), true)
			}
			panic(unsupported{"FormatInt base"})
		},
		"strconv.FormatUint": func(w *Worker, fn *ssa.Function, a []Value) Value {
			b := a[1].(*Term)
			if b.isConst() && b.k == 10 {
				return w.itoa(a[0].(*Term), false)
			}
			panic(unsupported{"FormatUint base"})
		},
		"strconv.FormatFloat": func(w *Worker, fn *ssa.Function, a []Value) Value {
			f := a[0].(*Term)
			v := w.concretize(f)
			return fmtFloat(fval(w.tt.C(64, v)), byte(w.concretize(a[1].(*Term))), int(int64(w.concretize(a[2].(*Term)))), int(w.concretize(a[3].(*Term))))
		},
		"strings.Repeat": func(w *Worker, fn *ssa.Function, a []Value) Value {
			n := int64(w.concretize(a[1].(*Term)))
			if n < 0 {
				w.goPanicStr("strings: negative Repeat count")
			}
			b := w.rawBytes(a[0])
			if n*int64(len(b)) > 1<<20 {
				panic(unsupported{"huge strings.Repeat"})
			}
			r := make([]*Term, 0, len(b)*int(n))
			for i := int64(0); i < n; i++ {
				r = append(r, b...)
			}
			return w.mkStr(r)
		},
		"strings.ReplaceAll": func(w *Worker, fn *ssa.Function, a []Value) Value {
			o, ok1 := w.force(a[1]).(string)
			n, ok2 := w.force(a[2]).(string)
			if !ok1 || !ok2 {
				panic(unsupported{"ReplaceAll with symbolic pattern"})
			}
			if len(o) == 1 && len(n) == 1 {
				b := w.rawBytes(a[0])
				r := make([]*Term, len(b))
				oc := w.tt.C(8, uint64(o[0]))
				nc := w.tt.C(8, uint64(n[0]))
				for i, t := range b {
					if t.isAtom() {
						if o[0] == '-' || o[0] >= '0' && o[0] <= '9' {
							return w.replaceGen(a[0], o, n)
						}
						r[i] = t
						continue
					}
					r[i] = w.tt.Ite(w.tt.Eq(t, oc), nc, t)
				}
				return w.mkStr(r)
			}
			return w.replaceGen(a[0], o, n)
		},
		"strings.Join": func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := a[0].(Slice)
			var r Value = ""
			for i := 0; i < s.ln; i++ {
				if i > 0 {
					r = w.concat(r, a[1])
				}
				r = w.concat(r, w.slotAt(s.o, s.off+i))
			}
			return r
		},
		"strings.Clone": arg0,
		"(*strings.Builder).WriteString": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.sbAppend(a[0].(Ptr), a[1])
			return Tuple{w.tt.C(64, uint64(len(w.rawBytes(a[1])))), nilIface}
		},
		"(*strings.Builder).WriteByte": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.sbAppend(a[0].(Ptr), w.mkStr([]*Term{a[1].(*Term)}))
			return nilIface
		},
		"(*strings.Builder).WriteRune": func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := w.runeToStr(a[1].(*Term), true)
			w.sbAppend(a[0].(Ptr), s)
			return Tuple{w.i64(w.strLen(s)), nilIface}
		},
		"(*strings.Builder).Write": func(w *Worker, fn *ssa.Function, a []Value) Value {
			b := w.sliceBytes(a[1].(Slice))
			w.sbAppend(a[0].(Ptr), w.mkStr(b))
			return Tuple{w.i64(len(b)), nilIface}
		},
		"(*strings.Builder).String": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.sbGet(a[0].(Ptr)) },
		"(*strings.Builder).Len": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.i64(w.strLen(w.sbGet(a[0].(Ptr))))
		},
		"(*strings.Builder).Cap": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.i64(w.strLen(w.sbGet(a[0].(Ptr))))
		},
		"(*strings.Builder).Reset": func(w *Worker, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			w.setSlot(p.o, p.off+1, Slice{})
			return nil
		},
		"(*strings.Builder).Grow": nop,

		"strings.Index": idx, "bytes.Index": idx, "internal/stringslite.Index": idx,
		"internal/bytealg.Index": idx, "internal/bytealg.IndexString": idx,
		"strings.IndexByte": idxB, "bytes.IndexByte": idxB, "internal/stringslite.IndexByte": idxB,
		"internal/bytealg.IndexByte": idxB, "internal/bytealg.IndexByteString": idxB,
		"internal/bytealg.Count": cntB, "internal/bytealg.CountString": cntB,
		"internal/bytealg.Equal": eqB, "bytes.Equal": eqB,
		"internal/bytealg.Compare": cmpB, "internal/bytealg.CompareString": cmpB, "bytes.Compare": cmpB,
		"strings.Compare": cmpB,
		"strings.HasPrefix": func(w *Worker, fn *ssa.Function, a []Value) Value {
			x, y := w.rawBytes(a[0]), w.rawBytes(a[1])
			if hasAtoms(x) || hasAtoms(y) {
				x, y = w.bytesOf(a[0]), w.bytesOf(a[1])
			}
			if len(x) < len(y) {
				return w.tt.F
			}
			return w.matchAt(x[:len(y)], y)
		},
		"strings.HasSuffix": func(w *Worker, fn *ssa.Function, a []Value) Value {
			x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
			if len(x) < len(y) {
				return w.tt.F
			}
			return w.matchAt(x[len(x)-len(y):], y)
		},
		"internal/bytealg.MakeNoZero": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.makeSlice(fn.Signature.Results().At(0).Type(), types.Typ[types.Int], types.Typ[types.Int], a[0].(*Term), a[0].(*Term))
		},
		"internal/abi.NoEscape": arg0, "internal/abi.Escape": arg0, "strings.noescape": arg0,
		"internal/strconv.noescape": arg0,

		"sync/atomic.LoadInt32": atomicLoad, "sync/atomic.LoadInt64": atomicLoad, "sync/atomic.LoadUint32": atomicLoad,
		"sync/atomic.LoadUint64": atomicLoad, "sync/atomic.LoadPointer": atomicLoad, "sync/atomic.LoadUintptr": atomicLoad,
		"sync/atomic.StoreInt32": atomicStore, "sync/atomic.StoreInt64": atomicStore, "sync/atomic.StoreUint32": atomicStore,
		"sync/atomic.StoreUint64": atomicStore, "sync/atomic.StorePointer": atomicStore,
		"sync/atomic.AddInt32": atomicAdd, "sync/atomic.AddInt64": atomicAdd, "sync/atomic.AddUint32": atomicAdd, "sync/atomic.AddUint64": atomicAdd,
		"sync/atomic.CompareAndSwapInt32": atomicCAS, "sync/atomic.CompareAndSwapInt64": atomicCAS, "sync/atomic.CompareAndSwapUint32": atomicCAS,
		"sync/atomic.CompareAndSwapPointer": atomicCAS, "sync/atomic.CompareAndSwapUint64": atomicCAS,
		"sync/atomic.SwapInt32": atomicSwap, "sync/atomic.SwapInt64": atomicSwap, "sync/atomic.SwapUint32": atomicSwap, "sync/atomic.SwapPointer": atomicSwap,

		"(*sync.Once).Do": func(w *Worker, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			if w.side == nil {
				w.side = map[string]any{}
			}
			done, _ := w.side["once"].(map[Ptr]bool)
			if done == nil {
				done = map[Ptr]bool{}
				w.side["once"] = done
			}
			if !done[p] {
				done[p] = true
				w.callClosure(a[1].(*Closure), nil)
			}
			return nil
		},
		"(*sync.Pool).Put": nop,
		"(*sync.Pool).Get": func(w *Worker, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			st := fn.Signature.Recv().Type().(*types.Pointer).Elem()
			l := w.layout(st)
			u := st.Underlying().(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "New" {
					c, _ := w.slotAt(p.o, p.off+l.foff[i]).(*Closure)
					if c == nil {
						return nilIface
					}
					return w.callClosure(c, nil)
				}
			}
			return nilIface
		},
		"runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.SetFinalizer": nop,
		"internal/race.Acquire": nop, "internal/race.Enable": nop, "internal/race.Disable": nop,
		"(time.Time).Sub": func(w *Worker, fn *ssa.Function, a []Value) Value {
			// t-u is the difference in nanoseconds unless it overflows; the real code finds
			// that out by adding it back, which costs a 64-bit division
			pk := fn.Pkg
			sec := pk.Prog.LookupMethod(types.NewPointer(fn.Signature.Recv().Type()), pk.Pkg, "sec")
			nsec := pk.Prog.LookupMethod(types.NewPointer(fn.Signature.Recv().Type()), pk.Pkg, "nsec")
			if sec == nil || nsec == nil {
				return w.callReal(fn, a)
			}
			get := func(m *ssa.Function, v Value) *Term {
				o := w.newObj(w.layout(fn.Signature.Recv().Type()).n, "time")
				w.storeN(Ptr{o, 0}, v)
				return w.callFn(m, []Value{Ptr{o, 0}}, nil).(*Term)
			}
			for _, v := range a {
				wall := v.(Agg)[0].(*Term)
				if b := w.tt.Extract(wall, 63, 1); !b.isConst() || b.k != 0 {
					return w.callReal(fn, a)
				}
			}
			ds := w.tt.Bin(OSub, get(sec, a[0]), get(sec, a[1]))
			const lim = 9223372035
			if !w.branch(w.tt.And(w.tt.Slt(ds, w.tt.C(64, lim)), w.tt.Slt(w.tt.Neg(w.tt.C(64, lim)), ds))) {
				return w.callReal(fn, a)
			}
			dn := w.tt.Bin(OSub, w.tt.Sext(get(nsec, a[0]), 64), w.tt.Sext(get(nsec, a[1]), 64))
			return w.tt.Bin(OAdd, w.tt.Bin(OMul, ds, w.tt.C(64, 1000000000)), dn)
		},
		"(time.Duration).String": func(w *Worker, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return time.Duration(t.k).String()
			}
			w.durFn = fn
			return w.mkStr([]*Term{w.tt.Atom("Duration", t)})
		},
		"time.initLocal":   nop,
		"time.Now":         unsup("time.Now"),
		"time.runtimeNano": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.i64(1) },
		"time.runtimeNow":  unsup("time.Now"),
		"internal/godebug.New": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return Ptr{w.newZero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()), 0}
		},
		"(*internal/godebug.Setting).Value":         nop,
		"(*internal/godebug.Setting).IncNonDefault": nop,

		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"reflect.DeepEqual": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.deepEq(a[0], a[1], false, 0)
		},
		"internal/reflectlite.TypeOf": unsup("reflectlite.TypeOf"),
		"errors.Is": func(w *Worker, fn *ssa.Function, a []Value) Value {
			t := a[1].(Iface)
			if a[0].(Iface).t == nil || t.t == nil {
				return w.tt.Bool(a[0].(Iface).t == t.t)
			}
			cmp := types.Comparable(t.t.t)
			r := w.tt.F
			w.errChain(a[0].(Iface), func(e Iface) bool {
				if cmp && e.t == t.t && w.branch(w.eqV(e.t.t, e.v, t.v)) {
					r = w.tt.T
					return true
				}
				if m := w.methodByName(e.t, "Is"); m != nil && sigIs(m, 1, 1) {
					if w.branch(w.callFn(m, []Value{e.v, t}, nil).(*Term)) {
						r = w.tt.T
						return true
					}
				}
				return false
			})
			return r
		},
		"errors.As": func(w *Worker, fn *ssa.Function, a []Value) Value {
			t := a[1].(Iface)
			if t.t == nil {
				w.goPanicStr("errors: target cannot be nil")
			}
			p, ok := t.t.t.Underlying().(*types.Pointer)
			if !ok {
				w.goPanicStr("errors: target must be a non-nil pointer")
			}
			el := p.Elem()
			it, isI := el.Underlying().(*types.Interface)
			r := w.tt.F
			w.errChain(a[0].(Iface), func(e Iface) bool {
				if isI && w.implCached(e.t, el, it) {
					w.store(t.v, e)
				} else if !isI && e.t == w.rtype(el) {
					w.storeN(t.v.(Ptr), e.v)
				} else if m := w.methodByName(e.t, "As"); m == nil || !sigIs(m, 1, 1) || !w.branch(w.callFn(m, []Value{e.v, t}, nil).(*Term)) {
					return false
				}
				r = w.tt.T
				return true
			})
			return r
		},
		"math.Float64bits": arg0, "math.Float64frombits": arg0, "math.Float32bits": arg0, "math.Float32frombits": arg0,
		"math.Floor": roundTo(0), "math.Ceil": roundTo(1), "math.Trunc": roundTo(2), "math.Round": roundTo(3), "math.RoundToEven": roundTo(4),
		"encoding/binary.Read":    binaryRead,
		"(*bufio.Reader).Discard": bufioDiscard,
		"io.copyBuffer":           ioCopyBuffer,
		"maps.clone": func(w *Worker, fn *ssa.Function, a []Value) Value {
			in := a[0].(Iface)
			m, _ := in.v.(*MapObj)
			if m == nil {
				return in
			}
			n := &MapObj{idx: map[any]*MapEnt{}, epoch: w.epoch, kt: m.kt, vt: m.vt, symK: m.symK, n: m.n}
			for _, e := range m.ents {
				if e.deleted {
					continue
				}
				c := &MapEnt{k: e.k, v: e.v}
				n.ents = append(n.ents, c)
				if ck, ok := w.concKey(m.kt.t, c.k); ok {
					n.idx[ck] = c
				}
			}
			return Iface{in.t, n}
		},

		"encoding/gob.Register":          gobRegister,
		"encoding/gob.RegisterName":      func(w *Worker, fn *ssa.Function, a []Value) Value { return gobRegister(w, fn, a[1:]) },
		"encoding/gob.NewEncoder":        gobNew,
		"encoding/gob.NewDecoder":        gobNew,
		"(*encoding/gob.Encoder).Encode": gobEncode,
		"(*encoding/gob.Decoder).Decode": gobDecode,
	}
	addTemplateIntrinsics()
	for k, v := range concIntrinsics {
		intrinsics[k] = v
	}
}

func (w *Worker) goPanicStr(s string) {
	panic(&goPanic{v: Iface{w.rtype(types.Typ[types.String]), s}, text: s})
}

func (w *Worker) replaceGen(s Value, o, n string) Value {
	if o == "" {
		panic(unsupported{"ReplaceAll with empty pattern"})
	}
	b := w.bytesOf(s)
	ob := w.rawBytes(o)
	nb := w.rawBytes(n)
	var r []*Term
	for i := 0; i < len(b); {
		if i+len(ob) <= len(b) && w.branch(w.matchAt(b[i:], ob)) {
			r = append(r, nb...)
			i += len(ob)
			continue
		}
		r = append(r, b[i])
		i++
	}
	return w.mkStr(r)
}

func (w *Worker) itoa(t *Term, signed bool) Value {
	if t.isConst() {
		if signed {
			return fmt.Sprint(sx(t.k, t.w))
		}
		return fmt.Sprint(t.k)
	}
	return &SymStr{[]*Term{w.tt.Itoa(t, signed)}, true}
}

// bufioDiscard summarises Discard for a symbolic count when the underlying reader can
// account for a symbolic skip itself (method SymSkip) and nothing is buffered.
func bufioDiscard(w *Worker, fn *ssa.Function, a []Value) Value {
	n := a[1].(*Term)
	p := a[0].(Ptr)
	if p.o != nil && !n.isConst() {
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		l := w.layout(st)
		u := st.Underlying().(*types.Struct)
		fld := func(name string) Value {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					return w.slotAt(p.o, p.off+l.foff[i])
				}
			}
			return nil
		}
		rd, ok := fld("rd").(Iface)
		r, ok2 := fld("r").(*Term)
		wr, ok3 := fld("w").(*Term)
		if ok && ok2 && ok3 && rd.t != nil && r.isConst() && wr.isConst() && w.methodByName(rd.t, "SymSkip") != nil {
			if w.branch(w.tt.Slt(n, w.i64(0))) {
				return Tuple{w.i64(0), w.mkError("bufio: negative count")}
			}
			buf := w.tt.Bin(OSub, wr, r)
			if w.branch(w.tt.Sle(n, buf)) {
				return w.callReal(fn, []Value{a[0], w.tt.C(64, w.concretize(n))})
			}
			w.ex.limit("summary:bufio.Discard", "bufio.Reader.Discard with a symbolic count is summarised as dropping the buffer and skipping the rest of that many bytes of the underlying reader")
			for i := 0; i < u.NumFields(); i++ {
				switch u.Field(i).Name() {
				case "lastByte", "lastRuneSize":
					w.setSlot(p.o, p.off+l.foff[i], w.tt.C(64, ^uint64(0)))
				case "r":
					w.setSlot(p.o, p.off+l.foff[i], wr)
				}
			}
			t := w.invokeByName(rd, "SymSkip", w.tt.Bin(OSub, n, buf)).(Tuple)
			return Tuple{w.tt.Bin(OAdd, t[0].(*Term), buf), t[1]}
		}
	}
	return w.callReal(fn, a)
}

// ioCopyBuffer takes io.Copy and io.CopyN from a bufio.Reader to io.Discard for what they
// are when the count is symbolic: a Discard.
func ioCopyBuffer(w *Worker, fn *ssa.Function, a []Value) Value {
	dst, src := a[0].(Iface), a[1].(Iface)
	if dst.t == nil || src.t == nil || dst.t.t.String() != "io.discard" || src.t.t.String() != "*io.LimitedReader" {
		return w.callReal(fn, a)
	}
	p := src.v.(Ptr)
	if p.o == nil {
		return w.callReal(fn, a)
	}
	rd, n := w.slotAt(p.o, p.off).(Iface), w.slotAt(p.o, p.off+1).(*Term)
	if rd.t == nil || rd.t.t.String() != "*bufio.Reader" || n.isConst() {
		return w.callReal(fn, a)
	}
	if w.branch(w.tt.Sle(n, w.i64(0))) {
		return Tuple{w.i64(0), Iface{}}
	}
	t := w.invokeByName(rd, "Discard", n).(Tuple)
	w.setSlot(p.o, p.off+1, w.tt.Bin(OSub, n, t[0].(*Term)))
	if e := t[1].(Iface); e.t != nil {
		if w.isIoErr(e, "EOF") {
			t[1] = Iface{}
		}
	}
	return Tuple{t[0], t[1]}
}

// callReal runs the body of a function that has an intrinsic.
func (w *Worker) callReal(fn *ssa.Function, a []Value) Value {
	c := w.cf(fn)
	in := c.intr
	c.intr = nil
	defer func() { c.intr = in }()
	// keep recursion going through the intrinsic
	if !c.built {
		w.build(c)
	}
	return w.callFn(fn, a, nil)
}

func binaryRead(w *Worker, fn *ssa.Function, a []Value) Value {
	d := a[2].(Iface)
	if d.t == nil {
		return w.callReal(fn, a)
	}
	pt, ok := d.t.t.Underlying().(*types.Pointer)
	if !ok {
		return w.callReal(fn, a)
	}
	if _, basic := types.Unalias(pt.Elem()).(*types.Basic); basic {
		return w.callReal(fn, a)
	}
	// named scalars and structs of scalars: what the reflect fallback does
	var sizes func(t types.Type) int
	sizes = func(t types.Type) int {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Int || u.Kind() == types.Uint || u.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) == 0 {
				return -1
			}
			if u.Info()&types.IsBoolean != 0 {
				return 1
			}
			return int(basicWidth(u)) / 8
		case *types.Struct:
			n := 0
			for i := 0; i < u.NumFields(); i++ {
				k := sizes(u.Field(i).Type())
				if k < 0 {
					return -1
				}
				n += k
			}
			return n
		case *types.Array:
			k := sizes(u.Elem())
			if k < 0 {
				return -1
			}
			return k * int(u.Len())
		}
		return -1
	}
	n := sizes(pt.Elem())
	if n < 0 {
		return w.callReal(fn, a)
	}
	buf := w.newObj(n, "binary.Read")
	for i := range buf.slots {
		buf.slots[i] = w.tt.C(8, 0)
	}
	rf := w.ex.prog.ImportedPackage("io").Func("ReadFull")
	r := w.callFn(rf, []Value{a[0], Slice{o: buf, ln: n, cp: n}}, nil).(Tuple)
	if r[1].(Iface).t != nil {
		return r[1]
	}
	ord := a[1].(Iface)
	big := ord.t != nil && strings.Contains(ord.t.name, "bigEndian")
	pos := 0
	var put func(t types.Type, p Ptr)
	put = func(t types.Type, p Ptr) {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				w.storeN(p, w.tt.Not(w.tt.Eq(buf.slots[pos].(*Term), w.tt.C(8, 0))))
				pos++
				return
			}
			k := int(basicWidth(u)) / 8
			var v *Term
			for i := 0; i < k; i++ {
				b := buf.slots[pos+i].(*Term)
				if !big {
					b = buf.slots[pos+k-1-i].(*Term)
				}
				if v == nil {
					v = b
				} else {
					v = w.tt.Concat(v, b)
				}
			}
			pos += k
			w.storeN(p, v)
		case *types.Struct:
			l := w.layout(t)
			for i := 0; i < u.NumFields(); i++ {
				put(u.Field(i).Type(), Ptr{p.o, p.off + l.foff[i]})
			}
		case *types.Array:
			l := w.layout(t)
			for i := 0; i < int(u.Len()); i++ {
				put(u.Elem(), Ptr{p.o, p.off + i*l.esz})
			}
		}
	}
	put(pt.Elem(), d.v.(Ptr))
	return nilIface
}

// sortSlice is sort.Slice for up to 12 elements (insertion sort, as pdqsort does), and
// a stable insertion sort beyond that.
func sortSlice(w *Worker, fn *ssa.Function, a []Value) Value {
	i := a[0].(Iface)
	s, ok := i.v.(Slice)
	if !ok {
		panic(unsupported{"sort.Slice of non-slice"})
	}
	esz := w.layout(i.t.t.Underlying().(*types.Slice).Elem()).n
	less := a[1].(*Closure)
	if s.ln > 12 {
		w.ex.limit("sort.Slice", "sort.Slice of more than 12 elements is modelled as a stable sort")
	}
	for x := 1; x < s.ln; x++ {
		for j := x; j > 0; j-- {
			c := w.callClosure(less, []Value{w.i64(j), w.i64(j - 1)}).(*Term)
			if !w.branch(c) {
				break
			}
			for k := 0; k < esz; k++ {
				p, q := s.off+j*esz+k, s.off+(j-1)*esz+k
				vp, vq := w.slotAt(s.o, p), w.slotAt(s.o, q)
				w.setSlot(s.o, p, vq)
				w.setSlot(s.o, q, vp)
			}
		}
	}
	return nil
}

// deepEq compares two interface values structurally; loose treats nil and empty slices/maps alike.
func (w *Worker) deepEq(a, b Value, loose bool, depth int) *Term {
	x, y := a.(Iface), b.(Iface)
	if x.t != y.t {
		return w.tt.F
	}
	if x.t == nil {
		return w.tt.T
	}
	return w.deepEqT(x.t.t, x.v, y.v, loose, depth)
}

func (w *Worker) deepEqT(t types.Type, a, b Value, loose bool, depth int) *Term {
	if depth > 60 {
		panic(unsupported{"deep equality recursion"})
	}
	tt := w.tt
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		nx, ny := w.sliceLen(x), w.sliceLen(y)
		if nx != ny {
			return tt.F
		}
		if !loose && (x.o == nil) != (y.o == nil) {
			return tt.F
		}
		esz := w.layout(u.Elem()).n
		r := tt.T
		for i := 0; i < nx; i++ {
			e := w.deepEqT(u.Elem(), w.loadN(Ptr{x.o, x.off + i*esz}, u.Elem()), w.loadN(Ptr{y.o, y.off + i*esz}, u.Elem()), loose, depth+1)
			r = tt.And(r, e)
			if r == tt.F {
				return r
			}
		}
		return r
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == q {
			return tt.T
		}
		if p.o == nil || q.o == nil {
			return tt.F
		}
		return w.deepEqT(u.Elem(), w.loadN(p, u.Elem()), w.loadN(q, u.Elem()), loose, depth+1)
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		l := w.layout(t)
		r := tt.T
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			o, n := l.foff[i], l.fn[i]
			r = tt.And(r, w.deepEqT(ft, packV(ft, x[o:o+n]), packV(ft, y[o:o+n]), loose, depth+1))
			if r == tt.F {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		l := w.layout(t)
		r := tt.T
		for i := 0; i < int(u.Len()); i++ {
			r = tt.And(r, w.deepEqT(u.Elem(), packV(u.Elem(), x[i*l.esz:(i+1)*l.esz]), packV(u.Elem(), y[i*l.esz:(i+1)*l.esz]), loose, depth+1))
		}
		return r
	case *types.Interface:
		return w.deepEq(a, b, loose, depth+1)
	case *types.Map:
		x, y := a.(*MapObj), b.(*MapObj)
		nx, ny := 0, 0
		if x != nil {
			nx = x.n
		}
		if y != nil {
			ny = y.n
		}
		if nx != ny || !loose && (x == nil) != (y == nil) {
			return tt.F
		}
		r := tt.T
		if x != nil {
			for _, e := range x.ents {
				if e.deleted {
					continue
				}
				f := w.mapFind(y, e.k)
				if f == nil {
					return tt.F
				}
				r = tt.And(r, w.deepEqT(u.Elem(), e.v, f.v, loose, depth+1))
			}
		}
		return r
	case *types.Signature:
		return tt.Bool(a.(*Closure) == nil && b.(*Closure) == nil)
	}
	return w.eqV(t, a, b)
}

// ---- errors ----

func errorfI(w *Worker, fn *ssa.Function, a []Value) Value {
	f := w.force(a[0])
	args := w.varargs(a[1])
	var wrapped []int
	for _, p := range w.fmtParts(f) {
		if v, ok := p.(verbSpec); ok && v.verb == 'w' {
			wrapped = append(wrapped, v.arg)
		}
	}
	msg := &LazyStr{f: func() Value { return w.sprintf(f, args, nil) }}
	p := w.ex.prog.ImportedPackage("fmt")
	if len(wrapped) == 1 && wrapped[0] < len(args) {
		tn := p.Pkg.Scope().Lookup("wrapError")
		o := w.newObj(2, "wrapError")
		o.slots[0] = msg
		o.slots[1] = nilIface
		e := args[wrapped[0]]
		if e.t != nil && w.methodByName(e.t, "Error") != nil {
			o.slots[1] = e
		}
		return Iface{w.rtype(types.NewPointer(tn.Type())), Ptr{o, 0}}
	}
	if len(wrapped) > 1 {
		tn := p.Pkg.Scope().Lookup("wrapErrors")
		o := w.newObj(2, "wrapErrors")
		var es []Value
		for _, k := range wrapped {
			if k < len(args) && args[k].t != nil {
				es = append(es, args[k])
			}
		}
		o.slots[0] = msg
		o.slots[1] = w.strSlice(es)
		return Iface{w.rtype(types.NewPointer(tn.Type())), Ptr{o, 0}}
	}
	return w.mkError(msg)
}

// errChain visits an error and the errors it wraps, depth first, until f says so.
func (w *Worker) errChain(e Iface, f func(Iface) bool) bool {
	for e.t != nil {
		if f(e) {
			return true
		}
		m := w.methodByName(e.t, "Unwrap")
		if m == nil || !sigIs(m, 0, 1) {
			return false
		}
		switch v := w.callFn(m, []Value{e.v}, nil).(type) {
		case Iface:
			e = v
		case Slice:
			for i := 0; i < v.ln; i++ {
				if w.errChain(w.slotAt(v.o, v.off+i).(Iface), f) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func sigIs(m *ssa.Function, in, out int) bool {
	return m.Signature.Params().Len() == in && m.Signature.Results().Len() == out
}

// isZeroFlag is the contract of flag.isZeroValue: is the text that of the flag's zero value?
func isZeroFlag(w *Worker, fn *ssa.Function, a []Value) Value {
	p := a[0].(Ptr)
	ft := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	st := ft.Underlying().(*types.Struct)
	l := w.layout(ft)
	ret := func(b bool) Value { return Tuple{w.tt.Bool(b), Iface{}} }
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "Value" {
			continue
		}
		v := w.loadN(Ptr{p.o, p.off + l.foff[i]}, st.Field(i).Type()).(Iface)
		z := v
		if pt, ok := v.t.t.Underlying().(*types.Pointer); ok {
			z.v = Ptr{w.newZero(pt.Elem()), 0}
		} else {
			z.v = w.zeroV(v.t.t)
		}
		m := w.methodByName(z.t, "String")
		s := w.callFn(m, []Value{z.v}, nil)
		return ret(w.branch(w.strEq(a[1], s)))
	}
	return ret(false)
}

func roundTo(mode int) func(*Worker, *ssa.Function, []Value) Value {
	return func(w *Worker, fn *ssa.Function, a []Value) Value { return w.tt.FRnd(a[0].(*Term), mode) }
}
