package main

// The engine's side of the harness API (package sym).

import (
	"fmt"
	"go/types"
	"html"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) inName(v Value) string {
	s, ok := w.force(v).(string)
	if !ok {
		panic(unsupported{"symbolic input name"})
	}
	return w.uniq(s)
}

func (w *Worker) uniq(s string) string {
	w.inNames[s]++
	if n := w.inNames[s]; n > 1 {
		return s + "#" + strconv.Itoa(n)
	}
	return s
}

func (w *Worker) newInput(name string, wd uint8) *Term {
	t := w.tt.Var("in!"+name+"@"+strconv.Itoa(int(wd)), wd)
	w.inputs = append(w.inputs, t)
	return t
}

func symScalar(wd uint8) intrinsic {
	return func(w *Worker, fn *ssa.Function, a []Value) Value {
		return w.newInput(w.inName(a[0]), wd)
	}
}

func (w *Worker) inBytes(nv Value, n int) []*Term {
	name := w.inName(nv)
	r := make([]*Term, n)
	for i := range r {
		r[i] = w.newInput(name+"["+strconv.Itoa(i)+"]", 8)
	}
	return r
}

type mapPiece struct{ es [][]any }
type numPiece struct {
	t *Term
	k byte // 's' signed, 'u' unsigned, 'b' bool, 'f' float
}
type strPiece struct {
	b   []*Term
	pre string
}

func (w *Worker) obsVal(t types.Type, v Value, d int, out []any) []any {
	if d > 12 {
		return append(out, "...")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return append(out, strPiece{w.rawBytes(v), ""})
		case u.Info()&types.IsBoolean != 0:
			return append(out, numPiece{v.(*Term), 'b'})
		case u.Info()&types.IsFloat != 0:
			return append(out, numPiece{v.(*Term), 'f'})
		case u.Info()&types.IsUnsigned != 0:
			return append(out, numPiece{v.(*Term), 'u'})
		case u.Info()&types.IsInteger != 0:
			return append(out, numPiece{v.(*Term), 's'})
		}
		return append(out, "?")
	case *types.Slice:
		s := v.(Slice)
		if s.sl != nil {
			return append(out, "[symlen]")
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return append(out, strPiece{w.sliceBytes(s), "b"})
		}
		esz := w.layout(u.Elem()).n
		out = append(out, "[")
		for i := 0; i < s.ln; i++ {
			if i > 0 {
				out = append(out, " ")
			}
			out = w.obsVal(u.Elem(), w.loadN(Ptr{s.o, s.off + i*esz}, u.Elem()), d+1, out)
		}
		return append(out, "]")
	case *types.Array:
		l := w.layout(t)
		out = append(out, "[")
		for i := 0; i < int(u.Len()); i++ {
			if i > 0 {
				out = append(out, " ")
			}
			out = w.obsVal(u.Elem(), packV(u.Elem(), v.(Agg)[i*l.esz:(i+1)*l.esz]), d+1, out)
		}
		return append(out, "]")
	case *types.Struct:
		l := w.layout(t)
		out = append(out, "{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = append(out, " ")
			}
			ft := u.Field(i).Type()
			out = w.obsVal(ft, packV(ft, v.(Agg)[l.foff[i]:l.foff[i]+l.fn[i]]), d+1, out)
		}
		return append(out, "}")
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			return append(out, "&?")
		}
		if p.o == nil {
			return append(out, "nil")
		}
		return w.obsVal(u.Elem(), w.loadN(p, u.Elem()), d+1, append(out, "&"))
	case *types.Map:
		m := v.(*MapObj)
		mp := mapPiece{}
		if m != nil {
			for _, e := range m.ents {
				if e.deleted {
					continue
				}
				x := w.obsVal(u.Key(), e.k, d+1, nil)
				x = append(x, ":")
				x = w.obsVal(u.Elem(), e.v, d+1, x)
				mp.es = append(mp.es, x)
			}
		}
		return append(out, mp)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return append(out, "nil")
		}
		if w.methodByName(i.t, "Error") != nil {
			return append(out, "error")
		}
		return w.obsVal(i.t.t, i.v, d+1, out)
	}
	return append(out, "?")
}

func (w *Worker) renderObs(o obsRec) string { return w.renderPieces(o.pieces) }

func (w *Worker) evalBytes(b []*Term) string {
	var sb strings.Builder
	for _, t := range b {
		switch t.op {
		case OItoaS:
			sb.WriteString(strconv.FormatInt(sx(w.ev.eval(t.a), t.a.w), 10))
		case OItoaU:
			sb.WriteString(strconv.FormatUint(w.ev.eval(t.a), 10))
		default:
			if t.op == OAtomFn && t.name == "Duration" {
				sb.WriteString(time.Duration(w.ev.eval(t.a)).String())
			} else if t.isAtom() {
				sb.WriteString("<atom>")
			} else {
				sb.WriteByte(byte(w.ev.eval(t)))
			}
		}
	}
	return sb.String()
}

func (w *Worker) renderPieces(ps []any) string {
	var sb strings.Builder
	for _, p := range ps {
		switch x := p.(type) {
		case string:
			sb.WriteString(x)
		case strPiece:
			sb.WriteString(x.pre + strconv.Quote(w.evalBytes(x.b)))
		case numPiece:
			v := w.ev.eval(x.t)
			switch x.k {
			case 'b':
				sb.WriteString(strconv.FormatBool(v != 0))
			case 's':
				sb.WriteString(strconv.FormatInt(sx(v, x.t.w), 10))
			case 'u':
				sb.WriteString(strconv.FormatUint(v, 10))
			case 'f':
				if x.t.w == 32 {
					sb.WriteString(fmtF(float64(math.Float32frombits(uint32(v)))))
				} else {
					sb.WriteString(fmtF(math.Float64frombits(v)))
				}
			}
		case mapPiece:
			var es []string
			for _, e := range x.es {
				es = append(es, w.renderPieces(e))
			}
			sort.Strings(es)
			sb.WriteString("map[" + strings.Join(es, " ") + "]")
		}
	}
	return sb.String()
}

func fmtF(f float64) string {
	if f != f {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

var symIntr map[string]intrinsic

func init() {
	boolFold := func(f func(w *Worker, a, b *Term) *Term, unit bool) intrinsic {
		return func(w *Worker, fn *ssa.Function, a []Value) Value {
			s := a[0].(Slice)
			r := w.tt.Bool(unit)
			for i := 0; i < s.ln; i++ {
				r = f(w, r, w.slotAt(s.o, s.off+i).(*Term))
			}
			return r
		}
	}
	symIntr = map[string]intrinsic{
		"U8": symScalar(8), "U16": symScalar(16), "U32": symScalar(32), "U64": symScalar(64),
		"I8": symScalar(8), "I16": symScalar(16), "I32": symScalar(32), "I64": symScalar(64),
		"Bool": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.newInput(w.inName(a[0]), 0)
		},
		"Int": func(w *Worker, fn *ssa.Function, a []Value) Value {
			t := w.newInput(w.inName(a[0]), 64)
			if !w.inPrefix() {
				// start inside the range
				lo := a[1].(*Term)
				if lo.isConst() && w.ev.eval(t) == 0 {
					if sx(lo.k, 64) > 0 {
						w.setModel(t.name, lo.k)
						w.ev = newEval(w.model)
					}
				}
			}
			w.assume(w.tt.And(w.tt.Sle(a[1].(*Term), t), w.tt.Sle(t, a[2].(*Term))))
			return t
		},
		"Choice": func(w *Worker, fn *ssa.Function, a []Value) Value {
			n := int(w.concretize(a[1].(*Term)))
			c := w.choose(n)
			w.choices = append(w.choices, uint64(c))
			return w.i64(c)
		},
		"Bytes": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.bytesSlice(w.inBytes(a[0], int(w.concretize(a[1].(*Term)))))
		},
		"String": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.mkStr(w.inBytes(a[0], int(w.concretize(a[1].(*Term)))))
		},
		"Pin": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.tt.C(64, w.concretize(a[0].(*Term)))
		},
		"Tier": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.i64(w.ex.cfg.Tier) },
		"Assume": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.assume(a[0].(*Term))
			return nil
		},
		"Assert": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.assert(a[0].(*Term), w.force(a[1]).(string))
			return nil
		},
		"Reach": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.reachL[w.force(a[0]).(string)]++
			return nil
		},
		"Observe": func(w *Worker, fn *ssa.Function, a []Value) Value {
			ps := []any{w.force(a[0]).(string), "="}
			w.observes = append(w.observes, obsRec{w.obsVal(fn.Signature.Params().At(1).Type(), a[1], 0, ps)})
			return nil
		},
		"And": boolFold(func(w *Worker, a, b *Term) *Term { return w.tt.And(a, b) }, true),
		"Or":  boolFold(func(w *Worker, a, b *Term) *Term { return w.tt.Or(a, b) }, false),
		"Implies": func(w *Worker, fn *ssa.Function, a []Value) Value {
			return w.tt.Or(w.tt.Not(a[0].(*Term)), a[1].(*Term))
		},
		"Equal": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.deepEq(a[0], a[1], true, 0) },
		"EqBytes": func(w *Worker, fn *ssa.Function, a []Value) Value {
			x, y := w.sliceBytes(a[0].(Slice)), w.sliceBytes(a[1].(Slice))
			if len(x) != len(y) {
				return w.tt.F
			}
			return w.matchAt(x, y)
		},
		"EqStr": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.strEq(a[0], a[1]) },
		"Sel":   symSel, "SelInt": symSel, "SelU64": symSel,
		"CaptureStdout": func(w *Worker, fn *ssa.Function, a []Value) Value {
			old := w.out
			var buf []*Term
			w.out = &buf
			func() {
				defer func() { w.out = old }()
				w.callClosure(a[0].(*Closure), nil)
			}()
			return w.mkStr(buf)
		},
		"Page": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.page(a[0]) },
		"JoinPaths": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.join = a[0].(*Term).k != 0
			return nil
		},
		"PermuteMaps": func(w *Worker, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			w.permMaps = t.k != 0
			return nil
		},
		"AllocLimit": func(w *Worker, fn *ssa.Function, a []Value) Value {
			w.side["alloc"] = a[0].(*Term).k
			return nil
		},
		"Settle":   func(w *Worker, fn *ssa.Function, a []Value) Value { w.settle(); return nil },
		"Yield":    func(w *Worker, fn *ssa.Function, a []Value) Value { w.yield(); w.passed(); return nil },
		"Symbolic": func(w *Worker, fn *ssa.Function, a []Value) Value { return w.tt.T },
		"Logf": func(w *Worker, fn *ssa.Function, a []Value) Value {
			if w.ex.cfg.Verbose {
				fmt.Println("LOG", w.evalBytes(w.rawBytes(w.sprintf(a[0], w.varargs(a[1]), nil))))
			}
			return nil
		},
	}
}

func symSel(w *Worker, fn *ssa.Function, a []Value) Value {
	c := a[0].(*Term)
	if x, ok := a[1].(*Term); ok {
		return w.tt.Ite(c, x, a[2].(*Term))
	}
	if w.branch(c) {
		return a[1]
	}
	return a[2]
}

// page is sym.Page.
func (w *Worker) page(v Value) Value {
	b := w.rawBytes(v)
	is := func(t *Term, c byte) bool {
		return !t.isAtom() && w.branch(w.tt.Eq(t, w.tt.C(8, uint64(c))))
	}
	var out []Value
	var cur []*Term
	in := false
	flush := func() {
		out = append(out, w.mkStr(cur))
		cur = nil
	}
	for i := 0; i < len(b); i++ {
		t := b[i]
		if in {
			if is(t, '>') {
				in = false
				flush()
			} else {
				cur = append(cur, t)
			}
			continue
		}
		if is(t, '<') {
			in = true
			flush()
			continue
		}
		if is(t, '&') {
			j := i + 1
			for j < len(b) && j < i+9 && !is(b[j], ';') {
				j++
			}
			if j < len(b) && j < i+9 && j > i+1 {
				ent := make([]byte, 0, 9)
				for k := i; k <= j; k++ {
					if b[k].isAtom() {
						break
					}
					ent = append(ent, byte(w.concretize(b[k])))
				}
				if len(ent) == j-i+1 {
					if u := html.UnescapeString(string(ent)); u != string(ent) {
						cur = append(cur, w.rawBytes(u)...)
						i = j
						continue
					}
				}
			}
		}
		cur = append(cur, t)
	}
	flush()
	if in {
		out = append(out, Value(""))
	}
	return w.strSlice(out)
}
