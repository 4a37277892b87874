package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func fmtFloat(f float64, verb byte, prec, bits int) string {
	return strconv.FormatFloat(f, verb, prec, bits)
}

type verbSpec struct {
	verb              byte
	flags             string
	wid, prec         int
	hasWid, hasPrec   bool
	widStar, precStar bool
	arg               int
}

// parseFmt splits a format string into literal pieces and verbs.
func parseFmt(f string) (out []any) {
	arg := 0
	lit := strings.Builder{}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit.WriteByte(f[i])
			continue
		}
		i++
		if i >= len(f) {
			lit.WriteString("%!(NOVERB)")
			break
		}
		if f[i] == '%' {
			lit.WriteByte('%')
			continue
		}
		if lit.Len() > 0 {
			out = append(out, lit.String())
			lit.Reset()
		}
		var v verbSpec
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			v.flags += string(f[i])
			i++
		}
		if i < len(f) && f[i] == '*' {
			v.hasWid, v.widStar = true, true
			v.wid = arg
			arg++
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			v.hasWid = true
			v.wid = v.wid*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			v.hasPrec = true
			if i < len(f) && f[i] == '*' {
				v.precStar = true
				v.prec = arg
				arg++
				i++
			}
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				v.prec = v.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i < len(f) && f[i] == '[' {
			panic(unsupported{"explicit argument index in format"})
		}
		if i >= len(f) {
			lit.WriteString("%!(NOVERB)")
			break
		}
		if v.verb = f[i]; v.verb == '%' {
			lit.WriteByte('%')
			continue
		}
		v.arg = arg
		arg++
		out = append(out, v)
	}
	if lit.Len() > 0 {
		out = append(out, lit.String())
	}
	return out
}

// fmtParts is parseFmt for a format that may have symbolic bytes: a byte that is not % is
// a literal, and what follows a % is concretized as far as a verb may reach.
func (w *Worker) fmtParts(fv Value) []any {
	if f, ok := w.force(fv).(string); ok {
		return parseFmt(f)
	}
	var out []any
	var lit []*Term
	bs := w.rawBytes(fv)
	// the arguments are numbered through, so a verb reparses all before it
	verbs := ""
	for i := 0; i < len(bs); i++ {
		if !w.branch(w.tt.Eq(bs[i], w.tt.C(8, '%'))) {
			lit = append(lit, bs[i])
			continue
		}
		// flags, width and precision, then one byte of the verb
		conc := []byte{'%'}
		for i++; i < len(bs); i++ {
			c := byte(w.concretize(bs[i]))
			conc = append(conc, c)
			if strings.IndexByte("+-# 0123456789.*", c) < 0 {
				if c >= 0x80 {
					panic(unsupported{"verb outside ASCII in a symbolic format"})
				}
				break
			}
		}
		if len(lit) > 0 {
			out = append(out, lit)
			lit = nil
		}
		n := len(parseFmt(verbs))
		verbs += string(conc)
		ps := parseFmt(verbs)
		out = append(out, ps[n:]...)
		if _, ok := ps[len(ps)-1].(string); ok {
			// a percent sign, or no verb at the end of the format
			verbs = verbs[:len(verbs)-len(conc)]
		}
	}
	if len(lit) > 0 {
		out = append(out, lit)
	}
	return out
}

func (w *Worker) sprintf(fv Value, args []Iface, _ any) Value {
	var out []*Term
	used := 0
	lit := func(s string) {
		out = append(out, w.rawBytes(s)...)
	}
	for _, p := range w.fmtParts(fv) {
		switch v := p.(type) {
		case []*Term:
			out = append(out, v...)
		case string:
			lit(v)
		case verbSpec:
			if v.widStar || v.precStar {
				if v.widStar && v.wid >= len(args) || v.precStar && v.prec >= len(args) {
					panic(unsupported{"format with * and no argument"})
				}
			}
			if v.widStar {
				v.wid = int(int64(w.concretize(w.asTerm(args[v.wid].v))))
				if v.wid < 0 {
					v.flags += "-"
					v.wid = -v.wid
				}
			}
			if v.precStar {
				v.prec = int(int64(w.concretize(w.asTerm(args[v.prec].v))))
			}
			if v.arg >= len(args) {
				lit("%!" + string(v.verb) + "(MISSING)")
				continue
			}
			if v.arg+1 > used {
				used = v.arg + 1
			}
			s := w.fmtArg(args[v.arg], v, 0)
			if v.hasWid {
				s = w.pad(s, v)
			}
			out = append(out, w.rawBytes(s)...)
		}
	}
	if used < len(args) {
		lit("%!(EXTRA ")
		for i := used; i < len(args); i++ {
			if i > used {
				lit(", ")
			}
			n := "<nil>"
			if args[i].t != nil {
				n = args[i].t.name
			}
			lit(n + "=")
			out = append(out, w.rawBytes(w.fmtArg(args[i], verbSpec{verb: 'v'}, 0))...)
		}
		lit(")")
	}
	return w.mkStr(out)
}

func (w *Worker) asTerm(v Value) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	panic(unsupported{"format with * and no number"})
}

func (w *Worker) pad(s Value, v verbSpec) Value {
	b := w.bytesOf(s)
	// width counts runes; continuation bytes are detected where concrete
	n := 0
	for _, t := range b {
		cont := w.tt.Eq(w.tt.Extract(t, 6, 2), w.tt.C(2, 2))
		if !w.branch(cont) {
			n++
		}
	}
	if n >= v.wid {
		return s
	}
	padc := " "
	left := strings.Contains(v.flags, "-")
	if !left && strings.Contains(v.flags, "0") {
		padc = "0"
		if len(b) > 0 && v.verb != 's' && v.verb != 'v' && w.branch(w.tt.Eq(b[0], w.tt.C(8, '-'))) {
			return w.concat("-"+strings.Repeat("0", v.wid-n), w.mkStr(b[1:]))
		}
	}
	fill := strings.Repeat(padc, v.wid-n)
	if left {
		return w.concat(s, fill)
	}
	return w.concat(fill, s)
}

func (w *Worker) sprint(args []Iface) Value {
	var out []*Term
	prevStr := true
	for i, a := range args {
		isStr := false
		if a.t != nil {
			b, ok := a.t.t.(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
			if n, ok := a.t.t.(*types.Named); ok {
				if b, ok := n.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					isStr = true
				}
			}
		}
		if i > 0 && !isStr && !prevStr {
			out = append(out, w.tt.C(8, ' '))
		}
		out = append(out, w.rawBytes(w.fmtArg(a, verbSpec{verb: 'v'}, 0))...)
		prevStr = isStr
	}
	return w.mkStr(out)
}

func (w *Worker) sprintln(args []Iface) Value {
	var out []*Term
	for i, a := range args {
		if i > 0 {
			out = append(out, w.tt.C(8, ' '))
		}
		out = append(out, w.rawBytes(w.fmtArg(a, verbSpec{verb: 'v'}, 0))...)
	}
	out = append(out, w.tt.C(8, '\n'))
	return w.mkStr(out)
}

// fmtArg formats one operand.
func (w *Worker) fmtArg(a Iface, v verbSpec, depth int) Value {
	if a.t == nil {
		switch v.verb {
		case 'T', 'v':
			return "<nil>"
		}
		return "%!" + string(v.verb) + "(<nil>)"
	}
	switch v.verb {
	case 'T':
		return a.t.name
	case 'p':
		panic(unsupported{"%p"})
	}
	if strings.Contains(v.flags, "#") {
		panic(unsupported{"%#v"})
	}
	// methods
	if strings.IndexByte("vswqxX", v.verb) >= 0 {
		if f := w.methodByName(a.t, "Error"); f != nil && f.Signature.Results().Len() == 1 {
			if p, ok := a.v.(Ptr); ok && p.o == nil {
				return "<nil>"
			}
			return w.fmtStr(w.callFn(f, []Value{a.v}, nil), v)
		}
		if f := w.methodByName(a.t, "String"); f != nil && f.Signature.Results().Len() == 1 && f.Signature.Params().Len() == 0 {
			if p, ok := a.v.(Ptr); ok && p.o == nil {
				return "<nil>"
			}
			return w.fmtStr(w.callFn(f, []Value{a.v}, nil), v)
		}
	}
	return w.fmtVal(a.t.t, a.v, v, depth)
}

func (w *Worker) fmtStr(s Value, v verbSpec) Value {
	switch v.verb {
	case 'v', 's', 'w':
		if v.hasPrec {
			panic(unsupported{"string precision"})
		}
		return s
	case 'q':
		c, ok := w.expand(s).(string)
		if ok {
			return strconv.Quote(c)
		}
		if q := w.ex.prog.ImportedPackage("strconv"); q != nil && q.Func("Quote") != nil {
			return w.callFn(q.Func("Quote"), []Value{s}, nil)
		}
		panic(unsupported{"%q of symbolic string"})
	case 'x', 'X':
		c, ok := w.expand(s).(string)
		if ok {
			return fmt.Sprintf("%"+string(v.verb), c)
		}
		panic(unsupported{"%x of symbolic string"})
	}
	return w.concat(w.concat("%!"+string(v.verb)+"(string=", s), ")")
}

func (w *Worker) fmtVal(t types.Type, val Value, v verbSpec, depth int) Value {
	if depth > 30 {
		panic(unsupported{"format recursion"})
	}
	name := typeName(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.fmtStr(val, v)
		case u.Info()&types.IsBoolean != 0:
			s := "false"
			if w.branch(val.(*Term)) {
				s = "true"
			}
			if v.verb == 'v' || v.verb == 't' {
				return s
			}
			return "%!" + string(v.verb) + "(" + name + "=" + s + ")"
		case u.Info()&types.IsInteger != 0:
			x := val.(*Term)
			signed := u.Info()&types.IsUnsigned == 0
			switch v.verb {
			case 'v', 'd':
				s := w.itoa(x, signed)
				if strings.Contains(v.flags, "+") {
					if !w.branch(w.tt.Slt(x, w.tt.C(x.w, 0))) || !signed {
						s = w.concat("+", s)
					}
				}
				if v.hasPrec {
					panic(unsupported{"integer precision"})
				}
				return s
			case 'c':
				return w.runeToStr(x, signed)
			case 'x', 'X', 'o', 'b', 'U', 'q':
				k := w.concretize(x)
				if signed {
					return fmt.Sprintf("%"+string(v.verb), sx(k, x.w))
				}
				return fmt.Sprintf("%"+string(v.verb), k)
			}
			return w.concat(w.concat("%!"+string(v.verb)+"("+name+"=", w.itoa(x, signed)), ")")
		case u.Info()&types.IsFloat != 0:
			x := val.(*Term)
			f := fval(w.tt.C(x.w, w.concretize(x)))
			sp := "%" + v.flags
			if v.hasPrec {
				sp += "." + strconv.Itoa(v.prec)
			}
			if x.w == 32 {
				return fmt.Sprintf(sp+string(v.verb), float32(f))
			}
			return fmt.Sprintf(sp+string(v.verb), f)
		}
	case *types.Slice, *types.Array:
		if v.verb != 'v' && v.verb != 's' && v.verb != 'd' {
			panic(unsupported{"slice with verb " + string(v.verb)})
		}
		var et types.Type
		var get func(i int) Value
		n := 0
		if st, ok := u.(*types.Slice); ok {
			et = st.Elem()
			s := val.(Slice)
			n = w.sliceLen(s)
			esz := w.layout(et).n
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && v.verb == 's' {
				return w.mkStr(w.sliceBytes(s))
			}
			get = func(i int) Value { return w.loadN(Ptr{s.o, s.off + i*esz}, et) }
		} else {
			at := u.(*types.Array)
			et = at.Elem()
			n = int(at.Len())
			l := w.layout(t)
			a := val.(Agg)
			get = func(i int) Value { return packV(et, a[i*l.esz:(i+1)*l.esz]) }
		}
		var r Value = "["
		for i := 0; i < n; i++ {
			if i > 0 {
				r = w.concat(r, " ")
			}
			r = w.concat(r, w.fmtElem(et, get(i), v, depth+1, true))
		}
		return w.concat(r, "]")
	case *types.Struct:
		a := val.(Agg)
		l := w.layout(t)
		var r Value = "{"
		plus := strings.Contains(v.flags, "+")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				r = w.concat(r, " ")
			}
			f := u.Field(i)
			if plus {
				r = w.concat(r, f.Name()+":")
			}
			r = w.concat(r, w.fmtElem(f.Type(), packV(f.Type(), a[l.foff[i]:l.foff[i]+l.fn[i]]), v, depth+1, f.Exported()))
		}
		return w.concat(r, "}")
	case *types.Pointer:
		p, ok := val.(Ptr)
		if ok && p.o == nil {
			return "<nil>"
		}
		if ok && depth == 0 && isAggOrMap(u.Elem()) {
			return w.concat("&", w.fmtVal(u.Elem(), w.loadN(p, u.Elem()), v, depth+1))
		}
		return "0xc000000000"
	case *types.Interface:
		i := val.(Iface)
		if i.t == nil {
			return "<nil>"
		}
		return w.fmtArg(i, v, depth+1)
	case *types.Map:
		m := val.(*MapObj)
		var es []*MapEnt
		if m != nil {
			for _, e := range m.ents {
				if !e.deleted {
					es = append(es, e)
				}
			}
		}
		for _, e := range es {
			if _, ok := w.concKey(m.kt.t, e.k); !ok && len(es) > 1 {
				panic(unsupported{"formatting a map with symbolic keys"})
			}
		}
		sort.SliceStable(es, func(i, j int) bool {
			switch x := es[i].k.(type) {
			case *Term:
				if isSigned(m.kt.t) {
					return sx(x.k, x.w) < sx(es[j].k.(*Term).k, x.w)
				}
				return x.k < es[j].k.(*Term).k
			case string:
				return x < es[j].k.(string)
			}
			return false
		})
		var r Value = "map["
		for i, e := range es {
			if i > 0 {
				r = w.concat(r, " ")
			}
			r = w.concat(r, w.fmtElem(u.Key(), e.k, v, depth+1, true))
			r = w.concat(r, ":")
			r = w.concat(r, w.fmtElem(u.Elem(), e.v, v, depth+1, true))
		}
		return w.concat(r, "]")
	case *types.Signature:
		return "0x0"
	}
	panic(unsupported{"format of " + name})
}

func isAggOrMap(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Slice, *types.Map:
		return true
	}
	return false
}

// fmtElem formats a nested value, calling Error/String methods when it is accessible.
func (w *Worker) fmtElem(t types.Type, v Value, sp verbSpec, depth int, exported bool) Value {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "<nil>"
		}
		if exported {
			return w.fmtArg(i, sp, depth)
		}
		return w.fmtVal(i.t.t, i.v, sp, depth)
	}
	if exported {
		return w.fmtArg(Iface{w.rtype(t), v}, sp, depth)
	}
	return w.fmtVal(t, v, sp, depth)
}
