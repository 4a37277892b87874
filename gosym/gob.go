package main

// Contract stub for encoding/gob: Encode deep-copies the transmitted part of the value and
// writes a token through the real writer; Decode reads the token back through the real
// reader and rebuilds the value in the destination, matching exported fields by name.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gobBlob struct{ n *gnode }

type gnode struct {
	kind  byte // 's' scalar, 'l' list, 'm' map, 't' struct, 'i' interface, 'n' nil/omitted, 'o' opaque
	v     Value
	basic string
	es    []*gnode
	ks    []*gnode
	names []string
	rt    *RType
}

const gobTok = 24

func gobRegister(w *Worker, fn *ssa.Function, a []Value) Value {
	i := a[0].(Iface)
	if i.t != nil {
		w.gobReg[i.t.name] = true
	}
	return nil
}

type gobStream struct {
	io   Value
	buf  []*Term
	err  Value
	rbuf int
}

func gobNew(w *Worker, fn *ssa.Function, a []Value) Value {
	o := w.newZero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
	m, _ := w.side["gob"].(map[*Obj]*gobStream)
	if m == nil {
		m = map[*Obj]*gobStream{}
		w.side["gob"] = m
	}
	m[o] = &gobStream{io: a[0]}
	return Ptr{o, 0}
}

func (w *Worker) gobStream(v Value) *gobStream {
	m, _ := w.side["gob"].(map[*Obj]*gobStream)
	s := m[v.(Ptr).o]
	if s == nil {
		panic(unsupported{"gob stream not created by NewEncoder/NewDecoder"})
	}
	return s
}

func gobKind(b *types.Basic) string {
	switch i := b.Info(); {
	case i&types.IsBoolean != 0:
		return "bool"
	case i&types.IsUnsigned != 0:
		return "uint"
	case i&types.IsInteger != 0:
		return "int"
	case i&types.IsFloat != 0:
		return "float"
	case i&types.IsString != 0:
		return "string"
	}
	return "?"
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func (w *Worker) gobEnc(t types.Type, v Value, depth int) (*gnode, string) {
	if depth > 40 {
		panic(unsupported{"gob recursion"})
	}
	if isTime(t) {
		return &gnode{kind: 'o', v: append(Agg{}, v.(Agg)...), basic: "time"}, ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return &gnode{kind: 's', v: v, basic: gobKind(u)}, ""
	case *types.Pointer:
		p := v.(Ptr)
		if p.o == nil {
			if depth == 0 {
				w.goPanicStr("gob: cannot encode nil pointer of type " + t.String())
			}
			return &gnode{kind: 'n'}, ""
		}
		return w.gobEnc(u.Elem(), w.loadN(p, u.Elem()), depth+1)
	case *types.Slice:
		s := v.(Slice)
		n := w.sliceLen(s)
		g := &gnode{kind: 'l'}
		esz := w.layout(u.Elem()).n
		for i := 0; i < n; i++ {
			e, err := w.gobEnc(u.Elem(), w.loadN(Ptr{s.o, s.off + i*esz}, u.Elem()), depth+1)
			if err != "" {
				return nil, err
			}
			if e.kind == 'n' {
				return nil, "gob: encodeReflectValue: nil element"
			}
			g.es = append(g.es, e)
		}
		return g, ""
	case *types.Array:
		g := &gnode{kind: 'l'}
		l := w.layout(t)
		for i := 0; i < int(u.Len()); i++ {
			e, err := w.gobEnc(u.Elem(), packV(u.Elem(), v.(Agg)[i*l.esz:(i+1)*l.esz]), depth+1)
			if err != "" {
				return nil, err
			}
			g.es = append(g.es, e)
		}
		return g, ""
	case *types.Map:
		m := v.(*MapObj)
		if m == nil {
			return &gnode{kind: 'n'}, ""
		}
		g := &gnode{kind: 'm'}
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			k, err := w.gobEnc(u.Key(), e.k, depth+1)
			if err != "" {
				return nil, err
			}
			x, err := w.gobEnc(u.Elem(), e.v, depth+1)
			if err != "" {
				return nil, err
			}
			if x.kind == 'n' {
				return nil, "gob: encodeReflectValue: nil element"
			}
			g.ks = append(g.ks, k)
			g.es = append(g.es, x)
		}
		return g, ""
	case *types.Struct:
		g := &gnode{kind: 't'}
		l := w.layout(t)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			switch f.Type().Underlying().(type) {
			case *types.Chan, *types.Signature:
				continue
			}
			x, err := w.gobEnc(f.Type(), packV(f.Type(), v.(Agg)[l.foff[i]:l.foff[i]+l.fn[i]]), depth+1)
			if err != "" {
				return nil, err
			}
			if x.kind == 'l' && len(x.es) == 0 {
				x = &gnode{kind: 'n'}
			}
			g.names = append(g.names, f.Name())
			g.es = append(g.es, x)
		}
		if len(g.names) == 0 {
			return nil, "gob: type " + t.String() + " has no exported fields"
		}
		return g, ""
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return &gnode{kind: 'n'}, ""
		}
		if _, basic := types.Unalias(i.t.t).(*types.Basic); !basic && !w.gobReg[i.t.name] {
			return nil, "gob: type not registered for interface: " + i.t.name
		}
		x, err := w.gobEnc(i.t.t, i.v, depth+1)
		if err != "" {
			return nil, err
		}
		return &gnode{kind: 'i', rt: i.t, es: []*gnode{x}}, ""
	}
	return nil, "gob: unsupported type " + t.String()
}

func slotsOf(v Value) []Value {
	if a, ok := v.(Agg); ok {
		return a
	}
	return []Value{v}
}

// gobDec rebuilds a value of type t over its old value.
func (w *Worker) gobDec(t types.Type, g *gnode, old Value, depth int) (Value, string) {
	const mis = "gob: wrong type received"
	if g.kind == 'n' {
		return old, ""
	}
	if isTime(t) {
		if g.kind != 'o' {
			return nil, mis
		}
		return append(Agg{}, g.v.(Agg)...), ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if g.kind != 's' || g.basic != gobKind(u) {
			return nil, mis
		}
		if g.basic == "string" {
			if s, ok := g.v.(string); ok && s == "" {
				return old, ""
			}
			return g.v, ""
		}
		v := g.v.(*Term)
		wd := basicWidth(u)
		switch {
		case g.basic == "bool":
			return w.tt.Or(v, old.(*Term)), ""
		case g.basic == "float":
			if v.w != wd {
				return w.tt.FToF(v, wd), ""
			}
			return v, ""
		case v.w < wd && g.basic == "int":
			v = w.tt.Sext(v, wd)
		case v.w < wd:
			v = w.tt.Zext(v, wd)
		case v.w > wd:
			n := w.tt.Extract(v, 0, wd)
			var back *Term
			if g.basic == "int" {
				back = w.tt.Sext(n, v.w)
			} else {
				back = w.tt.Zext(n, v.w)
			}
			if !w.branch(w.tt.Eq(back, v)) {
				return nil, "gob: value out of range"
			}
			v = n
		}
		o := old.(*Term)
		return w.tt.Ite(w.tt.Eq(v, w.tt.C(wd, 0)), o, v), ""
	case *types.Pointer:
		p := old.(Ptr)
		if p.o == nil {
			p = Ptr{w.newZero(u.Elem()), 0}
		}
		x, err := w.gobDec(u.Elem(), g, w.loadN(p, u.Elem()), depth+1)
		if err != "" {
			return nil, err
		}
		w.storeN(p, x)
		return p, ""
	case *types.Slice:
		if g.kind != 'l' {
			return nil, mis
		}
		esz := w.layout(u.Elem()).n
		o := w.newObj(len(g.es)*esz, "gob slice")
		var slots []Value
		for _, e := range g.es {
			x, err := w.gobDec(u.Elem(), e, w.zeroV(u.Elem()), depth+1)
			if err != "" {
				return nil, err
			}
			slots = append(slots, slotsOf(x)...)
		}
		o.slots = slots
		return Slice{o: o, ln: len(g.es), cp: len(g.es)}, ""
	case *types.Array:
		if g.kind != 'l' || len(g.es) != int(u.Len()) {
			return nil, mis
		}
		r := Agg{}
		for _, e := range g.es {
			x, err := w.gobDec(u.Elem(), e, w.zeroV(u.Elem()), depth+1)
			if err != "" {
				return nil, err
			}
			r = append(r, slotsOf(x)...)
		}
		return r, ""
	case *types.Map:
		if g.kind != 'm' {
			return nil, mis
		}
		m := old.(*MapObj)
		if m == nil {
			m = w.newMap(u.Key(), u.Elem())
		}
		for i := range g.es {
			k, err := w.gobDec(u.Key(), g.ks[i], w.zeroV(u.Key()), depth+1)
			if err != "" {
				return nil, err
			}
			x, err := w.gobDec(u.Elem(), g.es[i], w.zeroV(u.Elem()), depth+1)
			if err != "" {
				return nil, err
			}
			w.mapSet(m, k, x)
		}
		return m, ""
	case *types.Struct:
		if g.kind != 't' {
			return nil, mis
		}
		l := w.layout(t)
		r := append(Agg{}, old.(Agg)...)
		hit := false
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			for j, n := range g.names {
				if n != f.Name() {
					continue
				}
				hit = true
				x, err := w.gobDec(f.Type(), g.es[j], packV(f.Type(), r[l.foff[i]:l.foff[i]+l.fn[i]]), depth+1)
				if err != "" {
					return nil, err
				}
				copy(r[l.foff[i]:l.foff[i]+l.fn[i]], slotsOf(x))
			}
		}
		if !hit {
			return nil, "gob: type mismatch: no fields matched compiling decoder"
		}
		return r, ""
	case *types.Interface:
		if g.kind != 'i' {
			return nil, mis
		}
		x, err := w.gobDec(g.rt.t, g.es[0], w.zeroV(g.rt.t), depth+1)
		if err != "" {
			return nil, err
		}
		if u.NumMethods() > 0 && !w.implements(g.rt, u) {
			return nil, "gob: type does not implement interface"
		}
		return Iface{g.rt, x}, ""
	}
	return nil, mis
}

func gobEncode(w *Worker, fn *ssa.Function, a []Value) Value {
	st := w.gobStream(a[0])
	if st.err != nil {
		return st.err
	}
	i := a[1].(Iface)
	if i.t == nil {
		return w.mkError("gob: cannot encode nil pointer of type <nil>")
	}
	g, msg := w.gobEnc(i.t.t, i.v, 0)
	if msg != "" {
		st.err = w.mkError(msg)
		return st.err
	}
	id := len(w.gobBlobs)
	w.gobBlobs = append(w.gobBlobs, gobBlob{g})
	tok := make([]byte, gobTok)
	copy(tok, "\x17GOBSTUB")
	tok[8] = byte(id >> 8)
	tok[9] = byte(id)
	for k := 10; k < gobTok; k++ {
		tok[k] = byte(0xa0 + k)
	}
	for k := 0; k < gobTok; k += 8 {
		r := w.writeTo(st.io, string(tok[k:k+8])).(Tuple)
		if r[1].(Iface).t != nil {
			st.err = r[1]
			return st.err
		}
	}
	w.ex.limit("stub:encoding/gob", "encoding/gob is replaced by a contract stub (deep copy of exported fields behind a token written to and read from the real writer/reader); native replay uses the real package")
	return nilIface
}

func (w *Worker) ioErr(name string) Value {
	p := w.ex.prog.ImportedPackage("io")
	w.ensureInit(p)
	return w.global(p.Var(name)).slots[0]
}

func (w *Worker) isIoErr(e Value, name string) bool {
	return e == w.ioErr(name)
}

func gobDecode(w *Worker, fn *ssa.Function, a []Value) Value {
	st := w.gobStream(a[0])
	if st.err != nil {
		return st.err
	}
	rd := st.io.(Iface)
	byteReader := rd.t != nil && w.methodByName(rd.t, "ReadByte") != nil
	for tries := 0; len(st.buf) < gobTok; tries++ {
		want := 4096
		if byteReader {
			want = gobTok - len(st.buf)
		}
		if tries > 100 {
			st.err = w.ioErr("ErrNoProgress")
			return st.err
		}
		o := w.newObj(want, "gob read buffer")
		for k := range o.slots {
			o.slots[k] = w.tt.C(8, 0)
		}
		r := w.invokeByName(rd, "Read", Slice{o: o, ln: want, cp: want}).(Tuple)
		n := int(w.concretize(r[0].(*Term)))
		for k := 0; k < n; k++ {
			st.buf = append(st.buf, o.slots[k].(*Term))
		}
		if r[1].(Iface).t != nil && len(st.buf) < gobTok {
			e := r[1]
			if w.isIoErr(e, "EOF") && len(st.buf) > 0 {
				e = w.ioErr("ErrUnexpectedEOF")
			}
			st.err = e
			return e
		}
	}
	bad := func() Value {
		st.err = w.mkError("gob: bad data")
		return st.err
	}
	tok := st.buf[:gobTok]
	ok := w.tt.T
	for k, c := range []byte("\x17GOBSTUB") {
		ok = w.tt.And(ok, w.tt.Eq(tok[k], w.tt.C(8, uint64(c))))
	}
	for k := 10; k < gobTok; k++ {
		ok = w.tt.And(ok, w.tt.Eq(tok[k], w.tt.C(8, uint64(0xa0+k))))
	}
	if !w.branch(ok) {
		return bad()
	}
	id := int(w.concretize(tok[8]))<<8 | int(w.concretize(tok[9]))
	st.buf = st.buf[gobTok:]
	if id >= len(w.gobBlobs) {
		return bad()
	}
	d := a[1].(Iface)
	if d.t == nil {
		return nilIface
	}
	pt, isp := d.t.t.Underlying().(*types.Pointer)
	if !isp {
		return w.mkError("gob: attempt to decode into a non-pointer")
	}
	p := d.v.(Ptr)
	x, msg := w.gobDec(pt.Elem(), w.gobBlobs[id].n, w.loadN(p, pt.Elem()), 0)
	if msg != "" {
		st.err = w.mkError(msg)
		return st.err
	}
	w.storeN(p, x)
	return nilIface
}
