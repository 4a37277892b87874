// Package hjava has the harnesses about reading Java objects of an indexed dump.
package hjava

import (
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/java"
	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

type obj struct {
	id    uint64
	kind  int
	class uint64
	ty    byte
	n     int
	data  []byte
}

// H_Accessor: any sequence of reads by id yields the headers and contents of the objects
// with these ids, and an error for ids without an object of the kind.
func H_Accessor() {
	w := hw.New(hx.IDSize())
	cls := hx.ID("class", w.ID)
	var os []obj
	for i, k := range []int{0, 1, 2, 0, 1, 2} {
		if i >= 3+sym.Choice("more", 2)*3 {
			break
		}
		switch k {
		case 0:
			d := sym.Bytes("data", i%2+1)
			id := w.Fresh()
			w.RawInstance(id, cls, d)
			os = append(os, obj{id: id, kind: 0, class: cls, n: len(d), data: d})
		case 1:
			e := hx.ID("elem", w.ID)
			var raw hx.B
			raw.ID = w.ID
			raw.Id(e)
			id := w.ObjArray(cls, e)
			os = append(os, obj{id: id, kind: 1, class: cls, n: 1, data: raw.Buf})
		case 2:
			d := sym.Bytes("data", 4)
			id := w.PrimArray(9, 2, d)
			os = append(os, obj{id: id, kind: 2, ty: 9, n: 2, data: d})
		}
	}
	a, _ := w.OpenOn(sym.Choice("chunk", 2))
	for q := 0; q < 2+sym.Tier(); q++ {
		id := hx.ID("query", w.ID)
		kind := sym.Choice("kind", 3)
		read(a, os, id, kind)
	}
}

func read(a *dump.ParsedAccessor, os []obj, id uint64, kind int) {
	var want obj
	present := false
	for _, o := range os {
		if o.kind == kind && o.id == id {
			want, present = o, true
		}
	}
	var err error
	size := 0
	switch kind {
	case 0:
		var h core.HprofGcClassDumpInstanceDumpHeader
		h, err = a.GetHprofGcInstanceDump(core.Identifier(id))
		if present && err == nil {
			sym.Assert(sym.And(uint64(h.ObjectId) == want.id, uint64(h.ClassObjectId) == want.class, int(h.NumberOfBytesThatFollow) == want.n), "instance header by id")
			size = want.n
		}
	case 1:
		var h core.HprofGcObjArrayDumpHeader
		h, err = a.GetHprofGcObjArray(core.Identifier(id))
		if present && err == nil {
			sym.Assert(sym.And(uint64(h.ArrayObjectId) == want.id, uint64(h.ArrayClassId) == want.class, int(h.NumberOfElements) == want.n), "object array header by id")
			size = len(want.data)
		}
	case 2:
		var h core.HprofGcPrimArrayDumpHeader
		h, err = a.GetHprofGcPrimArray(core.Identifier(id))
		if present && err == nil {
			sym.Assert(sym.And(uint64(h.ArrayObjectId) == want.id, byte(h.ElementType) == want.ty, int(h.NumberOfElements) == want.n), "primitive array header by id")
			size = len(want.data)
		}
	}
	sym.Assert((err == nil) == present, "an object is found exactly if the dump has one of that kind with the id")
	if present {
		b, err := a.GetBytesFromCurrent(size)
		sym.Assert(err == nil && sym.EqBytes(b, want.data), "contents follow the header")
	}
}

// H_AccessorFail: when the dump cannot be read, the reads say so.
func H_AccessorFail() {
	w := hw.New(hx.IDSize())
	d := sym.Bytes("data", 3)
	i := w.Fresh()
	w.RawInstance(i, w.Fresh(), d)
	o := w.ObjArray(w.Fresh(), i)
	p := w.PrimArray(8, 3, d)
	a, f := w.OpenOn(0)
	if sym.Bool("seek fails") {
		f.SeekErr = hx.ErrIO
	} else {
		f.Fail = 0
	}
	var err error
	switch sym.Choice("kind", 3) {
	case 0:
		_, err = a.GetHprofGcInstanceDump(core.Identifier(i))
	case 1:
		_, err = a.GetHprofGcObjArray(core.Identifier(o))
	case 2:
		_, err = a.GetHprofGcPrimArray(core.Identifier(p))
	}
	sym.Assert(err != nil, "an unreadable dump is reported")
	_, err = a.GetBytesFromCurrent(1)
	sym.Assert(err != nil || f.SeekErr != nil, "unreadable contents are reported")
}

// typeSize is hx.TypeSize for an arbitrary type.
func typeSize(ty byte, idSize int) int {
	r := 0
	for _, t := range hx.Types {
		r = sym.SelInt(ty == t, hx.TypeSize(t, idSize), r)
	}
	return r
}

// anyType is an arbitrary defined type.
func anyType() byte {
	ty := sym.U8("type")
	sym.Assume(sym.And(ty >= 2, ty <= 11, ty != 3))
	return ty
}

// H_Fields: a field is the first one with its name on the way from the class of the object
// upward, and its value lies behind those of all fields before it.
func H_Fields() {
	w := hw.New(hx.IDSize())
	type field struct {
		name  string
		ty    byte
		class int
	}
	var fs []field
	var cs []*hw.Class
	names := []string{"K", "L", "M"}
	for d := 0; d < 2+sym.Tier(); d++ {
		c := w.Class(names[d], nil)
		lo, n := 0, 2
		if d == 0 {
			lo, n = 1, 2
		}
		for i, n := 0, lo+sym.Choice("fields", n); i < n; i++ {
			f := field{sym.String("field", 1), anyType(), d}
			fs = append(fs, f)
			c.Fields = append(c.Fields, hw.Field{Name: f.name, Ty: f.ty})
		}
		if d > 0 {
			cs[d-1].Super = c
		}
		cs = append(cs, c)
	}
	id := w.Fresh()
	n := []int{7, 18, 30}[sym.Choice("bytes", 2+sym.Tier())]
	data := sym.Bytes("data", n)
	w.RawInstance(id, cs[0].Id, data)
	a := w.Open()
	o, err := java.NewHeap(a).ParseNormalObject(core.Identifier(id))
	sym.Assert(err == nil, "object with a complete class")
	sym.Assert(sym.EqBytes(o.Bytes, data), "object contents")
	q := sym.String("query", 1)
	off, at := 0, -1
	for i, f := range fs {
		if f.name == q {
			at = i
			break
		}
		off += typeSize(f.ty, w.ID)
	}
	got, err := o.GetFieldValueByName(q)
	if at < 0 {
		sym.Assert(err != nil, "a field the class does not have is reported")
		return
	}
	f := fs[at]
	size := typeSize(f.ty, w.ID)
	if off+size > n {
		sym.Assert(err != nil, "an object too short for its class is reported")
		return
	}
	sym.Assert(err == nil, "field of the class found")
	sym.Assert(sym.EqStr(got.Origin, names[f.class]), "class that defines the field")
	for _, t := range hx.Types {
		if f.ty == t {
			k := sym.Pin(off)
			sym.Assert(hx.SameValue(got.Value, hx.Val{Ty: t, Raw: data[k : k+hx.TypeSize(t, w.ID)]}), "field value")
		}
	}
}

// H_Class: a class comes with its name, fields and all its superclasses; whatever is
// missing is reported, and so is a class that is its own superclass.
func H_Class() {
	w := hw.New(hx.IDSize())
	n := 3 + sym.Tier()
	var raw []*hx.Class
	var ids, supers []uint64
	var cls []*hw.Class
	ok := make([]bool, n)
	missing, victim, ty := sym.Choice("missing", 6), 0, byte(10)
	if missing > 0 {
		victim = sym.Choice("victim", n)
	} else {
		ty = hx.Types[sym.Choice("static type", 9)]
	}
	var nm []string
	for i := 0; i < n; i++ {
		nm = append(nm, sym.String("name", i+1))
		c := w.Class(nm[i], nil)
		ids = append(ids, c.Id)
		cls = append(cls, c)
	}
	for i, c := range cls {
		sup := hx.ID("super", w.ID)
		supers = append(supers, sup)
		d := &hx.Class{Id: c.Id, Super: sup, Loader: hx.ID("loader", w.ID)}
		if i == 0 {
			d.Statics = []hx.StaticRec{{Name: w.Utf8("stat"), Val: hx.AnyVal("static", ty, w.ID)}}
			d.Fields = []hx.FieldRec{{Name: w.Utf8("f1"), Ty: 10}, {Name: w.Utf8("f2"), Ty: ty}}
		}
		ok[i] = true
		if missing > 0 && i == victim {
			ok[i] = false
			switch missing {
			case 1:
				c.NoLoad = true
			case 2:
				c.NoDump = true
			case 3:
				c.NameId = w.Fresh()
			case 4:
				d.Statics = append(d.Statics, hx.StaticRec{Name: w.Fresh(), Val: hw.Int(1)})
			case 5:
				d.Fields = append(d.Fields, hx.FieldRec{Name: w.Fresh(), Ty: 2})
			}
		}
		c.Raw = d
		raw = append(raw, d)
	}
	h := java.NewHeap(w.Open())
	// whatever was asked for before, failed or not
	for _, i := range [][]int{{0}, {0, 0}, {1, 0, 1}, {0, 1}}[sym.Choice("order", 4)] {
		got, err := h.ParseClass(core.Identifier(ids[i]))
		// walk the chain
		var chain []int
		good := true
		seen := make([]bool, n)
		for at := ids[i]; at != 0; {
			k := -1
			for j := range ids {
				if ids[j] == at {
					k = j
				}
			}
			if k < 0 || !ok[k] || seen[k] {
				good = false
				break
			}
			seen[k] = true
			chain = append(chain, k)
			at = supers[k]
		}
		sym.Assert((err == nil) == good, "a class is read exactly if it and its superclasses are complete")
		if !good {
			continue
		}
		c := &got
		for _, k := range chain {
			sym.Assert(c != nil && sym.EqStr(c.Name, nm[k]), "class name")
			if k == 0 {
				sym.Assert(len(c.StaticFields) == 1 && c.StaticFields[0].Name == "stat" && byte(c.StaticFields[0].Type) == ty &&
					hx.SameValue(c.StaticFields[0].Value, raw[0].Statics[0].Val), "static fields of the class")
				sym.Assert(len(c.InstanceFields) == 2 && c.InstanceFields[0].Name == "f1" && c.InstanceFields[0].Type == core.Int &&
					c.InstanceFields[1].Name == "f2" && byte(c.InstanceFields[1].Type) == ty, "instance fields of the class")
			} else {
				sym.Assert(len(c.StaticFields) == 0 && len(c.InstanceFields) == 0, "no fields of other classes")
			}
			c = c.Superclass
		}
		sym.Assert(c == nil, "the chain ends at the class without superclass")
	}
}

// H_ObjArray: an object array yields its class and all its elements in order.
func H_ObjArray() {
	w := hw.New(hx.IDSize())
	n := sym.Choice("n", 4+4*sym.Tier())
	cls := hx.ID("class", w.ID)
	var es []uint64
	for i := 0; i < n; i++ {
		es = append(es, hx.ID("elem", w.ID))
	}
	before := w.ObjArray(cls, 1, 2)
	id := w.ObjArray(cls, es...)
	prim := w.PrimArray(8, 1, []byte{1})
	a, f := w.OpenOn(sym.Choice("chunk", 2))
	h := java.NewHeap(a)
	var other []core.Identifier
	if sym.Choice("other first", 2) == 1 {
		x, err := h.ParseObjectArrayFull(core.Identifier(before))
		sym.Assert(err == nil && sym.Equal(x.Elements, []core.Identifier{1, 2}), "elements of the other array")
		other = x.Elements
	}
	got, err := h.ParseObjectArrayFull(core.Identifier(id))
	sym.Assert(err == nil && uint64(got.ArrayClassId) == cls, "object array class")
	sym.Assert(len(got.Elements) == n, "number of elements")
	for i, e := range got.Elements {
		sym.Assert(uint64(e) == es[i], "elements in order")
	}
	if other != nil {
		sym.Assert(sym.Equal(other, []core.Identifier{1, 2}), "what was read before is kept")
		_, err = h.ParseObjectArrayFull(core.Identifier(before))
		sym.Assert(err == nil && len(got.Elements) == n, "elements of the other array again")
		for i, e := range got.Elements {
			sym.Assert(uint64(e) == es[i], "what was read before is kept")
		}
	}
	_, err = h.ParseObjectArrayFull(core.Identifier(prim))
	sym.Assert(err != nil, "an array of another kind is refused")
	if n > 0 {
		f.Fail = f.Pos - 1
		_, err = h.ParseObjectArrayFull(core.Identifier(id))
		sym.Assert(err != nil, "unreadable elements are reported")
	}
}

// utf8 is the encoding of a Unicode character, U+FFFD for a lone surrogate.
func utf8(r uint32) []byte {
	switch {
	case r < 0x80:
		return []byte{byte(r)}
	case r < 0x800:
		return []byte{byte(0xc0 | r>>6), byte(0x80 | r&0x3f)}
	case r >= 0xd800 && r < 0xe000:
		return []byte{0xef, 0xbf, 0xbd}
	case r < 0x10000:
		return []byte{byte(0xe0 | r>>12), byte(0x80 | r>>6&0x3f), byte(0x80 | r&0x3f)}
	}
	return []byte{byte(0xf0 | r>>18), byte(0x80 | r>>12&0x3f), byte(0x80 | r>>6&0x3f), byte(0x80 | r&0x3f)}
}

// H_Strings: a string is the text the Java program sees, in either representation.
func H_Strings() {
	w := hw.New(hx.IDSize())
	c := w.StringClass()
	var want []byte
	var arr uint64
	coder := byte(sym.Choice("coder", 2))
	if coder == 0 {
		s := sym.Bytes("latin1", sym.Choice("n", 4+2*sym.Tier()))
		for _, b := range s {
			want = append(want, utf8(uint32(b))...)
		}
		arr = w.PrimArray(8, len(s), s)
	} else {
		n := sym.Choice("n", 3+sym.Tier())
		u := make([]uint16, n)
		var raw []byte
		for i := range u {
			u[i] = sym.U16("utf16")
			raw = append(raw, byte(u[i]), byte(u[i]>>8))
		}
		for i := 0; i < n; i++ {
			r := uint32(u[i])
			if r >= 0xd800 && r < 0xdc00 && i+1 < n && u[i+1] >= 0xdc00 && u[i+1] < 0xe000 {
				r = (r-0xd800)<<10 + uint32(u[i+1]-0xdc00) + 0x10000
				i++
			}
			want = append(want, utf8(r)...)
		}
		arr = w.PrimArray(8, 2*n, raw)
	}
	hash := sym.U32("hash")
	others := []uint64{w.String([]byte("one")), w.Instance(c, hw.Byte(1), hw.Int(hash), w.Ref(w.PrimArray(8, 4, []byte("t\x00w\x00"))))}
	id := w.Instance(c, hw.Byte(coder), hw.Int(hash), w.Ref(arr))
	a, _ := w.OpenOn(sym.Choice("chunk", 2))
	h := java.NewHeap(a)
	// whatever was read before
	for _, i := range [][]int{{2}, {0, 2, 2}, {1, 2, 1}, {2, 0, 2, 1}}[sym.Choice("order", 4)] {
		id, want := id, string(want)
		if i < 2 {
			id, want = others[i], []string{"one", "tw"}[i]
		}
		got, err := h.ParseJavaString(core.JavaValue{Type: core.Object, Value: core.Identifier(id)})
		sym.Assert(err == nil, "string is readable")
		sym.Assert(sym.EqStr(got, want), "text of the string")
	}
}

// H_NotStrings: whatever is not a string is refused.
func H_NotStrings() {
	w := hw.New(hx.IDSize())
	c := w.StringClass()
	// any other name, however similar
	name := []byte("java/lang/String")
	n := sym.Choice("name", len(name)+3)
	x := sym.U8("x")
	switch {
	case n < len(name):
		sym.Assume(x != name[n])
		name[n] = x
	case n == len(name):
		name = append(name, x)
	case n == len(name)+1:
		name = append([]byte{x}, name...)
	default:
		name = name[:len(name)-1]
	}
	other := w.Class(string(name), nil, hw.Field{Name: "coder", Ty: 8}, hw.Field{Name: "hash", Ty: 10}, hw.Field{Name: "value", Ty: 2})
	noval := w.Class("other", nil)
	text := sym.Bytes("text", 4)
	arr := w.PrimArray(8, 4, text)
	ints := w.PrimArray(10, 1, text)
	objs := w.ObjArray(c.Id, 0)
	str := w.String(text)
	var v core.JavaValue
	ref := func(id uint64) core.JavaValue { return core.JavaValue{Type: core.Object, Value: core.Identifier(id)} }
	k := 0
	if n == 0 {
		k = sym.Choice("case", 9)
	}
	switch k {
	case 0:
		v = ref(w.Instance(other, hw.Byte(0), hw.Int(0), w.Ref(arr)))
	case 1:
		v = ref(w.Instance(c, hw.Byte(0), hw.Int(0), w.Ref(0)))
	case 2:
		v = ref(w.Instance(c, hw.Byte(0), hw.Int(0), w.Ref(ints)))
	case 3:
		v = ref(w.Instance(c, hw.Byte(0), hw.Int(0), w.Ref(objs)))
	case 4:
		v = ref(w.Instance(c, hw.Byte(0), hw.Int(0), w.Ref(str)))
	case 5:
		v = ref(w.Instance(c, hw.Byte(0), hw.Int(0)))
	case 6:
		v = ref(arr)
	case 7:
		v = ref(w.Instance(noval))
	case 8:
		ty := sym.U8("type")
		sym.Assume(ty != 2)
		v = core.JavaValue{Type: core.JavaType(ty), Value: core.Identifier(str)}
	}
	a := w.Open()
	_, err := java.NewHeap(a).ParseJavaString(v)
	sym.Assert(err != nil, "a value that is not a string is refused")
}

// H_SameNames: classes of two loaders may have one name, and one record may name both; what
// one of them has says nothing about the other, in whatever order they are read, and however
// often. Names that run into one another are different names.
func H_SameNames() {
	w := hw.New(hx.IDSize())
	type layout struct {
		c  *hw.Class
		n  string
		fs []hw.Field
		id uint64
		d  []byte
	}
	var ls [2]layout
	names := []string{sym.String("name", 1+sym.Choice("short", 2)), sym.String("name", 1+sym.Choice("short", 2))}
	fields := []hw.Field{
		{Name: sym.String("field", 1+sym.Choice("long", 2)), Ty: 8},
		{Name: sym.String("field", 1+sym.Choice("long", 2)), Ty: 9},
		{Name: sym.String("field", 1), Ty: 10},
	}
	shared := sym.Choice("one record names both", 2) == 1
	for i := range ls {
		l := &ls[i]
		l.n = names[i]
		l.c = w.Class(names[i], nil)
		if i == 1 && shared {
			l.n, l.c.NameId = names[0], ls[0].c.NameId
		}
	}
	ls[0].c.Fields = fields[:2]
	ls[1].c.Fields = fields[1:]
	sup := sym.Choice("superclass", 3)
	for i := range ls {
		l := &ls[i]
		l.fs = l.c.Fields
		if sup == 1+i {
			l.c.Super = ls[1-i].c
			l.fs = append(append([]hw.Field{}, l.fs...), ls[1-i].c.Fields...)
		}
		l.id = w.Fresh()
		l.d = sym.Bytes("data", 13)
		w.RawInstance(l.id, l.c.Id, l.d)
	}
	h := java.NewHeap(w.Open())
	for q := 0; q < 2+sym.Tier(); q++ {
		l := &ls[sym.Choice("object", 2)]
		o, err := h.ParseNormalObject(core.Identifier(l.id))
		sym.Assert(err == nil && sym.EqBytes(o.Bytes, l.d), "contents of the object")
		k := &o.Class
		at := 0
		for k != nil {
			if at == len(l.c.Fields) && l.c.Super != nil {
				other := ls[0].n
				if l == &ls[0] {
					other = ls[1].n
				}
				sym.Assert(sym.EqStr(k.Name, other), "name of the superclass")
			} else {
				sym.Assert(at == 0 && sym.EqStr(k.Name, l.n), "name of the class")
			}
			for _, f := range k.InstanceFields {
				sym.Assert(at < len(l.fs) && byte(f.Type) == l.fs[at].Ty && sym.EqStr(f.Name, l.fs[at].Name), "fields of the class")
				at++
			}
			k = k.Superclass
		}
		sym.Assert(at == len(l.fs), "all fields of the class")
		n := fields[sym.Choice("query", 3)].Name
		off, f := 0, -1
		for i := range l.fs {
			if l.fs[i].Name == n {
				f = i
				break
			}
			off += hx.TypeSize(l.fs[i].Ty, w.ID)
		}
		got, err := o.GetFieldValueByName(n)
		sym.Assert((err == nil) == (f >= 0), "a field is found exactly if the class has it")
		if f >= 0 && err == nil {
			sym.Assert(hx.SameValue(got.Value, hx.Val{Ty: l.fs[f].Ty, Raw: l.d[off : off+hx.TypeSize(l.fs[f].Ty, w.ID)]}), "value of the field")
		}
	}
}

// H_Together: the objects of two dumps stay what they are while others are read and
// asked for their fields, in any order.
func H_Together() {
	type held struct {
		o  java.NormalObject
		fs []hw.Field
		d  []byte
		id int
	}
	var os []*held
	layouts := [][]hw.Field{
		{{Name: "i", Ty: 10}, {Name: "b", Ty: 8}, {Name: "o", Ty: 2}},
		{{Name: "b", Ty: 8}, {Name: "o", Ty: 2}, {Name: "l", Ty: 11}},
		{{Name: "l", Ty: 11}, {Name: "i", Ty: 10}, {Name: "b", Ty: 8}},
	}
	id := hx.IDSize()
	for n := 0; n < 2; n++ {
		w := hw.New(id)
		var h *java.Heap
		var ids []uint64
		k := len(os)
		for i, fs := range layouts[n : n+2] {
			name := "A"
			if i == 1 {
				name = "B"
			}
			c := w.Class(name, nil)
			c.Fields = fs
			for j := 0; j < 2; j++ {
				size := 0
				for _, f := range fs {
					size += hx.TypeSize(f.Ty, w.ID)
				}
				o := &held{fs: fs, d: sym.Bytes("data", size), id: w.ID}
				ids = append(ids, w.Fresh())
				w.RawInstance(ids[len(ids)-1], c.Id, o.d)
				os = append(os, o)
			}
		}
		h = java.NewHeap(w.Open())
		for i, x := range ids {
			var err error
			os[k+i].o, err = h.ParseNormalObject(core.Identifier(x))
			sym.Assert(err == nil, "object with a complete class")
		}
		id = 12 - id
	}
	names := []string{"b", "i", "l", "o"}
	for q := 0; q < 2+sym.Tier(); q++ {
		o := os[sym.Choice("object", len(os))]
		at, name := -1, names[sym.Choice("field", 4)]
		off := 0
		for i, f := range o.fs {
			if f.Name == name {
				at = i
				break
			}
			off += hx.TypeSize(f.Ty, o.id)
		}
		got, err := o.o.GetFieldValueByName(name)
		sym.Assert((err == nil) == (at >= 0), "a field is found exactly if the class has it")
		if at >= 0 && err == nil {
			sym.Assert(hx.SameValue(got.Value, hx.Val{Ty: o.fs[at].Ty, Raw: o.d[off : off+hx.TypeSize(o.fs[at].Ty, o.id)]}), "value of the field")
		}
	}
	for _, o := range os {
		sym.Assert(sym.EqBytes(o.o.Bytes, o.d), "contents of the object")
	}
}
