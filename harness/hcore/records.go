package hcore

import (
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// tail is appended after the record: a parser must leave it alone.
var tail = []byte{0xde, 0xad, 0xbe, 0xef}

func chunk() int { return sym.Choice("chunk", 2) }

// done checks that exactly the record was consumed.
func done(r *hx.Reader, err error) {
	sym.Assert(err == nil, "well-formed record rejected")
	sym.Assert(r.Pos == len(r.B)-len(tail), "wrong number of bytes consumed")
}

// H_TopRecords: every top-level record kind decodes to exactly the encoded fields.
func H_TopRecords() {
	id := hx.IDSize()
	b := hx.New(id)
	kind := sym.Choice("kind", 5)
	ch := chunk()
	switch kind {
	case 0: // record header
		tag, tm, n := sym.U8("tag"), sym.U32("time"), sym.U32("n")
		b.U1(tag)
		b.U4(tm)
		b.U4(n)
		b.Raw(tail)
		r := hx.NewReader(b.Buf, ch)
		h, err := core.NewRecordParser(r, uint32(id)).ParseRecordHeader()
		done(r, err)
		sym.Observe("h", h)
		sym.Assert(sym.And(byte(h.Tag) == tag, h.Remaining == n), "record header fields")
	case 1: // utf8
		n := sym.Choice("len", 5+12*sym.Tier())
		i, s := hx.ID("id", id), sym.Bytes("s", n)
		b.Id(i)
		b.Raw(s)
		b.Raw(tail)
		r := hx.NewReader(b.Buf, ch)
		u, err := core.NewRecordParser(r, uint32(id)).ParseHprofUtf8(uint32(id + n))
		done(r, err)
		sym.Observe("u", u)
		sym.Assert(uint64(u.Identifier) == i, "utf8 id")
		sym.Assert(sym.EqStr(u.Characters, string(s)), "utf8 text")
	case 2:
		ser, obj, tr, nm := sym.U32("ser"), hx.ID("obj", id), sym.U32("tr"), hx.ID("nm", id)
		b.U4(ser)
		b.Id(obj)
		b.U4(tr)
		b.Id(nm)
		b.Raw(tail)
		r := hx.NewReader(b.Buf, ch)
		v, err := core.NewRecordParser(r, uint32(id)).ParseHprofLoadClass()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(v.ClassSerialNumber == ser, uint64(v.ClassObjectId) == obj, v.StackTraceSerialNumber == tr, uint64(v.ClassNameId) == nm), "load class fields")
	case 3:
		f, m, sg, src := hx.ID("f", id), hx.ID("m", id), hx.ID("sg", id), hx.ID("src", id)
		cl, ln := sym.U32("cl"), sym.U32("ln")
		b.Id(f)
		b.Id(m)
		b.Id(sg)
		b.Id(src)
		b.U4(cl)
		b.U4(ln)
		b.Raw(tail)
		r := hx.NewReader(b.Buf, ch)
		v, err := core.NewRecordParser(r, uint32(id)).ParseHprofFrame()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(uint64(v.StackFrameId) == f, uint64(v.MethodNameId) == m, uint64(v.MethodSignatureId) == sg, uint64(v.SourceFileNameId) == src,
			v.ClassSerialNumber == cl, int32(v.LineNumber) == int32(ln)), "frame fields")
	case 4:
		n := sym.Choice("frames", 4+5*sym.Tier())
		ser, th := sym.U32("ser"), sym.U32("th")
		fs := make([]uint64, n)
		b.U4(ser)
		b.U4(th)
		b.U4(uint32(n))
		for i := range fs {
			fs[i] = hx.ID("fr", id)
			b.Id(fs[i])
		}
		b.Raw(tail)
		r := hx.NewReader(b.Buf, ch)
		v, err := core.NewRecordParser(r, uint32(id)).ParseHprofTrace()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(v.StackTraceSerialNumber == ser, v.ThreadSerialNumber == th, v.NumberOfFrames == uint32(n), len(v.StackFrameIds) == n), "trace fields")
		for i := range fs {
			sym.Assert(uint64(v.StackFrameIds[i]) == fs[i], "trace frame ids")
		}
	}
}

// H_SubRecords: GC roots and object headers, with the size the position accounting uses.
func H_SubRecords() {
	id := hx.IDSize()
	b := hx.New(id)
	kind := sym.Choice("kind", 9)
	ch := chunk()
	o, o2 := hx.ID("o", id), hx.ID("o2", id)
	x, y := sym.U32("x"), sym.U32("y")
	sz := core.NewSizeInfo(uint32(id))
	switch kind {
	case 0:
		b.JniGlobal(o, o2)
	case 1:
		b.JniLocal(o, x, y)
	case 2:
		b.JavaFrame(o, x, y)
	case 3:
		b.Sticky(o)
	case 4:
		b.ThreadObj(o, x, y)
	case 5: // instance header
		b.U1(0x21)
		b.Id(o)
		b.U4(x)
		b.Id(o2)
		b.U4(y)
	case 6:
		b.U1(0x22)
		b.Id(o)
		b.U4(x)
		b.U4(y)
		b.Id(o2)
	case 7:
		b.U1(0x23)
		b.Id(o)
		b.U4(x)
		b.U4(y)
		b.U1(hx.Types[sym.Choice("ty", len(hx.Types))])
	case 8:
		b.U1(sym.U8("anyType"))
	}
	want := b.Buf[0]
	n := len(b.Buf) - 1
	ty := b.Buf[n]
	b.Raw(tail)
	r := hx.NewReader(b.Buf, ch)
	p := core.NewRecordParser(r, uint32(id))
	h, err := p.ParseSubRecordHeader()
	sym.Assert(err == nil && byte(h.SubRecordType) == want, "sub-record type")
	switch kind {
	case 0:
		v, err := p.ParseHprofGcRootJniGlobal()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(uint64(v.ObjectId) == o, uint64(v.JniGlobalRefId) == o2), "jni global fields")
		sym.Assert(sz.Of(v) == n, "jni global size")
	case 1:
		v, err := p.ParseHprofGcRootJniLocal()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(uint64(v.ObjectId) == o, v.ThreadSerialNumber == x, v.FrameNumberInStackTrace == y), "jni local fields")
		sym.Assert(sz.Of(v) == n, "jni local size")
	case 2:
		v, err := p.ParseHprofGcRootJavaFrame()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(uint64(v.ObjectId) == o, v.ThreadSerialNumber == x, v.FrameNumberInStackTrace == y), "java frame fields")
		sym.Assert(sz.Of(v) == n, "java frame size")
	case 3:
		v, err := p.ParseHprofGcRootStickyClass()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(uint64(v.ObjectId) == o, "sticky class fields")
		sym.Assert(sz.Of(v) == n, "sticky class size")
	case 4:
		v, err := p.ParseHprofGcRootThreadObj()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(uint64(v.ThreadObjectId) == o, v.ThreadSequenceNumber == x, v.StackTraceSequenceNumber == y), "thread object fields")
		sym.Assert(sz.Of(v) == n, "thread object size")
	case 5:
		v, err := p.ParseHprofGcClassDumpInstanceDumpHeader()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(uint64(v.ObjectId) == o, v.StackTraceSerialNumber == x, uint64(v.ClassObjectId) == o2, v.NumberOfBytesThatFollow == y), "instance fields")
		full, rec := sz.OfObject(v)
		sym.Assert(sym.And(rec == int(y), full == n+int(y)), "instance size")
	case 6:
		v, err := p.ParseHprofGcObjArrayDumpHeader()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(uint64(v.ArrayObjectId) == o, v.StackTraceSerialNumber == x, uint64(v.ArrayClassId) == o2, v.NumberOfElements == y), "object array fields")
		full, rec := sz.OfObject(v)
		sym.Assert(sym.And(rec == int(y)*id, full == n+int(y)*id), "object array size")
	case 7:
		v, err := p.ParseHprofGcPrimArrayDumpHeader()
		done(r, err)
		sym.Observe("v", v)
		sym.Assert(sym.And(uint64(v.ArrayObjectId) == o, v.StackTraceSerialNumber == x, byte(v.ElementType) == ty, v.NumberOfElements == y), "primitive array fields")
		full, rec := sz.OfObject(v)
		sym.Assert(sym.And(rec == int(y)*hx.TypeSize(ty, id), full == n+int(y)*hx.TypeSize(ty, id)), "primitive array size")
	}
}

// H_ClassDump: class dumps with constants, statics and instance fields of every type.
func H_ClassDump() {
	id := hx.IDSize()
	mx := 2 + sym.Tier()
	nc, ns, nf := sym.Choice("consts", mx), sym.Choice("statics", mx), sym.Choice("fields", mx+1)
	c := hx.Class{Id: hx.ID("cid", id), Super: hx.ID("super", id), Loader: hx.ID("loader", id), Signers: hx.ID("signers", id), Domain: hx.ID("domain", id),
		Trace: sym.U32("trace"), Size: sym.U32("size")}
	for i := 0; i < nc; i++ {
		c.Consts = append(c.Consts, hx.ConstRec{Index: sym.U16("cidx"), Val: hx.AnyVal("cval", hx.Types[sym.Choice("cty", 9)], id)})
	}
	for i := 0; i < ns; i++ {
		c.Statics = append(c.Statics, hx.StaticRec{Name: hx.ID("sname", id), Val: hx.AnyVal("sval", hx.Types[sym.Choice("sty", 9)], id)})
	}
	for i := 0; i < nf; i++ {
		ft := sym.U8("fty")
		sym.Assume(sym.And(ft >= 2, ft <= 11, ft != 3))
		c.Fields = append(c.Fields, hx.FieldRec{Name: hx.ID("fname", id), Ty: ft})
	}
	b := hx.New(id)
	b.ClassBody(c)
	n := len(b.Buf)
	b.Raw(tail)
	r := hx.NewReader(b.Buf, 0)
	v, err := core.NewRecordParser(r, uint32(id)).ParseHprofGcClassDump()
	done(r, err)
	sym.Observe("v", v)
	sym.Assert(sym.And(uint64(v.ClassObjectId) == c.Id, uint64(v.SuperclassObjectId) == c.Super, uint64(v.ClassloaderObjectId) == c.Loader,
		uint64(v.SignersObjectId) == c.Signers, uint64(v.ProtectionDomainObjectId) == c.Domain, v.StackTraceSerialNumber == c.Trace, v.InstanceSize == int32(c.Size)), "class fields")
	sym.Assert(int(v.SizeOfConstantPool) == nc && len(v.ConstantPoolRecords) == nc, "constant count")
	sym.Assert(int(v.NumberOfStaticFields) == ns && len(v.StaticFieldRecords) == ns, "static field count")
	sym.Assert(int(v.NumberOfInstanceFields) == nf && len(v.InstanceFieldRecords) == nf, "instance field count")
	for i, x := range v.ConstantPoolRecords {
		sym.Assert(sym.And(x.ConstantPoolIndex == c.Consts[i].Index, byte(x.Ty) == c.Consts[i].Val.Ty, hx.SameValue(x.Value, c.Consts[i].Val)), "constant pool entry")
	}
	for i, x := range v.StaticFieldRecords {
		sym.Assert(sym.And(uint64(x.StaticFieldName) == c.Statics[i].Name, byte(x.Ty) == c.Statics[i].Val.Ty, hx.SameValue(x.Value, c.Statics[i].Val)), "static field entry")
	}
	for i, x := range v.InstanceFieldRecords {
		sym.Assert(sym.And(uint64(x.InstanceFieldName) == c.Fields[i].Name, byte(x.Ty) == c.Fields[i].Ty), "instance field entry")
	}
	sym.Assert(core.NewSizeInfo(uint32(id)).Of(v) == n, "class dump size")
}

// H_Values: one value of every type byte, including bytes that name no type.
func H_Values() {
	id := hx.IDSize()
	ty := sym.U8("ty")
	raw := sym.Bytes("raw", 8)
	b := append(append([]byte{}, raw...), tail...)
	r := hx.NewReader(b, chunk())
	p := core.NewPrimitiveParser(r, uint32(id))
	v, err := p.ParseJavaValue(core.JavaType(ty))
	sym.Observe("v", v)
	sym.Observe("err", err)
	ok := sym.And(ty >= 2, ty <= 11, ty != 3)
	sym.Assert((err == nil) == ok, "value types accepted")
	if err != nil {
		sym.Assert(r.Pos == 0, "bytes consumed for an unknown type")
		return
	}
	n := 0
	switch ty {
	case 2:
		n = id
	case 4, 8:
		n = 1
	case 5, 9:
		n = 2
	case 6, 10:
		n = 4
	case 7, 11:
		n = 8
	}
	sym.Assert(r.Pos == n, "value width")
	for _, t := range hx.Types {
		if t == ty {
			sym.Assert(hx.SameValue(v, hx.Val{Ty: t, Raw: raw[:n]}), "value decoded")
		}
	}
	sym.Assert(core.NewSizeInfo(uint32(id)).OfType(core.JavaType(ty)) == n, "size of type")
	// typed accessors
	bv, e1 := v.ToBool()
	iv, e2 := v.ToInt()
	lv, e3 := v.ToLong()
	ov, e4 := v.ToObject()
	sym.Assert((e1 == nil) == (ty == 4) && (e2 == nil) == (ty == 10) && (e3 == nil) == (ty == 11) && (e4 == nil) == (ty == 2), "typed accessor accepts only its type")
	sym.Assert(e1 != nil || bv == (raw[0] != 0), "boolean accessor")
	sym.Assert(e2 != nil || iv == int(int32(hx.BE(raw[:4]))), "int accessor")
	sym.Assert(e3 != nil || lv == int(int64(hx.BE(raw[:8]))), "long accessor")
	sym.Assert(e4 != nil || uint64(ov) == hx.BE(raw[:id]), "object accessor")
}

// H_Broken: a record that ends early, or that cannot be read at some byte, is never decoded,
// whether or not reading on would work.
func H_Broken() {
	id := hx.IDSize()
	b := hx.New(id)
	kind := sym.Choice("kind", 16)
	ty := byte(2)
	switch kind {
	case 3:
		b.Raw(sym.Bytes("record", 8+4*id))
	case 1:
		b.Raw(sym.Bytes("record", 2*id))
	case 4:
		b.U4(sym.U32("ser"))
		b.U4(sym.U32("th"))
		b.U4(2)
		b.Raw(sym.Bytes("frames", 2*id))
	case 5:
		ty = hx.Types[sym.Choice("ty", len(hx.Types))]
		b.ClassBody(hx.Class{Id: hx.ID("cid", id), Super: hx.ID("super", id), Loader: hx.ID("loader", id), Signers: hx.ID("signers", id), Domain: hx.ID("domain", id),
			Trace: sym.U32("trace"), Size: sym.U32("size"),
			Consts:  []hx.ConstRec{{Index: sym.U16("cidx"), Val: hx.AnyVal("cval", ty, id)}},
			Statics: []hx.StaticRec{{Name: hx.ID("sname", id), Val: hx.AnyVal("sval", ty, id)}},
			Fields:  []hx.FieldRec{{Name: hx.ID("fname", id), Ty: ty}}})
	case 15:
		ty = hx.Types[sym.Choice("ty", len(hx.Types))]
		b.Raw(hx.AnyVal("val", ty, id).Raw)
	default:
		b.Raw(sym.Bytes("record", [...]int{9, 0, 2*id + 8, 0, 0, 0, 1, 2 * id, id + 8, id + 8, id, id + 8, 2*id + 8, 2*id + 8, id + 9}[kind]))
	}
	n := len(b.Buf)
	r := hx.NewReader(b.Buf, chunk())
	switch sym.Choice("broken", 3) {
	case 0:
		r.B = b.Buf[:sym.Choice("cut", n)]
	case 1:
		r.Fail = sym.Choice("failAt", n)
		r.Once = sym.Choice("once", 2) == 1
		if r.Once {
			b.Raw(sym.Bytes("more", n))
			r.B = b.Buf
		}
	case 2:
		r.B = b.Buf[:sym.Choice("cut", n)]
		r.EagerEOF = true
	}
	p := core.NewRecordParser(r, uint32(id))
	var err error
	switch kind {
	case 0:
		_, err = p.ParseRecordHeader()
	case 1:
		_, err = p.ParseHprofUtf8(uint32(n))
	case 2:
		_, err = p.ParseHprofLoadClass()
	case 3:
		_, err = p.ParseHprofFrame()
	case 4:
		_, err = p.ParseHprofTrace()
	case 5:
		_, err = p.ParseHprofGcClassDump()
	case 6:
		_, err = p.ParseSubRecordHeader()
	case 7:
		_, err = p.ParseHprofGcRootJniGlobal()
	case 8:
		_, err = p.ParseHprofGcRootJniLocal()
	case 9:
		_, err = p.ParseHprofGcRootJavaFrame()
	case 10:
		_, err = p.ParseHprofGcRootStickyClass()
	case 11:
		_, err = p.ParseHprofGcRootThreadObj()
	case 12:
		_, err = p.ParseHprofGcClassDumpInstanceDumpHeader()
	case 13:
		_, err = p.ParseHprofGcObjArrayDumpHeader()
	case 14:
		_, err = p.ParseHprofGcPrimArrayDumpHeader()
	case 15:
		_, err = core.NewPrimitiveParser(r, uint32(id)).ParseJavaValue(core.JavaType(ty))
	}
	sym.Assert(err != nil, "a broken record was decoded")
}
