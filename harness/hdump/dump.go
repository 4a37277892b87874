// Package hdump has the harnesses about indexing whole dumps.
package hdump

import (
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/zzverif/hdb"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// model is what a dump contains.
type model struct {
	id      int
	b       *hx.B
	utf8    []core.HprofUtf8
	load    []core.HprofLoadClass
	frame   []core.HprofFrame
	trace   []core.HprofTrace
	jniG    []core.HprofGcRootJniGlobal
	jniL    []core.HprofGcRootJniLocal
	jfr     []core.HprofGcRootJavaFrame
	sticky  []core.HprofGcRootStickyClass
	thr     []core.HprofGcRootThreadObj
	classes []hx.Class
	inst    []object
	obj     []object
	prim    []object
}

type object struct {
	id    uint64
	off   int
	class uint64
	n     int
	ty    byte
	data  []byte
}

func newModel() *model {
	id := hx.IDSize()
	return &model{id: id, b: hx.New(id)}
}

const topKinds, subKinds = 4, 9

// top appends one arbitrary record outside heap segments.
func (m *model) top(kind int) {
	id, b := m.id, m.b
	switch kind {
	case 0:
		n := sym.Choice("len", 3)
		r := core.HprofUtf8{Identifier: core.Identifier(hx.ID("u", id))}
		s := sym.Bytes("s", n)
		r.Characters = string(s)
		for _, o := range m.utf8 {
			sym.Assume(o.Identifier != r.Identifier)
		}
		b.Utf8(uint64(r.Identifier), s)
		m.utf8 = append(m.utf8, r)
	case 1:
		r := core.HprofLoadClass{ClassSerialNumber: sym.U32("ser"), ClassObjectId: core.Identifier(hx.ID("cls", id)), StackTraceSerialNumber: sym.U32("tr"), ClassNameId: core.Identifier(hx.ID("nm", id))}
		b.LoadClass(r.ClassSerialNumber, uint64(r.ClassObjectId), r.StackTraceSerialNumber, uint64(r.ClassNameId))
		for _, o := range m.load {
			sym.Assume(sym.And(o.ClassObjectId != r.ClassObjectId, o.ClassSerialNumber != r.ClassSerialNumber))
		}
		m.load = append(m.load, r)
	case 2:
		r := core.HprofFrame{StackFrameId: core.Identifier(hx.ID("fr", id)), MethodNameId: core.Identifier(hx.ID("mn", id)), MethodSignatureId: core.Identifier(hx.ID("ms", id)),
			SourceFileNameId: core.Identifier(hx.ID("sf", id)), ClassSerialNumber: sym.U32("ser"), LineNumber: core.LineNumber(sym.I32("line"))}
		for _, o := range m.frame {
			sym.Assume(o.StackFrameId != r.StackFrameId)
		}
		b.Frame(uint64(r.StackFrameId), uint64(r.MethodNameId), uint64(r.MethodSignatureId), uint64(r.SourceFileNameId), r.ClassSerialNumber, uint32(r.LineNumber))
		m.frame = append(m.frame, r)
	case 3:
		n := sym.Choice("frames", 3)
		r := core.HprofTrace{StackTraceSerialNumber: sym.U32("ser"), ThreadSerialNumber: sym.U32("th"), NumberOfFrames: uint32(n)}
		var fs []uint64
		for i := 0; i < n; i++ {
			f := hx.ID("f", id)
			fs = append(fs, f)
			r.StackFrameIds = append(r.StackFrameIds, core.Identifier(f))
		}
		for _, o := range m.trace {
			sym.Assume(o.ThreadSerialNumber != r.ThreadSerialNumber)
		}
		b.Trace(r.StackTraceSerialNumber, r.ThreadSerialNumber, fs)
		m.trace = append(m.trace, r)
	}
}

// sub appends one arbitrary sub-record; objects come in increasing id order.
func (m *model) sub(kind int) {
	id, b := m.id, m.b
	switch kind {
	case 0:
		r := core.HprofGcRootJniGlobal{ObjectId: core.Identifier(hx.ID("o", id)), JniGlobalRefId: core.Identifier(hx.ID("ref", id))}
		b.JniGlobal(uint64(r.ObjectId), uint64(r.JniGlobalRefId))
		m.jniG = append(m.jniG, r)
	case 1:
		r := core.HprofGcRootJniLocal{ObjectId: core.Identifier(hx.ID("o", id)), ThreadSerialNumber: sym.U32("th"), FrameNumberInStackTrace: sym.U32("fn")}
		b.JniLocal(uint64(r.ObjectId), r.ThreadSerialNumber, r.FrameNumberInStackTrace)
		m.jniL = append(m.jniL, r)
	case 2:
		r := core.HprofGcRootJavaFrame{ObjectId: core.Identifier(hx.ID("o", id)), ThreadSerialNumber: sym.U32("th"), FrameNumberInStackTrace: sym.U32("fn")}
		b.JavaFrame(uint64(r.ObjectId), r.ThreadSerialNumber, r.FrameNumberInStackTrace)
		m.jfr = append(m.jfr, r)
	case 3:
		r := core.HprofGcRootStickyClass{ObjectId: core.Identifier(hx.ID("o", id))}
		b.Sticky(uint64(r.ObjectId))
		m.sticky = append(m.sticky, r)
	case 4:
		r := core.HprofGcRootThreadObj{ThreadObjectId: core.Identifier(hx.ID("o", id)), ThreadSequenceNumber: sym.U32("th"), StackTraceSequenceNumber: sym.U32("tr")}
		b.ThreadObj(uint64(r.ThreadObjectId), r.ThreadSequenceNumber, r.StackTraceSequenceNumber)
		m.thr = append(m.thr, r)
	case 5:
		c := hx.Class{Id: hx.ID("cid", id), Super: hx.ID("super", id), Loader: hx.ID("loader", id), Signers: hx.ID("signers", id), Domain: hx.ID("domain", id),
			Trace: sym.U32("trace"), Size: sym.U32("size")}
		v := sym.Choice("classShape", 4)
		if v&1 != 0 {
			ty := hx.Types[sym.Choice("cty", 9)]
			c.Consts = append(c.Consts, hx.ConstRec{Index: sym.U16("cidx"), Val: hx.AnyVal("cval", ty, id)})
			c.Statics = append(c.Statics, hx.StaticRec{Name: hx.ID("sname", id), Val: hx.AnyVal("sval", ty, id)})
		}
		if v&2 != 0 {
			ft := sym.U8("fty")
			sym.Assume(sym.And(ft >= 2, ft <= 11, ft != 3))
			c.Fields = append(c.Fields, hx.FieldRec{Name: hx.ID("fname", id), Ty: ft})
		}
		for _, o := range m.classes {
			sym.Assume(o.Id != c.Id)
		}
		b.Class(c)
		m.classes = append(m.classes, c)
	case 6:
		n := sym.Choice("n", 3)
		o := object{id: hx.ID("oid", id), class: hx.ID("cls", id), n: n, data: sym.Bytes("data", n)}
		order(m.inst, o.id)
		o.off = len(b.Buf) + 1
		b.Instance(o.id, sym.U32("tr"), o.class, o.data)
		m.inst = append(m.inst, o)
	case 7:
		n := sym.Choice("n", 3)
		o := object{id: hx.ID("oid", id), class: hx.ID("cls", id), n: n}
		order(m.obj, o.id)
		var es []uint64
		for i := 0; i < n; i++ {
			es = append(es, hx.ID("e", id))
		}
		o.off = len(b.Buf) + 1
		b.ObjArray(o.id, sym.U32("tr"), o.class, es)
		m.obj = append(m.obj, o)
	case 8:
		n := sym.Choice("n", 3)
		ty := hx.Types[1+sym.Choice("pty", 8)]
		o := object{id: hx.ID("oid", id), n: n, ty: ty, data: sym.Bytes("data", n*hx.TypeSize(ty, id))}
		order(m.prim, o.id)
		o.off = len(b.Buf) + 1
		b.PrimArray(o.id, sym.U32("tr"), ty, n, o.data)
		m.prim = append(m.prim, o)
	}
}

// order assumes that ids grow within a kind, as in every dump a JVM writes.
func order(os []object, id uint64) {
	if len(os) > 0 {
		sym.Assume(os[len(os)-1].id < id)
	}
}

// check compares what was stored with the model.
func (m *model) check(d *hdb.DB) {
	s := d.Small
	sym.Assert(s.IdSize == uint32(m.id), "identifier size kept")
	for _, r := range m.utf8 {
		g, err := s.GetHprofUtf8(r.Identifier)
		sym.Assert(err == nil && sym.And(g.Identifier == r.Identifier, sym.EqStr(g.Characters, r.Characters)), "utf8 record kept")
	}
	sym.Assert(len(s.HprofUtf8) == len(m.utf8), "number of utf8 records")
	sym.Assert(sym.Equal(s.ListHprofLoadClass(), m.load), "load class records kept")
	for _, r := range m.load {
		g, err := s.GetHprofLoadClassByClassObjectId(r.ClassObjectId)
		sym.Assert(err == nil && sym.Equal(g, r), "load class by object id")
		g, err = s.GetHprofLoadClassByClassSerialNumer(r.ClassSerialNumber)
		sym.Assert(err == nil && sym.Equal(g, r), "load class by serial number")
	}
	for _, r := range m.frame {
		g, err := s.GetHprofFrame(r.StackFrameId)
		sym.Assert(err == nil && sym.Equal(g, r), "frame record kept")
	}
	sym.Assert(len(s.HprofFrame) == len(m.frame), "number of frame records")
	for _, r := range m.trace {
		g, err := s.GetHprofTrace(r.ThreadSerialNumber)
		sym.Assert(err == nil && sym.Equal(g, r), "trace record kept")
	}
	sym.Assert(len(s.HprofTrace) == len(m.trace), "number of trace records")
	sym.Assert(sym.Equal(s.ListHprofGcRootJniGlobal(), m.jniG), "jni global roots kept")
	sym.Assert(sym.Equal(s.ListHprofGcRootJniLocal(), m.jniL), "jni local roots kept")
	sym.Assert(sym.Equal(s.ListHprofGcRootJavaFrame(), m.jfr), "java frame roots kept")
	sym.Assert(sym.Equal(s.ListHprofGcRootStickyClass(), m.sticky), "sticky class roots kept")
	sym.Assert(sym.Equal(s.ListHprofGcRootThreadObj(), m.thr), "thread roots kept")
	for _, c := range m.classes {
		g, err := s.GetHprofGcClassDump(core.Identifier(c.Id))
		sym.Assert(err == nil, "class dump kept")
		m.checkClass(g, c)
	}
	sym.Assert(len(s.HprofGcClassDump) == len(m.classes), "number of class dumps")
}

func (m *model) checkClass(v core.HprofGcClassDump, c hx.Class) {
	sym.Assert(sym.And(uint64(v.ClassObjectId) == c.Id, uint64(v.SuperclassObjectId) == c.Super, uint64(v.ClassloaderObjectId) == c.Loader,
		uint64(v.SignersObjectId) == c.Signers, uint64(v.ProtectionDomainObjectId) == c.Domain, v.StackTraceSerialNumber == c.Trace, v.InstanceSize == int32(c.Size)), "class dump fields")
	sym.Assert(sym.And(int(v.SizeOfConstantPool) == len(c.Consts), len(v.ConstantPoolRecords) == len(c.Consts),
		int(v.NumberOfStaticFields) == len(c.Statics), len(v.StaticFieldRecords) == len(c.Statics),
		int(v.NumberOfInstanceFields) == len(c.Fields), len(v.InstanceFieldRecords) == len(c.Fields)), "class dump counts")
	for i, x := range v.ConstantPoolRecords {
		sym.Assert(sym.And(x.ConstantPoolIndex == c.Consts[i].Index, byte(x.Ty) == c.Consts[i].Val.Ty, hx.SameValue(x.Value, c.Consts[i].Val)), "class dump constant")
	}
	for i, x := range v.StaticFieldRecords {
		sym.Assert(sym.And(uint64(x.StaticFieldName) == c.Statics[i].Name, byte(x.Ty) == c.Statics[i].Val.Ty, hx.SameValue(x.Value, c.Statics[i].Val)), "class dump static field")
	}
	for i, x := range v.InstanceFieldRecords {
		sym.Assert(sym.And(uint64(x.InstanceFieldName) == c.Fields[i].Name, byte(x.Ty) == c.Fields[i].Ty), "class dump instance field")
	}
}

// checkIndex compares offsets.
func (m *model) checkIndex(d *hdb.DB) {
	for _, o := range m.inst {
		off, err := d.Big.HprofGcInstanceDumpGetOffset(core.Identifier(o.id))
		sym.Assert(err == nil && off == o.off, "instance offset")
	}
	for _, o := range m.obj {
		off, err := d.Big.HprofGcObjArrayDumpGetOffset(core.Identifier(o.id))
		sym.Assert(err == nil && off == o.off, "object array offset")
	}
	for _, o := range m.prim {
		off, err := d.Big.HprofGcPrimArrayDumpGetOffset(core.Identifier(o.id))
		sym.Assert(err == nil && off == o.off, "primitive array offset")
	}
}

// build makes a dump of n arbitrary records; sub-records live in segments.
func build(n int) *model {
	m := newModel()
	m.b.Header(0x190, 0x12345678)
	inSeg := false
	for i := 0; i < n; i++ {
		k := sym.Choice("kind", topKinds+subKinds+1)
		switch {
		case k < topKinds:
			if inSeg {
				sym.Assume(false)
			}
			m.top(k)
		case k < topKinds+subKinds:
			if !inSeg {
				m.b.Segment(0)
				inSeg = true
			}
			m.sub(k - topKinds)
		default:
			// a further segment
			m.b.Segment(0)
			inSeg = true
		}
	}
	m.b.End()
	return m
}

// H_Records: indexing retains every record, restores it and finds every object.
func H_Records() {
	m := build(2 + sym.Tier())
	d := hdb.Parse(hx.NewReader(m.b.Buf, 0))
	sym.Assert(d.Err == nil, "well-formed dump rejected")
	sym.Assert(d.Pos == len(m.b.Buf), "final position is the size of the dump")
	sym.Assert(d.Restore() == nil, "stored index cannot be read back")
	m.check(d)
	m.checkIndex(d)
}
