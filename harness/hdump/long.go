package hdump

import (
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/zzverif/hdb"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// H_Long: one record with many parts, between others, is kept as a whole.
func H_Long() {
	m := newModel()
	id, b := m.id, m.b
	b.Header(0x190, 0x12345678)
	kind := sym.Choice("kind", 7)
	n := []int{130, 300, 5000, 20000}[sym.Choice("length", 3+sym.Tier())]
	if kind < 2 && n == 5000 {
		n = 70000
	}
	ids := func() []uint64 {
		var r []uint64
		for i := 0; i < n; i++ {
			r = append(r, uint64(i)*2+1)
		}
		r[0], r[n/2], r[n-1] = hx.ID("first", id), hx.ID("middle", id), hx.ID("last", id)
		return r
	}
	utf := func(id uint64, s []byte) {
		b.Utf8(id, s)
		m.utf8 = append(m.utf8, core.HprofUtf8{Identifier: core.Identifier(id), Characters: string(s)})
	}
	utf(1, []byte("before"))
	c := hx.Class{Id: 5, Super: 6, Size: sym.U32("size")}
	switch kind {
	case 0:
		utf(2, hx.Pattern("text", n))
	case 1:
		fs := ids()
		t := core.HprofTrace{StackTraceSerialNumber: 1, ThreadSerialNumber: 2, NumberOfFrames: uint32(n)}
		for _, f := range fs {
			t.StackFrameIds = append(t.StackFrameIds, core.Identifier(f))
		}
		b.Trace(1, 2, fs)
		m.trace = append(m.trace, t)
	}
	utf(3, []byte("behind"))
	b.Segment(0)
	b.Sticky(4)
	m.sticky = append(m.sticky, core.HprofGcRootStickyClass{ObjectId: 4})
	switch kind {
	case 2:
		for i, v := range ids() {
			ty := hx.Types[i%9]
			raw := make([]byte, hx.TypeSize(ty, id))
			raw[0] = byte(v)
			c.Consts = append(c.Consts, hx.ConstRec{Index: uint16(i), Val: hx.Val{Ty: ty, Raw: raw}})
		}
	case 3:
		for i, v := range ids() {
			ty := hx.Types[i%9]
			raw := make([]byte, hx.TypeSize(ty, id))
			raw[0] = byte(i)
			c.Statics = append(c.Statics, hx.StaticRec{Name: v, Val: hx.Val{Ty: ty, Raw: raw}})
		}
	case 4:
		for i, v := range ids() {
			c.Fields = append(c.Fields, hx.FieldRec{Name: v, Ty: hx.Types[i%9]})
		}
	case 5:
		for i := 0; i < n; i++ {
			o := object{id: uint64(i*8 + 16), off: len(b.Buf) + 1}
			b.Instance(o.id, 1, 5, []byte{byte(i)})
			m.inst = append(m.inst, o)
			o.off = len(b.Buf) + 1
			b.ObjArray(o.id, 1, 5, []uint64{o.id})
			m.obj = append(m.obj, o)
			o.off = len(b.Buf) + 1
			b.PrimArray(o.id, 1, 8, 1, []byte{byte(i)})
			m.prim = append(m.prim, o)
			if i == n/2 {
				b.Segment(0)
			}
		}
	case 6:
		for i := 0; i < n; i++ {
			r := core.HprofGcRootJavaFrame{ObjectId: core.Identifier(i + 1), ThreadSerialNumber: uint32(i % 7), FrameNumberInStackTrace: uint32(i)}
			if i == n/2 {
				r.FrameNumberInStackTrace = sym.U32("frame")
			}
			b.JavaFrame(uint64(r.ObjectId), r.ThreadSerialNumber, r.FrameNumberInStackTrace)
			m.jfr = append(m.jfr, r)
		}
	}
	b.Class(c)
	m.classes = append(m.classes, c)
	b.End()
	d := hdb.Parse(hx.NewReader(b.Buf, sym.Choice("chunk", 2)))
	sym.Assert(d.Err == nil, "well-formed dump rejected")
	sym.Assert(d.Pos == len(b.Buf), "final position is the size of the dump")
	sym.Assert(d.Restore() == nil, "stored index cannot be read back")
	m.check(d)
	m.checkIndex(d)
}

// H_ManyRecords: very many records of one kind.
func H_ManyRecords() {
	m := newModel()
	b := m.b
	b.Header(0x190, 0x12345678)
	kind := sym.Choice("kind", 9)
	n := []int{6000, 70000}[sym.Tier()]
	if kind == 1 { // looked up one after another
		n = 1500
	}
	odd := sym.U32("odd")
	for i := 0; i < n; i++ {
		id := uint64(i + 1)
		v := uint32(i)
		if i == n-7 {
			v = odd
		}
		switch kind {
		case 0:
			b.Utf8(id, []byte{byte(i), byte(i >> 8)})
			m.utf8 = append(m.utf8, core.HprofUtf8{Identifier: core.Identifier(id), Characters: string([]byte{byte(i), byte(i >> 8)})})
		case 1:
			b.LoadClass(uint32(i), id, v, id)
			m.load = append(m.load, core.HprofLoadClass{ClassSerialNumber: uint32(i), ClassObjectId: core.Identifier(id), StackTraceSerialNumber: v, ClassNameId: core.Identifier(id)})
		case 2:
			b.Frame(id, 1, 2, 3, v, 5)
			m.frame = append(m.frame, core.HprofFrame{StackFrameId: core.Identifier(id), MethodNameId: 1, MethodSignatureId: 2, SourceFileNameId: 3, ClassSerialNumber: v, LineNumber: 5})
		case 3:
			b.Trace(v, uint32(id), []uint64{id})
			m.trace = append(m.trace, core.HprofTrace{StackTraceSerialNumber: v, ThreadSerialNumber: uint32(id), NumberOfFrames: 1, StackFrameIds: []core.Identifier{core.Identifier(id)}})
		}
	}
	b.Segment(0)
	for i := 0; i < n; i++ {
		id := uint64(i + 1)
		v := uint32(i)
		if i == n-7 {
			v = odd
		}
		switch kind {
		case 4:
			b.JniGlobal(id, uint64(v))
			m.jniG = append(m.jniG, core.HprofGcRootJniGlobal{ObjectId: core.Identifier(id), JniGlobalRefId: core.Identifier(v)})
		case 5:
			b.JniLocal(id, v, uint32(i))
			m.jniL = append(m.jniL, core.HprofGcRootJniLocal{ObjectId: core.Identifier(id), ThreadSerialNumber: v, FrameNumberInStackTrace: uint32(i)})
		case 6:
			b.Sticky(uint64(v))
			m.sticky = append(m.sticky, core.HprofGcRootStickyClass{ObjectId: core.Identifier(v)})
		case 7:
			b.ThreadObj(id, v, uint32(i))
			m.thr = append(m.thr, core.HprofGcRootThreadObj{ThreadObjectId: core.Identifier(id), ThreadSequenceNumber: v, StackTraceSequenceNumber: uint32(i)})
		case 8:
			c := hx.Class{Id: id, Super: 6, Size: v}
			b.Class(c)
			m.classes = append(m.classes, c)
		}
	}
	b.End()
	d := hdb.Parse(hx.NewReader(b.Buf, 0))
	sym.Assert(d.Err == nil, "well-formed dump rejected")
	sym.Assert(d.Restore() == nil, "stored index cannot be read back")
	m.check(d)
}

// H_Runs: the counters of objects in any order.
func H_Runs() {
	id := hx.IDSize()
	b := hx.New(id)
	b.Header(0x190, 0x12345678)
	b.Segment(0)
	var n [6]int
	for i := 0; i < 6+sym.Tier(); i++ {
		k := sym.Choice("object", 5)
		switch k {
		case 0, 1:
			b.Instance(uint64(i+1), 1, uint64(0x100+k), nil)
		case 2:
			b.ObjArray(uint64(i+1), 1, 0x100, []uint64{7})
		case 3:
			b.PrimArray(uint64(i+1), 1, 8, 1, []byte{1})
		case 4:
			b.PrimArray(uint64(i+1), 1, 5, 1, []byte{1, 2})
		}
		n[k]++
	}
	b.End()
	d := hdb.Parse(hx.NewReader(b.Buf, 0))
	sym.Assert(d.Err == nil, "well-formed dump rejected")
	sym.Assert(d.Restore() == nil, "stored index cannot be read back")
	c := d.Meta.Counters
	sym.Assert(c.InstancesCount[0x100] == n[0] && c.InstancesCount[0x101] == n[1], "instances per class")
	sym.Assert(c.ObjArraysCount[0x100] == n[2] && c.ObjArrayElementsCount[0x100] == n[2], "object arrays per class")
	sym.Assert(c.PrimArraysCount[8] == n[3] && c.PrimArrayElementsCount[8] == n[3], "primitive arrays per type")
	sym.Assert(c.PrimArraysCount[5] == n[4] && c.PrimArrayElementsCount[5] == n[4], "primitive arrays per type")
	sym.Assert(len(c.InstancesCount) <= 2 && len(c.ObjArraysCount) <= 1 && len(c.PrimArraysCount) <= 2, "nothing else is counted")
}
