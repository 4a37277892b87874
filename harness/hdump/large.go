package hdump

import (
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/zzverif/hdb"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// bigDump has objects whose payload length is arbitrary (up to 32 GiB each).
type bigDump struct {
	id             int
	f              *hx.Sparse
	inst, obj, pri []bigObj
}

type bigObj struct {
	id, class uint64
	tr, n     uint32
	ty        byte
	off       int
}

func buildBig(n int, segs bool) *bigDump {
	firstTy := 0
	d := &bigDump{id: hx.IDSize(), f: &hx.Sparse{}}
	b := hx.New(d.id)
	b.Header(0x190, 0x12345678)
	at := 0 // bytes before b.Buf
	seg := false
	flush := func(gap int) {
		at += len(b.Buf) + gap
		d.f.Data(b.Buf)
		d.f.Gap(gap)
		b.Buf = nil
	}
	for i := 0; i < n; i++ {
		if !seg || segs && sym.Choice("newSegment", 2) == 1 {
			b.Segment(0)
			seg = true
		}
		o := bigObj{id: hx.ID("oid", d.id), tr: sym.U32("tr"), n: sym.U32("n")}
		o.off = at + len(b.Buf) + 1
		switch sym.Choice("kind", 3) {
		case 0:
			o.class = hx.ID("cls", d.id)
			b.U1(0x21)
			b.Id(o.id)
			b.U4(o.tr)
			b.Id(o.class)
			b.U4(o.n)
			if len(d.inst) > 0 {
				sym.Assume(d.inst[len(d.inst)-1].id < o.id)
			}
			d.inst = append(d.inst, o)
			flush(int(o.n))
		case 1:
			o.class = hx.ID("cls", d.id)
			b.U1(0x22)
			b.Id(o.id)
			b.U4(o.tr)
			b.U4(o.n)
			b.Id(o.class)
			if len(d.obj) > 0 {
				sym.Assume(d.obj[len(d.obj)-1].id < o.id)
			}
			d.obj = append(d.obj, o)
			flush(int(o.n) * d.id)
		case 2:
			// the first array has any type, further ones the same or another
			if len(d.pri) == 0 {
				firstTy = sym.Choice("ty", 8)
				o.ty = hx.Types[1+firstTy]
			} else {
				o.ty = hx.Types[1+(firstTy+sym.Choice("ty", 2))%8]
			}
			b.U1(0x23)
			b.Id(o.id)
			b.U4(o.tr)
			b.U4(o.n)
			b.U1(o.ty)
			if len(d.pri) > 0 {
				sym.Assume(d.pri[len(d.pri)-1].id < o.id)
			}
			d.pri = append(d.pri, o)
			flush(int(o.n) * hx.TypeSize(o.ty, d.id))
		}
	}
	b.End()
	d.f.Data(b.Buf)
	return d
}

// H_Large: offsets, position and lookups stay right however large the objects are.
func H_Large() {
	m := buildBig(2+sym.Tier(), true)
	d := hdb.Parse(m.f)
	sym.Assert(d.Err == nil, "well-formed dump rejected")
	sym.Assert(d.Pos == m.f.Size(), "final position is the size of the dump")
	sym.Assert(d.Restore() == nil, "stored index cannot be read back")
	acc := dump.NewParsedAccessor(m.f, d.Big, d.Small, d.Meta)
	for _, o := range m.inst {
		off, err := d.Big.HprofGcInstanceDumpGetOffset(core.Identifier(o.id))
		sym.Assert(err == nil && off == o.off, "instance offset")
		h, err := acc.GetHprofGcInstanceDump(core.Identifier(o.id))
		sym.Assert(err == nil && sym.And(uint64(h.ObjectId) == o.id, uint64(h.ClassObjectId) == o.class, h.NumberOfBytesThatFollow == o.n, h.StackTraceSerialNumber == o.tr), "instance read back")
	}
	for _, o := range m.obj {
		off, err := d.Big.HprofGcObjArrayDumpGetOffset(core.Identifier(o.id))
		sym.Assert(err == nil && off == o.off, "object array offset")
		h, err := acc.GetHprofGcObjArray(core.Identifier(o.id))
		sym.Assert(err == nil && sym.And(uint64(h.ArrayObjectId) == o.id, uint64(h.ArrayClassId) == o.class, h.NumberOfElements == o.n, h.StackTraceSerialNumber == o.tr), "object array read back")
	}
	for _, o := range m.pri {
		off, err := d.Big.HprofGcPrimArrayDumpGetOffset(core.Identifier(o.id))
		sym.Assert(err == nil && off == o.off, "primitive array offset")
		h, err := acc.GetHprofGcPrimArray(core.Identifier(o.id))
		sym.Assert(err == nil && sym.And(uint64(h.ArrayObjectId) == o.id, byte(h.ElementType) == o.ty, h.NumberOfElements == o.n, h.StackTraceSerialNumber == o.tr), "primitive array read back")
	}
}

// H_Counters: per-class and per-type counts and element counts.
func H_Counters() {
	m := buildBig(3+sym.Tier(), false)
	d := hdb.Parse(m.f)
	sym.Assert(d.Err == nil, "well-formed dump rejected")
	sym.Assert(d.Restore() == nil, "stored index cannot be read back")
	c := d.Meta.Counters
	// every class or type that occurs is counted exactly
	for _, o := range m.inst {
		n := 0
		for _, p := range m.inst {
			n += sym.SelInt(p.class == o.class, 1, 0)
		}
		sym.Assert(c.InstancesCount[core.Identifier(o.class)] == n, "instances per class")
	}
	for _, o := range m.obj {
		n, e := 0, 0
		for _, p := range m.obj {
			n += sym.SelInt(p.class == o.class, 1, 0)
			e += sym.SelInt(p.class == o.class, int(p.n), 0)
		}
		sym.Assert(c.ObjArraysCount[core.Identifier(o.class)] == n, "object arrays per class")
		sym.Assert(c.ObjArrayElementsCount[core.Identifier(o.class)] == e, "object array elements per class")
	}
	for _, o := range m.pri {
		n, e := 0, 0
		for _, p := range m.pri {
			if p.ty == o.ty {
				n++
				e += int(p.n)
			}
		}
		sym.Assert(c.PrimArraysCount[core.JavaType(o.ty)] == n, "primitive arrays per type")
		sym.Assert(c.PrimArrayElementsCount[core.JavaType(o.ty)] == e, "primitive array elements per type")
	}
	// and nothing else is
	var ti, to, tp, eo, ep, wo, wp int
	for _, n := range c.InstancesCount {
		ti += n
	}
	for _, n := range c.ObjArraysCount {
		to += n
	}
	for _, n := range c.PrimArraysCount {
		tp += n
	}
	for _, n := range c.ObjArrayElementsCount {
		eo += n
	}
	for _, n := range c.PrimArrayElementsCount {
		ep += n
	}
	for _, o := range m.obj {
		wo += int(o.n)
	}
	for _, o := range m.pri {
		wp += int(o.n)
	}
	sym.Assert(sym.And(ti == len(m.inst), to == len(m.obj), tp == len(m.pri), eo == wo, ep == wp), "totals")
}
