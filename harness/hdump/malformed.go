package hdump

import (
	"github.com/danielleontiev/neojhat/internal/zzverif/hdb"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// one builds a dump with one arbitrary record; before says whether something precedes it.
func one(before bool) *model {
	m := newModel()
	m.b.Header(0x190, 0x12345678)
	k := sym.Choice("kind", topKinds+subKinds)
	if before {
		if k < topKinds {
			m.b.Utf8(1, []byte("x"))
		} else {
			m.b.Segment(0)
			m.b.Sticky(1)
		}
	} else if k >= topKinds {
		m.b.Segment(0)
	}
	if k < topKinds {
		m.top(k)
	} else {
		m.sub(k - topKinds)
	}
	m.b.End()
	return m
}

// H_Truncated: a dump cut anywhere is rejected.
func H_Truncated() {
	m := one(false)
	cut := sym.Choice("cut", len(m.b.Buf))
	r := hx.NewReader(m.b.Buf[:cut], 0)
	r.EagerEOF = sym.Choice("eagerEOF", 2) == 1
	d := hdb.Parse(r)
	sym.Assert(d.Err != nil, "truncated dump accepted")
	sym.Assert(d.Inst.Closed <= 1 && d.Obj.Closed <= 1 && d.Prim.Closed <= 1, "index file closed twice")
}

// H_ReadError: a read error anywhere is reported; it is never taken for the end of the dump.
func H_ReadError() {
	m := one(false)
	r := hx.NewReader(m.b.Buf, 0)
	r.Fail = sym.Choice("failAt", len(m.b.Buf))
	r.Once = sym.Choice("once", 2) == 1
	d := hdb.Parse(r)
	sym.Assert(d.Err != nil, "read error swallowed")
}

// claimed is more than the longest record: no count or length in a record makes the parser
// reserve more than the bytes the record could have.
const claimed = 5 << 30

// H_Arbitrary: arbitrary bytes after the header never crash the parser or hang it.
func H_Arbitrary() {
	id := hx.IDSize()
	b := hx.New(id)
	b.Header(0x190, 0x12345678)
	n := 24 + 6*sym.Tier()
	if sym.Choice("inSegment", 2) == 1 {
		b.Segment(0)
	}
	b.Raw(sym.Bytes("tail", n))
	sym.AllocLimit(claimed)
	d := hdb.Parse(hx.NewReader(b.Buf, 0))
	if d.Err == nil {
		sym.Assert(d.Restore() == nil, "index of an accepted dump cannot be read back")
	}
}

// H_ArbitraryRecord: a record of any kind whose fields are all arbitrary, its lengths and counts
// included, and arbitrary bytes behind it never crash the parser or hang it.
func H_ArbitraryRecord() {
	id := hx.IDSize()
	b := hx.New(id)
	b.Header(0x190, 0x12345678)
	n := 8 + 4*sym.Tier()
	k := sym.Choice("kind", 11)
	top := []struct {
		tag byte
		n   int
	}{{1, id + 1}, {2, 2*id + 8}, {4, 4*id + 8}, {5, 12 + 2*id}}
	if k < len(top) {
		b.U1(top[k].tag)
		b.U4(sym.U32("time"))
		b.U4(sym.U32("remaining"))
		b.Raw(sym.Bytes("body", top[k].n))
	} else {
		sub := []struct {
			tag byte
			n   int
		}{{0x20, 7*id + 8}, {0x21, 2*id + 8}, {0x22, 2*id + 8}, {0x23, id + 9}, {1, 2 * id}, {2, id + 8}, {8, id + 8}}[k-len(top)]
		b.Segment(0)
		b.U1(sub.tag)
		b.Raw(sym.Bytes("body", sub.n))
		if sub.tag == 0x20 {
			n += 8
		}
	}
	b.Raw(sym.Bytes("tail", n))
	sym.AllocLimit(claimed)
	d := hdb.Parse(hx.NewReader(b.Buf, 0))
	if d.Err == nil {
		sym.Assert(d.Restore() == nil, "index of an accepted dump cannot be read back")
	}
}

// H_ShortRecord: a text record that says it is too short for its own id is rejected, without memory
// being reserved for the text its length would wrap around to.
func H_ShortRecord() {
	id := hx.IDSize()
	b := hx.New(id)
	b.Header(0x190, 0x12345678)
	if sym.Choice("first", 2) == 1 {
		b.Utf8(1, []byte("x"))
	}
	n := sym.U32("remaining")
	sym.Assume(n < uint32(id))
	b.U1(1)
	b.U4(sym.U32("time"))
	b.U4(n)
	b.Raw(sym.Bytes("body", id+sym.Choice("more", 4)))
	if sym.Choice("end", 2) == 1 {
		b.End()
	}
	sym.AllocLimit(1 << 20)
	d := hdb.Parse(hx.NewReader(b.Buf, 0))
	sym.Assert(d.Err != nil, "a record too short for its id is accepted")
}

// H_Unsupported: sub-records of root kinds that are not reported are skipped as a whole, and
// codes the format does not define are rejected.
func H_Unsupported() {
	m := newModel()
	m.b.Header(0x190, 0x12345678)
	m.b.Segment(0)
	switch sym.Choice("what", 5) {
	case 0: // unknown root, monitor used: id
		m.b.U1([]byte{0xff, 0x07}[sym.Choice("k", 2)])
		m.b.Id(hx.ID("rid", m.id))
	case 1: // native stack, thread block: id, thread
		m.b.U1([]byte{0x04, 0x06}[sym.Choice("k", 2)])
		m.b.Id(hx.ID("rid", m.id))
		m.b.U4(sym.U32("rthr"))
	case 2:
		k := sym.U8("code")
		for _, c := range []byte{1, 2, 3, 4, 5, 6, 7, 8, 0x20, 0x21, 0x22, 0x23, 0x1c, 0x2c, 0xff} {
			sym.Assume(k != c)
		}
		m.b.U1(k)
		m.b.Raw(sym.Bytes("junk", sym.Choice("junkLength", 13)))
		m.b.End()
		d := hdb.Parse(hx.NewReader(m.b.Buf, 0))
		sym.Assert(d.Err != nil, "undefined sub-record accepted")
		return
	case 3: // unknown record
		m = newModel()
		m.b.Header(0x190, 0x12345678)
		k := sym.U8("tag")
		for _, c := range []byte{1, 2, 4, 5, 0x1c, 0x2c} {
			sym.Assume(k != c)
		}
		// records of kinds the tool does not use may be skipped, if as a whole
		body := sym.Bytes("junk", 3)
		m.b.Tag(k, len(body))
		m.b.Raw(body)
		m.top(sym.Choice("kind", topKinds))
		m.b.End()
		d := hdb.Parse(hx.NewReader(m.b.Buf, 0))
		if d.Err == nil {
			sym.Assert(d.Pos == len(m.b.Buf), "position after a skipped record")
			sym.Assert(d.Restore() == nil, "stored index cannot be read back")
			m.check(d)
		}
		return
	case 4: // undefined type of a primitive array or of a class field
		ty := sym.U8("ty")
		for _, c := range hx.Types {
			sym.Assume(ty != c)
		}
		switch sym.Choice("where", 4) {
		case 0:
			m.b.PrimArray(1, 0, ty, 0, nil)
		case 1:
			m.b.Class(hx.Class{Id: 1, Consts: []hx.ConstRec{{Index: 1, Val: hx.Val{Ty: ty}}}})
		case 2:
			m.b.Class(hx.Class{Id: 1, Statics: []hx.StaticRec{{Name: 1, Val: hx.Val{Ty: ty}}}})
		case 3:
			m.b.Class(hx.Class{Id: 1, Fields: []hx.FieldRec{{Name: 1, Ty: ty}}})
		}
		m.b.Raw(sym.Bytes("junk", sym.Choice("junkLength", 13)))
		m.b.End()
		d := hdb.Parse(hx.NewReader(m.b.Buf, 0))
		sym.Assert(d.Err != nil, "undefined type accepted")
		return
	}
	m.sub(sym.Choice("kind", subKinds))
	m.b.End()
	d := hdb.Parse(hx.NewReader(m.b.Buf, 0))
	sym.Assert(d.Err == nil, "well-formed dump rejected")
	sym.Assert(d.Pos == len(m.b.Buf), "position after a skipped root")
	sym.Assert(d.Restore() == nil, "stored index cannot be read back")
	m.check(d)
	m.checkIndex(d)
}
