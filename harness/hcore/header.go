package hcore

import (
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/zzverif/hdb"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

const magic = "JAVA PROFILE 1.0.2\x00"

// H_Header: the file header is decoded exactly.
func H_Header() {
	b := hx.New(8)
	b.Raw([]byte(magic))
	id, hi, lo := sym.U32("id"), uint32(sym.U16("hi")), sym.U32("lo") // about ten thousand years
	b.U4(id)
	b.U4(hi)
	b.U4(lo)
	b.U1(0x77)
	r := hx.NewReader(b.Buf, sym.Choice("chunk", 2)*3)
	h, err := core.ParseFileHeader(r)
	sym.Assert(err == nil, "valid header rejected")
	sym.Assert(h.Header == magic[:18], "profile name")
	sym.Assert(h.IdentifierSize == id, "identifier size")
	sym.Assert(r.Pos == 31, "header length")
	sym.Assert(h.Timestamp.UnixMilli() == int64(hi)<<32|int64(lo), "timestamp")
}

// H_Magic: anything but the supported profile is rejected, and so is a short header.
func H_Magic() {
	m := sym.Bytes("magic", 18)
	same := true
	for i, c := range m {
		same = sym.And(same, c == magic[i])
	}
	sym.Assume(!same)
	b := hx.New(8)
	b.Raw(m)
	b.U1(0)
	b.U4(8)
	b.U4(0x190)
	b.U4(0)
	_, err := core.ParseFileHeader(hx.NewReader(b.Buf, 0))
	sym.Assert(err != nil, "unsupported profile accepted")
	b.End()
	d := hdb.Parse(hx.NewReader(b.Buf, 0))
	sym.Assert(d.Err != nil, "dump of an unsupported profile accepted")
}

// H_IdSize: identifier sizes the tool does not support are rejected.
func H_IdSize() {
	b := hx.New(8)
	b.Raw([]byte(magic))
	id := sym.U32("id")
	sym.Assume(sym.And(id != 4, id != 8))
	b.U4(id)
	b.U4(0x190)
	b.U4(0)
	switch sym.Choice("record", 4) {
	case 0:
		b.Tag(1, 16)
	case 1:
		b.Tag(2, 16)
	case 2:
		b.Tag(4, 16)
	case 3:
		b.Segment(0)
		b.U1(hx.SubTypes[sym.Choice("sub", len(hx.SubTypes))])
	}
	b.Raw(make([]byte, 200))
	d := hdb.Parse(hx.NewReader(b.Buf, 0))
	sym.Assert(d.Err != nil, "unsupported identifier size accepted")
}
