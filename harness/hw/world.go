// Package hw builds dumps the way a JVM lays them out: names, classes, frames and traces
// first, then roots, class dumps and objects in increasing id order. Identifiers are
// concrete and distinct, contents are up to the harness.
package hw

import (
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/zzverif/hdb"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
)

type Field struct {
	Name string
	Ty   byte
}

type Static struct {
	Name string
	Val  hx.Val
}

// Class is a loaded class.
type Class struct {
	Id, NameId uint64
	Serial     uint32
	Super      *Class
	Fields     []Field
	Statics    []Static
	Size       uint32
	Raw        *hx.Class // overrides the class dump
	NoLoad     bool
	NoDump     bool
}

type object struct {
	id    uint64
	kind  int
	class uint64
	ty    byte
	n     int
	data  []byte
	elems []uint64
}

// World is a dump under construction.
type World struct {
	ID      int
	Base    uint64
	next    uint64
	serial  uint32
	names   map[string]uint64
	top     *hx.B
	roots   *hx.B
	Classes []*Class
	objs    []object
	str     *Class
	Hi, Lo  uint32
	strRev  bool
}

func New(idSize int) *World {
	w := &World{ID: idSize, next: 32, names: map[string]uint64{}, top: hx.New(idSize), roots: hx.New(idSize), Hi: 0x190, Lo: 0x12345678}
	if idSize == 8 {
		w.Base = 0x7f12_3456_0000_0000
	} else {
		w.Base = 0xf000_0000
	}
	return w
}

// Fresh is a new identifier, larger than all before.
func (w *World) Fresh() uint64 { w.next++; return w.at(w.next) }

// at is the n-th identifier. Identifiers of 8 bytes have one of a few low words, so none may be
// told by it.
func (w *World) at(n uint64) uint64 {
	if w.ID == 4 {
		return w.Base + 8*n
	}
	return w.Base + n/4<<32 + 0x100 + n%4*8
}

// Ids are the first identifiers.
func (w *World) Ids() []uint64 {
	var r []uint64
	for n := uint64(1); n <= 96; n++ {
		r = append(r, w.at(32+n))
	}
	return r
}

// Utf8 adds a name record.
func (w *World) Utf8(s string) uint64 {
	id := w.Fresh()
	w.top.Utf8(id, []byte(s))
	return id
}

// Name is the id of a concrete name, added once.
func (w *World) Name(s string) uint64 {
	if id, ok := w.names[s]; ok {
		return id
	}
	id := w.Utf8(s)
	w.names[s] = id
	return id
}

// Class loads a class whose name may be symbolic.
func (w *World) Class(name string, super *Class, fields ...Field) *Class {
	w.serial++
	c := &Class{Id: w.Fresh(), NameId: w.Utf8(name), Serial: w.serial, Super: super, Fields: fields}
	w.Classes = append(w.Classes, c)
	return c
}

// Ref is a reference value.
func (w *World) Ref(id uint64) hx.Val {
	b := hx.New(w.ID)
	b.Id(id)
	return hx.Val{Ty: 2, Raw: b.Buf}
}

func Int(v uint32) hx.Val {
	b := hx.New(8)
	b.U4(v)
	return hx.Val{Ty: 10, Raw: b.Buf}
}

func Long(v uint64) hx.Val {
	b := hx.New(8)
	b.U8(v)
	return hx.Val{Ty: 11, Raw: b.Buf}
}

func Byte(v byte) hx.Val { return hx.Val{Ty: 8, Raw: []byte{v}} }
func Bool(v byte) hx.Val { return hx.Val{Ty: 4, Raw: []byte{v}} }

// Instance adds an object; vals are the fields of the class, then of its superclass, and so on.
func (w *World) Instance(c *Class, vals ...hx.Val) uint64 {
	id := w.Fresh()
	w.InstanceAt(id, c, vals...)
	return id
}

// InstanceAt is Instance with an id reserved earlier.
func (w *World) InstanceAt(id uint64, c *Class, vals ...hx.Val) {
	var data []byte
	for _, v := range vals {
		data = append(data, v.Raw...)
	}
	w.RawInstance(id, c.Id, data)
}

func (w *World) RawInstance(id, class uint64, data []byte) {
	w.objs = append(w.objs, object{id: id, kind: 0, class: class, data: data})
}

// ObjArray adds an object array.
func (w *World) ObjArray(class uint64, elems ...uint64) uint64 {
	id := w.Fresh()
	w.objs = append(w.objs, object{id: id, kind: 1, class: class, elems: elems})
	return id
}

// PrimArray adds a primitive array.
func (w *World) PrimArray(ty byte, n int, data []byte) uint64 {
	id := w.Fresh()
	w.objs = append(w.objs, object{id: id, kind: 2, ty: ty, n: n, data: data})
	return id
}

// StringClass is java/lang/String.
func (w *World) StringClass() *Class {
	if w.str == nil {
		w.str = w.Class("java/lang/String", nil, Field{"coder", 8}, Field{"hash", 10}, Field{"value", 2})
	}
	return w.str
}

// String adds a Latin-1 string with the given characters.
func (w *World) String(s []byte) uint64 {
	c := w.StringClass()
	arr := w.PrimArray(8, len(s), s)
	return w.Instance(c, Byte(0), Int(0), w.Ref(arr))
}

// Top and Roots expose the builders of the two parts for further records.
func (w *World) Top() *hx.B   { return w.top }
func (w *World) Roots() *hx.B { return w.roots }

// Bytes is the dump.
func (w *World) Bytes() []byte {
	body := hx.New(w.ID)
	for _, c := range w.Classes {
		if c.NoDump {
			continue
		}
		if c.Raw != nil {
			body.Class(*c.Raw)
			continue
		}
		d := hx.Class{Id: c.Id, Size: c.Size}
		if c.Super != nil {
			d.Super = c.Super.Id
		}
		for _, s := range c.Statics {
			d.Statics = append(d.Statics, hx.StaticRec{Name: w.Name(s.Name), Val: s.Val})
		}
		for _, f := range c.Fields {
			d.Fields = append(d.Fields, hx.FieldRec{Name: w.Name(f.Name), Ty: f.Ty})
		}
		body.Class(d)
	}
	objs := append([]object{}, w.objs...)
	for i := 1; i < len(objs); i++ {
		for j := i; j > 0 && objs[j].id < objs[j-1].id; j-- {
			objs[j], objs[j-1] = objs[j-1], objs[j]
		}
	}
	for _, o := range objs {
		switch o.kind {
		case 0:
			body.Instance(o.id, 1, o.class, o.data)
		case 1:
			body.ObjArray(o.id, 1, o.class, o.elems)
		case 2:
			body.PrimArray(o.id, 1, o.ty, o.n, o.data)
		}
	}
	for _, c := range w.Classes {
		if !c.NoLoad {
			w.top.LoadClass(c.Serial, c.Id, 1, c.NameId)
		}
	}
	b := hx.New(w.ID)
	b.Header(w.Hi, w.Lo)
	b.Raw(w.top.Buf)
	b.Segment(0)
	b.Raw(w.roots.Buf)
	b.Raw(body.Buf)
	b.End()
	return b.Buf
}

// OpenOn indexes the dump; queries read it through a file with short reads of that size.
func (w *World) OpenOn(chunk int) (*dump.ParsedAccessor, *hx.Seeker) {
	b := w.Bytes()
	f := hx.NewSeeker(b, chunk)
	return hdb.OpenOn(b, f), f
}

// Open indexes the dump.
func (w *World) Open() *dump.ParsedAccessor { return hdb.Open(w.Bytes()) }
