package hjava

import (
	"strconv"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/java"
	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// H_LongStrings: long texts in both representations.
func H_LongStrings() {
	w := hw.New(hx.IDSize())
	c := w.StringClass()
	n := []int{130, 300, 5000, 20000}[sym.Choice("length", 3+sym.Tier())]
	var want []byte
	var arr uint64
	coder := byte(sym.Choice("coder", 2))
	if coder == 0 {
		s := hx.Pattern("latin1", n)
		s[n/2] = sym.U8("any")
		for _, b := range s {
			want = append(want, utf8(uint32(b))...)
		}
		arr = w.PrimArray(8, n, s)
	} else {
		var raw []byte
		for i := 0; i < n; i++ {
			u := uint16(i%7*1000 + 'a')
			if i == n/2 || i == n-1 {
				u = sym.U16("utf16")
				sym.Assume(sym.Or(u < 0xd800, u >= 0xe000))
			}
			want = append(want, utf8(uint32(u))...)
			raw = append(raw, byte(u), byte(u>>8))
		}
		arr = w.PrimArray(8, 2*n, raw)
	}
	id := w.Instance(c, hw.Byte(coder), hw.Int(0), w.Ref(arr))
	a, _ := w.OpenOn(sym.Choice("chunk", 2))
	got, err := java.NewHeap(a).ParseJavaString(core.JavaValue{Type: core.Object, Value: core.Identifier(id)})
	sym.Assert(err == nil, "string is readable")
	sym.Assert(sym.EqStr(got, string(want)), "text of the string")
}

// H_LongArray: an array of many elements.
func H_LongArray() {
	w := hw.New(hx.IDSize())
	n := []int{130, 300, 5000, 70000}[sym.Choice("length", 3+sym.Tier())]
	var es []uint64
	for i := 0; i < n; i++ {
		es = append(es, uint64(i*8))
	}
	es[0], es[n/2], es[n-1] = hx.ID("first", w.ID), hx.ID("middle", w.ID), hx.ID("last", w.ID)
	id := w.ObjArray(0x77, es...)
	a, _ := w.OpenOn(sym.Choice("chunk", 2))
	got, err := java.NewHeap(a).ParseObjectArrayFull(core.Identifier(id))
	sym.Assert(err == nil && uint64(got.ArrayClassId) == 0x77, "object array class")
	sym.Assert(len(got.Elements) == n, "number of elements")
	for i, e := range got.Elements {
		sym.Assert(uint64(e) == es[i], "elements in order")
	}
}

// H_Deep: classes with many superclasses and many fields, and objects of them.
func H_Deep() {
	w := hw.New(hx.IDSize())
	n := []int{20, 130, 300, 1000, 4000}[sym.Choice("length", 4+sym.Tier())]
	deep := sym.Choice("deep", 2) == 1
	var cs []*hw.Class
	var data []byte
	var vals []hx.Val
	for i := 0; i < n; i++ {
		if deep || i == 0 {
			c := w.Class("C"+strconv.Itoa(i), nil)
			if i > 0 {
				cs[i-1].Super = c
			}
			cs = append(cs, c)
		}
		c := cs[len(cs)-1]
		ty := hx.Types[i%9]
		v := hx.AnyVal("value", ty, w.ID)
		vals = append(vals, v)
		data = append(data, v.Raw...)
		c.Fields = append(c.Fields, hw.Field{Name: "f" + strconv.Itoa(i), Ty: ty})
		c.Statics = append(c.Statics, hw.Static{Name: "s" + strconv.Itoa(i), Val: v})
	}
	id := w.Fresh()
	w.RawInstance(id, cs[0].Id, data)
	h := java.NewHeap(w.Open())
	o, err := h.ParseNormalObject(core.Identifier(id))
	sym.Assert(err == nil, "object with a complete class")
	for _, k := range []int{0, n / 2, n - 2, n - 1} {
		got, err := o.GetFieldValueByName("f" + strconv.Itoa(k))
		sym.Assert(err == nil && hx.SameValue(got.Value, vals[k]), "field value")
		of := "C0"
		if deep {
			of = "C" + strconv.Itoa(k)
		}
		sym.Assert(got.Origin == of, "class that defines the field")
	}
	_, err = o.GetFieldValueByName("f" + strconv.Itoa(n))
	sym.Assert(err != nil, "a field the class does not have is reported")
	c, err := h.ParseClass(core.Identifier(cs[0].Id))
	sym.Assert(err == nil, "complete class")
	at, k := &c, 0
	for i := range cs {
		sym.Assert(at != nil && at.Name == "C"+strconv.Itoa(i), "superclasses in order")
		want := 1
		if !deep {
			want = n
		}
		sym.Assert(len(at.StaticFields) == want && len(at.InstanceFields) == want, "fields of the class")
		for j := range at.StaticFields {
			s, f := at.StaticFields[j], at.InstanceFields[j]
			sym.Assert(s.Name == "s"+strconv.Itoa(k) && hx.SameValue(s.Value, vals[k]), "static fields of the class")
			sym.Assert(f.Name == "f"+strconv.Itoa(k) && byte(f.Type) == vals[k].Ty, "instance fields of the class")
			k++
		}
		at = at.Superclass
	}
	sym.Assert(at == nil, "the chain ends at the class without superclass")
}

// H_FarFields: fields far into an object.
func H_FarFields() {
	w := hw.New(hx.IDSize())
	n := []int{270, 8300, 250, 8000}[sym.Choice("fields", 2+2*sym.Tier())]
	super := w.Class("A", nil)
	c := w.Class("B", super)
	last, own := hx.AnyVal("value", []byte{2, 10, 5}[sym.Choice("type", 3)], w.ID), hx.AnyVal("value", 11, w.ID)
	var data []byte
	for i := 0; i < n; i++ {
		c.Fields = append(c.Fields, hw.Field{Name: "l", Ty: 11})
		data = append(data, byte(i>>8), byte(i), 3, 4, 5, 6, 7, 8)
	}
	c.Fields = append(c.Fields, hw.Field{Name: "own", Ty: 11})
	super.Fields = append(super.Fields, hw.Field{Name: "o", Ty: 8}, hw.Field{Name: "last", Ty: last.Ty})
	data = append(append(append(data, own.Raw...), 1), last.Raw...)
	id := w.Fresh()
	w.RawInstance(id, c.Id, data)
	o, err := java.NewHeap(w.Open()).ParseNormalObject(core.Identifier(id))
	sym.Assert(err == nil, "object with a complete class")
	for i := 0; i < 2; i++ {
		got, err := o.GetFieldValueByName("last")
		sym.Assert(err == nil && hx.SameValue(got.Value, last) && got.Origin == "A", "inherited field")
		got, err = o.GetFieldValueByName("own")
		sym.Assert(err == nil && hx.SameValue(got.Value, own) && got.Origin == "B", "own field")
	}
}
