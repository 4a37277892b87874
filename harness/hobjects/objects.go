// Package hobjects has the harnesses about the statistics of objects by class and their report.
package hobjects

import (
	"strconv"
	"strings"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/format"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/output"
	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

const most = 1 << 31 // instance sizes are signed 32-bit numbers in the index

var primTypes = []core.JavaType{core.Boolean, core.Char, core.Float, core.Double, core.Byte, core.Short, core.Int, core.Long}
var primNames = []string{"boolean[]", "char[]", "float[]", "double[]", "byte[]", "short[]", "int[]", "long[]"}
var primSizes = []int{1, 2, 4, 8, 1, 2, 4, 8}

func name(n int) []byte {
	b := sym.Bytes("name", n)
	for i := range b {
		sym.Assume(sym.And(b[i] > ' ', b[i] < 0x7f, b[i] != ';', b[i] != '[', b[i] != '.'))
	}
	return b
}

func source(b []byte) string {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(sym.SelInt(x == '/', '.', int(x)))
	}
	return string(r)
}

// same compares the items as multisets.
func same(got, want []objects.ObjectItem) bool {
	if len(got) != len(want) {
		return false
	}
	eq := func(a, b objects.ObjectItem) bool {
		return sym.And(sym.EqStr(a.Name, b.Name), a.TotalSize == b.TotalSize, a.InstancesCount == b.InstancesCount)
	}
	r := true
	for _, x := range want {
		g, w := 0, 0
		for i := range want {
			g += sym.SelInt(eq(got[i], x), 1, 0)
			w += sym.SelInt(eq(want[i], x), 1, 0)
		}
		r = sym.And(r, g == w)
	}
	return r
}

// H_Totals: one item per class or array type with its number of objects and their size, and
// totals that are the sums of the items.
func H_Totals() {
	w := hw.New(hx.IDSize())
	a, b := append([]byte("A"), name(1)...), append([]byte("B"), name(1)...)
	if sym.Choice("same name", 2) == 1 {
		b = a // as loaded by another class loader
	}
	ca := w.Class(string(a), nil)
	ca.Size = sym.U32("instance size")
	cb := w.Class(string(b), nil)
	cb.Size = sym.U32("instance size")
	sym.Assume(sym.And(ca.Size < most, cb.Size < most))
	ea := append([]byte("C"), name(2)...)
	arr := w.Class("[L"+string(ea)+";", nil)
	arr2 := w.Class("[[I", nil)
	missing := sym.Choice("missing", 6)
	switch missing {
	case 1:
		cb.NoLoad = true
	case 2:
		cb.NoDump = true
	case 3:
		cb.NameId = w.Fresh()
	case 4:
		arr2.NoLoad = true
	case 5:
		arr2.NameId = w.Fresh()
	}
	acc := w.Open()
	c := &acc.MetaStorage.Counters
	count := func() int { return int(sym.U32("count")) }
	elems := func() int { return int(sym.U32("elements")) }
	var want []objects.ObjectItem
	add := func(n string, cnt, size int) {
		want = append(want, objects.ObjectItem{Name: n, InstancesCount: cnt, TotalSize: size})
	}
	c.PrimArraysCount = map[core.JavaType]int{}
	c.PrimArrayElementsCount = map[core.JavaType]int{}
	c.ObjArraysCount = map[core.Identifier]int{}
	c.ObjArrayElementsCount = map[core.Identifier]int{}
	c.InstancesCount = map[core.Identifier]int{}
	kinds := 7
	if missing == 0 {
		kinds = sym.Choice("kinds", 8)
	}
	if kinds&1 != 0 {
		first := 4 * sym.Choice("half", 2)
		for i := first; i < first+4; i++ {
			n, e := count(), elems()
			c.PrimArraysCount[primTypes[i]] = n
			c.PrimArrayElementsCount[primTypes[i]] = e
			add(primNames[i], n, e*primSizes[i])
		}
	}
	if kinds&2 != 0 {
		n, e := count(), elems()
		c.ObjArraysCount[core.Identifier(arr.Id)] = n
		c.ObjArrayElementsCount[core.Identifier(arr.Id)] = e
		add(source(ea)+"[]", n, e*w.ID)
		n, e = count(), elems()
		c.ObjArraysCount[core.Identifier(arr2.Id)] = n
		c.ObjArrayElementsCount[core.Identifier(arr2.Id)] = e
		add("int[][]", n, e*w.ID)
	}
	if kinds&4 != 0 {
		n := count()
		c.InstancesCount[core.Identifier(ca.Id)] = n
		add(string(a), n, n*int(int32(ca.Size)))
		n = count()
		c.InstancesCount[core.Identifier(cb.Id)] = n
		add(string(b), n, n*int(int32(cb.Size)))
	}
	by := objects.Size
	if kinds != 7 {
		by = objects.Count
	}
	got, err := objects.GetObjects(acc, by)
	if missing != 0 {
		sym.Assert(err != nil, "objects of an unknown class are reported")
		return
	}
	sym.Assert(err == nil, "objects of a complete dump")
	sym.Assert(got.SortBy == by, "order asked for")
	size, cnt := 0, 0
	for i := range got.Items {
		got.Items[i].Name = source([]byte(got.Items[i].Name))
	}
	for i := range want {
		want[i].Name = source([]byte(want[i].Name))
		size += want[i].TotalSize
		cnt += want[i].InstancesCount
	}
	sym.Assert(same(got.Items, want), "one item per class with its count and size")
	sym.Assert(got.TotalCount == cnt, "total count is the sum of the items")
	sym.Assert(got.TotalSize == size, "total size is the sum of the items")
}

func pad(s string, runes, width int) string { return s + strings.Repeat(" ", width-runes) }
func lpad(s string, width int) string       { return strings.Repeat(" ", width-len(s)) + s }

func pct(x, total int) string {
	if total == 0 {
		return "0"
	}
	return strconv.Itoa(100 * x / total)
}

// H_Report: the report lists every item once, largest first, with its share of the total,
// in aligned columns.
func H_Report() {
	n := sym.Choice("items", 3+sym.Tier())
	mask := uint16(3)
	if n < 3 {
		mask = []uint16{7, 2047}[sym.Choice("range", 2)]
	}
	long := n > 1 && mask == 7 && sym.Choice("long name", 2) == 1
	var items []objects.ObjectItem
	for i := 0; i < n; i++ {
		nm := string(name(1))
		if i == 1 && long {
			nm += "/é"
		}
		items = append(items, objects.ObjectItem{Name: nm, InstancesCount: int(sym.U16("count") & mask), TotalSize: int(sym.U16("size") & mask)})
	}
	o := objects.Objects{SortBy: objects.SortBy(sym.Choice("sort by", 2))}
	for _, x := range items {
		o.TotalCount += x.InstancesCount
		o.TotalSize += x.TotalSize
	}
	o.Items = append(o.Items, items...)
	var sb strings.Builder
	output.ObjectsPlain(o, &sb)
	got := sb.String()
	// the expected order
	before := func(a, b objects.ObjectItem) bool {
		p, q, r, s := a.TotalSize, b.TotalSize, a.InstancesCount, b.InstancesCount
		if o.SortBy == objects.Count {
			p, q, r, s = r, s, p, q
		}
		if p != q {
			return p > q
		}
		if a.Name != b.Name {
			return a.Name < b.Name
		}
		return r > s
	}
	for i := range items {
		for j := i; j > 0 && before(items[j], items[j-1]); j-- {
			items[j], items[j-1] = items[j-1], items[j]
		}
	}
	hs, hc := "Size ↓", "Count"
	if o.SortBy == objects.Count {
		hs, hc = "Size", "Count ↓"
	}
	var rows [][3]string
	w := [3]int{len("Class Name"), len(hc), len(hs)}
	for _, x := range items {
		r := [3]string{source([]byte(x.Name)),
			strconv.Itoa(x.InstancesCount) + " (" + pct(x.InstancesCount, o.TotalCount) + "%)",
			format.Size(x.TotalSize) + " (" + pct(x.TotalSize, o.TotalSize) + "%)"}
		rows = append(rows, r)
		for k := range w {
			if len(r[k]) > w[k] {
				w[k] = len(r[k])
			}
		}
	}
	want := "Instances: " + strconv.Itoa(o.TotalCount) + "\nTotal Size: " + format.Size(o.TotalSize) + "\n\n"
	arrow := strings.Repeat
	cell := func(s string, k int) string {
		extra := 0
		if strings.HasSuffix(s, "↓") {
			extra = len("↓") - 1
		}
		return arrow(" ", w[k]+10-len(s)+extra) + s
	}
	want += pad("Class Name", 10, w[0]+10) + " |" + cell(hc, 1) + " |" + cell(hs, 2) + " |\n"
	want += strings.Repeat("-", w[0]+w[1]+w[2]+30+6) + "\n"
	for _, r := range rows {
		ln := len(r[0])
		if ln > 1 {
			ln-- // é is two bytes
		}
		want += pad(r[0], ln, w[0]+10) + " |" + lpad(r[1], w[1]+10) + " |" + lpad(r[2], w[2]+10) + " |\n"
	}
	sym.Assert(sym.EqStr(got, want), "report of the objects")
}
