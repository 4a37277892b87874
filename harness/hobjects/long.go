package hobjects

import (
	"strconv"
	"strings"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/format"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/output"
	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// H_ManyTotals: the statistics of dumps with many classes.
func H_ManyTotals() {
	w := hw.New(hx.IDSize())
	n := []int{20, 70, 400, 2000}[sym.Choice("classes", 3+sym.Tier())]
	odd := []int{0, n / 2, n - 1}[sym.Choice("arbitrary", 3)]
	var cs, as []*hw.Class
	for i := 0; i < n; i++ {
		c := w.Class("p/C"+strconv.Itoa(i), nil)
		c.Size = uint32(8 * (i + 1))
		if i == odd {
			c.Size = sym.U32("instance size")
			sym.Assume(c.Size < most)
		}
		cs = append(cs, c)
		as = append(as, w.Class("[Lp/C"+strconv.Itoa(i)+";", nil))
	}
	acc := w.Open()
	c := &acc.MetaStorage.Counters
	want := map[string]objects.ObjectItem{}
	size, cnt := 0, 0
	add := func(n string, c, s int) {
		want[n] = objects.ObjectItem{Name: n, InstancesCount: c, TotalSize: s}
		size += s
		cnt += c
	}
	c.PrimArraysCount = map[core.JavaType]int{}
	c.PrimArrayElementsCount = map[core.JavaType]int{}
	c.ObjArraysCount = map[core.Identifier]int{}
	c.ObjArrayElementsCount = map[core.Identifier]int{}
	c.InstancesCount = map[core.Identifier]int{}
	for i, t := range primTypes {
		c.PrimArraysCount[t] = i + 1
		c.PrimArrayElementsCount[t] = 1000 * i
		add(primNames[i], i+1, 1000*i*primSizes[i])
	}
	for i := range cs {
		k, e, m := i+3, 10*i, 7*i+1
		if i == odd {
			k, e, m = int(sym.U32("count")), int(sym.U32("elements")), int(sym.U32("count"))
		}
		c.ObjArraysCount[core.Identifier(as[i].Id)] = k
		c.ObjArrayElementsCount[core.Identifier(as[i].Id)] = e
		add("p.C"+strconv.Itoa(i)+"[]", k, e*w.ID)
		c.InstancesCount[core.Identifier(cs[i].Id)] = m
		add("p.C"+strconv.Itoa(i), m, m*int(int32(cs[i].Size)))
	}
	got, err := objects.GetObjects(acc, objects.SortBy(sym.Choice("sort by", 2)))
	sym.Assert(err == nil, "objects of a complete dump")
	sym.Assert(len(got.Items) == len(want), "one item per class")
	for _, x := range got.Items {
		y, ok := want[source([]byte(x.Name))]
		sym.Assert(ok, "one item per class")
		delete(want, y.Name)
		sym.Assert(x.InstancesCount == y.InstancesCount, "count of the class")
		sym.Assert(x.TotalSize == y.TotalSize, "size of the class")
	}
	sym.Assert(got.TotalCount == cnt, "total count is the sum of the items")
	sym.Assert(got.TotalSize == size, "total size is the sum of the items")
}

// H_LongReport: reports with many entries, long names and large numbers.
func H_LongReport() {
	n := []int{12, 40, 200, 500}[sym.Choice("items", 3+sym.Tier())]
	o := objects.Objects{SortBy: objects.SortBy(sym.Choice("sort by", 2))}
	ties := sym.Choice("ties", 2) == 1
	var items []objects.ObjectItem
	for i := 0; i < n; i++ {
		k := i * 37 % n
		x := objects.ObjectItem{Name: "p/C" + strconv.Itoa(k), InstancesCount: 1 + k*k*1000003, TotalSize: 1<<uint(k%40) + k}
		if ties {
			x.InstancesCount = 1000 * (k % 3)
			x.TotalSize = 5000 * (k % 2)
		}
		switch k {
		case 7:
			x.Name = "p/" + string(name(1)) + strings.Repeat("x", 300)
		case 8:
			v := int(sym.U16("number") & 15)
			if o.SortBy == objects.Size {
				x.TotalSize = v << 20
			} else {
				x.InstancesCount = v * 1001
			}
		}
		items = append(items, x)
		o.TotalCount += x.InstancesCount
		o.TotalSize += x.TotalSize
	}
	o.Items = append(o.Items, items...)
	var sb strings.Builder
	output.ObjectsPlain(o, &sb)
	sym.Assert(sym.EqStr(sb.String(), report(o, items)), "report of the objects")
}

// report is the text report of the items, whose names are ASCII.
func report(o objects.Objects, items []objects.ObjectItem) string {
	before := func(a, b objects.ObjectItem) bool {
		p, q, r, s := a.TotalSize, b.TotalSize, a.InstancesCount, b.InstancesCount
		if o.SortBy == objects.Count {
			p, q, r, s = r, s, p, q
		}
		if p != q {
			return p > q
		}
		if a.Name != b.Name {
			return a.Name < b.Name
		}
		return r > s
	}
	for i := range items {
		for j := i; j > 0 && before(items[j], items[j-1]); j-- {
			items[j], items[j-1] = items[j-1], items[j]
		}
	}
	hs, hc := "Size ↓", "Count"
	if o.SortBy == objects.Count {
		hs, hc = "Size", "Count ↓"
	}
	var rows [][3]string
	w := [3]int{len("Class Name"), len(hc), len(hs)}
	for _, x := range items {
		r := [3]string{source([]byte(x.Name)),
			strconv.Itoa(x.InstancesCount) + " (" + pct(x.InstancesCount, o.TotalCount) + "%)",
			format.Size(x.TotalSize) + " (" + pct(x.TotalSize, o.TotalSize) + "%)"}
		rows = append(rows, r)
		for k := range w {
			if len(r[k]) > w[k] {
				w[k] = len(r[k])
			}
		}
	}
	head := func(s string, k int) string {
		return strings.Repeat(" ", w[k]+10-len([]rune(s))) + s
	}
	want := "Instances: " + strconv.Itoa(o.TotalCount) + "\nTotal Size: " + format.Size(o.TotalSize) + "\n\n"
	want += pad("Class Name", 10, w[0]+10) + " |" + head(hc, 1) + " |" + head(hs, 2) + " |\n"
	want += strings.Repeat("-", w[0]+w[1]+w[2]+30+6) + "\n"
	for _, r := range rows {
		want += pad(r[0], len(r[0]), w[0]+10) + " |" + lpad(r[1], w[1]+10) + " |" + lpad(r[2], w[2]+10) + " |\n"
	}
	return want
}

// H_Shares: the shares of the total at and around every whole percent.
func H_Shares() {
	total := []int{100, 7, 99, 1000, 1024, 1<<31 - 1, 1 << 50, 1<<56 + 1}[sym.Choice("total", 8)]
	p := sym.Choice("percent", 101)
	part := (p*total + 99) / 100
	if total != 100 {
		part += sym.Choice("delta", 3) - 1
	}
	sym.Assume(part >= 0 && part <= total)
	var o objects.Objects
	o.SortBy = objects.SortBy(sym.Choice("sort by", 2))
	o.TotalCount, o.TotalSize = total, total
	items := []objects.ObjectItem{{Name: "a", InstancesCount: part, TotalSize: total - part}, {Name: "b", InstancesCount: total - part, TotalSize: part}}
	o.Items = append(o.Items, items...)
	var sb strings.Builder
	output.ObjectsPlain(o, &sb)
	sym.Assert(sym.EqStr(sb.String(), report(o, items)), "report of the objects")
}

// H_LongName: reports of a class with a very long name.
func H_LongName() {
	n := []int{300, 700, 5000, 70000}[sym.Choice("name", 4)]
	long := "p/" + string(name(1)) + strings.Repeat("x", n/2) + string(name(1)) + strings.Repeat("y", n/2) + string(name(1))
	items := []objects.ObjectItem{{Name: "a", InstancesCount: 3, TotalSize: 2}, {Name: long, InstancesCount: 2, TotalSize: 3}}
	o := objects.Objects{SortBy: objects.SortBy(sym.Choice("sort by", 2)), TotalCount: 5, TotalSize: 5}
	o.Items = append(o.Items, items...)
	var sb strings.Builder
	output.ObjectsPlain(o, &sb)
	sym.Assert(sym.EqStr(sb.String(), report(o, items)), "report of the objects")
}

// H_ManyRows: the report of very many classes.
func H_ManyRows() {
	n := []int{6000, 30000}[sym.Tier()]
	o := objects.Objects{SortBy: objects.SortBy(sym.Choice("sort by", 2))}
	items := make([]objects.ObjectItem, n)
	for i := range items {
		items[n-1-i] = objects.ObjectItem{Name: "C" + strconv.Itoa(i), InstancesCount: 2 + i, TotalSize: 1000 + 3*i}
	}
	items[n-2].Name = string(name(2))
	for i := range items {
		x := items[i*7919%n]
		o.Items = append(o.Items, x)
		o.TotalCount += x.InstancesCount
		o.TotalSize += x.TotalSize
	}
	var sb strings.Builder
	output.ObjectsPlain(o, &sb)
	sym.Assert(sym.EqStr(sb.String(), report(o, items)), "report of the objects")
}
