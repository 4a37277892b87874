// Package hout has the harnesses about the text reports.
package hout

import (
	"strconv"
	"strings"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/format"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/output"
	"github.com/danielleontiev/neojhat/internal/summary"
	"github.com/danielleontiev/neojhat/internal/threads"
	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// page says that the text goes to a page, which escapes some characters. Either one of the
// texts is then arbitrary, and the numbers are fixed, or no text has such a character.
var page, anyText, marked bool

func pageMode() {
	page, anyText, marked = true, sym.Choice("mode", 2) == 0, false
}

// text is printable text without blanks.
func text(name string, n int) string {
	if page && n > 1+sym.Tier() {
		n = 1 + sym.Tier()
	}
	b := sym.Bytes(name, n)
	if page && n > 0 {
		if anyText && !marked && sym.Choice("marked", 2) == 1 {
			marked = true
			for i := range b {
				sym.Assume(b[i] != 0)
				if i == 0 || i == n-1 {
					sym.Assume(b[i] > ' ')
				}
			}
			return string(b)
		}
		for i := range b {
			sym.Assume(sym.And(b[i] != '<', b[i] != '>', b[i] != '&', b[i] != '"', b[i] != '\'', b[i] != '+'))
		}
	}
	for i := range b {
		sym.Assume(sym.And(b[i] > ' ', b[i] < 0x7f))
	}
	return string(b)
}

// ident is text that can be part of a class name.
func ident(name string, n int) string {
	b := []byte(text(name, n))
	for i := range b {
		sym.Assume(sym.And(b[i] > ' ', b[i] < 0x7f, b[i] != '.', b[i] != ';', b[i] != '[', b[i] != '/'))
	}
	return string(b)
}

// strip removes the ANSI colour codes.
func strip(s string) string {
	var r []byte
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b {
			for s[i] != 'm' {
				i++
			}
			continue
		}
		r = append(r, s[i])
	}
	return string(r)
}

// anyThreads is a thread dump with arbitrary contents and its report, indented as given.
func anyThreads(localVars bool, ind string) (threads.ThreadDump, string) {
	n := 1
	if !page || !anyText {
		n = sym.Choice("threads", 3)
	}
	numbers := 0
	long := -1 // the number that may have more than one digit
	if !page && ind != "\t" {
		long = sym.Choice("long number", 4)
	}
	num := func() int { // one digit is enough for colours
		if anyText {
			numbers++
			return numbers
		}
		if long >= 0 {
			if numbers++; numbers-1 != long {
				return int(sym.U8("number") & 7)
			}
		} else if ind == "\t" {
			return int(sym.U8("number") & 7)
		}
		return int(sym.I32("number"))
	}
	var td threads.ThreadDump
	var reps []string
	var ids []int
	for i := 0; i < n; i++ {
		st := threads.StackTrace{ThreadName: text("name", 1+i), ThreadId: num(), ThreadDaemon: i == 0 && !anyText && sym.Bool("daemon"), ThreadPriority: num(), ThreadStatus: 1}
		for _, x := range ids {
			sym.Assume(x != st.ThreadId)
		}
		ids = append(ids, st.ThreadId)
		rep := "\"" + st.ThreadName + "\", ID=" + strconv.Itoa(st.ThreadId) + ", prio=" + strconv.Itoa(st.ThreadPriority) + ", status=" + st.ThreadStatus.String()
		if st.ThreadDaemon {
			rep += " (daemon)"
		}
		rep += "\n"
		frames := 1
		if n == 1 && !anyText {
			frames = sym.Choice("frames", 3)
		}
		for k := 0; k < frames; k++ {
			method, class := text("method", 1), ident("class", 2)
			f := threads.StackFrame{MethodName: method, ClassName: "a/" + class, FileName: text("file", 1), LineNumber: core.Unknown.String()}
			f.MethodSignature = "(I)V"
			sig := [2]string{"void", "int"}
			loc := f.FileName
			if n == 1 && k == 0 {
				switch sym.Choice("frame", 4) {
				case 1:
					f.LineNumber = core.LineNumber(num()).String()
					if f.LineNumber != core.Unknown.String() {
						loc += ":" + f.LineNumber
					}
				case 2:
					f.FileName = threads.UnknownString
					f.LineNumber = "12"
					loc = ""
				case 3:
					c := ident("argument", 1)
					f.MethodSignature = "(L" + c + ";[J)[[L" + c + ";"
					sig = [2]string{c + "[][]", c + ", long[]"}
				}
			}
			rep += ind + sig[0] + " a." + class + "." + method + "(" + sig[1] + ") " + loc + "\n"
			locals := 0
			if n == 1 && k == 0 {
				locals = 2
			}
			for m := 0; m < locals; m++ { // with a single thread only
				c := ident("local", 1)
				l := threads.LocalFrame{ObjectId: 1, ObjectTypeSignature: "p/" + c, Type: threads.Frame}
				w := "p." + c
				x := 0
				if m == 0 {
					if page {
						x = sym.Choice("local", 3)
					} else if long < 0 || long == 3 {
						x = sym.Choice("local", 10)
					}
				}
				switch x {
				case 1:
					l.ObjectTypeSignature, w = "[Lp/"+c+";", "p."+c+"[]"
				case 2:
					l.ObjectTypeSignature, w = "[["+"J", "long[][]"
				case 3:
					l.ObjectTypeSignature, w = "class p/"+c, "class p."+c
				case 4:
					l.ObjectTypeSignature, w = "class [Lp/"+c+";", "class p."+c+"[]"
				case 5:
					l.ObjectTypeSignature, w = "class"+c+"/x", "class"+c+".x"
				case 6:
					l.ObjectTypeSignature, w = c, c
				case 7:
					l.ObjectTypeSignature, w = c+"class/x", c+"class.x"
				case 8:
					l.ObjectTypeSignature, w = "L"+c+"/L", "L"+c+".L"
				case 9:
					k := [9]string{"void", "int", "byte", "J", "L", "class", "java/lang/Class", "unknown", "I"}[sym.Choice("word", 9)]
					l.ObjectTypeSignature, w = k, strings.ReplaceAll(k, "/", ".")
				}
				f.LocalFrames = append(f.LocalFrames, l)
				if localVars {
					rep += ind + ind + "local " + w + "\n"
				}
			}
			st.Frames = append(st.Frames, f)
		}
		td.StackTraces = append(td.StackTraces, st)
		reps = append(reps, rep+"\n")
	}
	if n == 2 && ids[0] > ids[1] {
		reps[0], reps[1] = reps[1], reps[0]
	}
	return td, strings.Join(reps, "")
}

// H_Threads: the text report of the threads.
func H_Threads() {
	locals := sym.Choice("locals", 2) == 1
	td, want := anyThreads(locals, "    ")
	var sb strings.Builder
	output.ThreadsPlain(td, locals, &sb)
	sym.Assert(sym.EqStr(sb.String(), want), "report of the threads")
}

// H_ThreadsColor: the coloured report says the same.
func H_ThreadsColor() {
	locals := sym.Choice("locals", 2) == 1
	td, want := anyThreads(locals, "\t")
	got := sym.CaptureStdout(func() { output.ThreadsPlainColor(td, locals) })
	sym.Assert(sym.EqStr(strip(got), want), "coloured report of the threads")
}

// anySummary is a summary with arbitrary contents and its report.
func anySummary() (summary.Summary, string) {
	sizes := []int{0, 1, 1, 3, 1, 1}
	v := make([]string, 6)
	for i := range v {
		v[i] = text("value", sizes[i])
	}
	s := summary.Summary{Env: summary.EnvProperties{Architecture: v[0], JavaHome: v[1], JavaName: v[2], JavaVendor: v[3], JavaVersion: v[4], System: v[5]},
		Heap:   summary.HeapProperties{Classes: 11, GcRoots: 22, Instances: 33, HeapSize: 44},
		System: summary.SystemProperties{JvmUptime: text("uptime", 2)}}
	c := -1
	if !anyText {
		c = sym.Choice("number", 4)
	}
	switch c {
	case 0:
		s.Heap.Classes = int(sym.U32("classes"))
	case 1:
		s.Heap.GcRoots = int(sym.U32("roots"))
	case 2:
		s.Heap.Instances = int(sym.U32("instances"))
	case 3:
		s.Heap.HeapSize = int(sym.U32("size"))
	}
	type line struct{ k, v string }
	secs := []string{"Environment", "Heap", "System"}
	rows := [][]line{
		{{"Architecture", v[0]}, {"JavaHome", v[1]}, {"JavaName", v[2]}, {"JavaVendor", v[3]}, {"JavaVersion", v[4]}, {"System", v[5]}},
		{{"Classes", strconv.Itoa(s.Heap.Classes)}, {"GC Roots", strconv.Itoa(s.Heap.GcRoots)}, {"Instances", strconv.Itoa(s.Heap.Instances)}, {"Heap Size", format.Size(s.Heap.HeapSize)}},
		{{"JVM Uptime", s.System.JvmUptime}}}
	width := len("Architecture")
	if p := sym.Choice("properties", 4); p > 0 {
		secs = append(secs, "Properties")
		s.Properties = []summary.Kv{}
		var r []line
		for i := 1; i < p; i++ {
			k := text("key", 1)
			if i == 2 {
				k += "0123456789abcde" // longer than every other key
			}
			val := text("value", 1)
			raw := val
			switch sym.Choice("blanks", 3) {
			case 1:
				raw = " " + val + "\n"
			case 2:
				val, raw = "", "\n"
			}
			s.Properties = append(s.Properties, summary.Kv{Key: k, Val: raw})
			r = append(r, line{k, val})
			if len(k) > width {
				width = len(k)
			}
		}
		rows = append(rows, r)
	}
	want := ""
	for i, sec := range secs {
		want += "- " + sec + "\n"
		for _, r := range rows[i] {
			want += r.k + ":" + strings.Repeat(" ", width+10-len(r.k)) + r.v + "\n"
		}
		want += "\n"
	}
	return s, want
}

// H_Summary: the text report of the summary.
func H_Summary() {
	s, want := anySummary()
	var sb strings.Builder
	output.SummaryPlain(s, &sb)
	sym.Assert(sym.EqStr(sb.String(), want), "report of the summary")
}

// H_SummaryColor: the coloured report says the same.
func H_SummaryColor() {
	s, want := anySummary()
	got := sym.CaptureStdout(func() { output.SummaryPlainColor(s) })
	sym.Assert(sym.EqStr(strip(got), want), "coloured report of the summary")
}

// H_ObjectsColor: the coloured report of the objects says the same as the plain one.
func H_ObjectsColor() {
	n := sym.Choice("items", 3)
	o := objects.Objects{SortBy: objects.SortBy(sym.Choice("sort by", 2))}
	for i := 0; i < n; i++ {
		x := objects.ObjectItem{Name: text("name", 1+i), InstancesCount: int(sym.U8("count") & 7), TotalSize: int(sym.U8("size") & 7)}
		o.TotalCount += x.InstancesCount
		o.TotalSize += x.TotalSize
		o.Items = append(o.Items, x)
	}
	p := o
	p.Items = append([]objects.ObjectItem{}, o.Items...)
	var sb strings.Builder
	output.ObjectsPlain(o, &sb)
	got := sym.CaptureStdout(func() { output.ObjectsPlainColor(p) })
	sym.Assert(sym.EqStr(strip(got), sb.String()), "coloured report of the objects")
}

// H_Stable: the reports about a dump do not depend on the order in which maps are walked.
func H_Stable() {
	w := hw.New(hx.IDSize())
	// names that start alike
	prefix := "com/example/application/server/implementation/internal/"[:[]int{0, 20, 55}[sym.Choice("prefix", 3)]]
	a := w.Class(prefix+"A", nil)
	a.Size = 24
	b := w.Class(prefix+"B", nil)
	b.Size = 24
	b2 := w.Class(prefix+"B", nil) // of another class loader
	b2.Size = 24
	acc := w.Open()
	c := &acc.MetaStorage.Counters
	n := func() int { return int(sym.U8("count")&1) + 1 }
	c.PrimArraysCount = map[core.JavaType]int{core.Int: n(), core.Float: n()}
	c.PrimArrayElementsCount = map[core.JavaType]int{core.Float: 8, core.Int: 8}
	c.ObjArraysCount = map[core.Identifier]int{}
	c.ObjArrayElementsCount = map[core.Identifier]int{}
	c.InstancesCount = map[core.Identifier]int{core.Identifier(a.Id): n(), core.Identifier(b.Id): n(), core.Identifier(b2.Id): n()}
	by := objects.SortBy(sym.Choice("sort by", 2))
	report := func() string {
		o, err := objects.GetObjects(acc, by)
		sym.Assert(err == nil, "objects of a complete dump")
		var sb strings.Builder
		output.ObjectsPlain(o, &sb)
		return sb.String()
	}
	first := report()
	sym.PermuteMaps(true)
	second := report()
	sym.PermuteMaps(false)
	sym.Assert(sym.EqStr(first, second), "the same report for the same dump")
}

// H_StableTotals: neither do totals of large numbers.
func H_StableTotals() {
	w := hw.New(8)
	big := [][]int{{1<<24 + 1, 3, 5}, {1<<31 - 1, 1 << 31, 7}, {1<<53 + 1, 1, 1}, {1<<40 + 1, 1<<20 + 3, 1}, {1, 2, 3}}
	a, b := big[sym.Choice("counts", len(big))], big[sym.Choice("elements", len(big))]
	size := uint32(1<<8 + 1)
	var ids []core.Identifier
	for _, n := range []string{"A", "B", "C"} {
		c := w.Class(n, nil)
		c.Size = size
		ids = append(ids, core.Identifier(c.Id))
	}
	acc := w.Open()
	c := &acc.MetaStorage.Counters
	c.PrimArraysCount = map[core.JavaType]int{core.Int: a[0], core.Byte: a[1], core.Long: a[2]}
	c.PrimArrayElementsCount = map[core.JavaType]int{core.Int: b[0], core.Byte: b[1], core.Long: b[2]}
	c.ObjArraysCount = map[core.Identifier]int{}
	c.ObjArrayElementsCount = map[core.Identifier]int{}
	c.InstancesCount = map[core.Identifier]int{}
	total, bytes := a[0]+a[1]+a[2], 4*b[0]+b[1]+8*b[2]
	if sym.Choice("instances", 2) == 1 {
		c.InstancesCount = map[core.Identifier]int{ids[0]: a[2], ids[1]: a[0], ids[2]: a[1]}
		total += a[0] + a[1] + a[2]
		bytes += int(size) * (a[0] + a[1] + a[2])
	}
	sym.PermuteMaps(true)
	o, err := objects.GetObjects(acc, objects.SortBy(sym.Choice("sort by", 2)))
	sym.PermuteMaps(false)
	sym.Assert(err == nil, "objects of a complete dump")
	sym.Assert(o.TotalCount == total && o.TotalSize == bytes, "totals are exact")
}
