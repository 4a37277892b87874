package hout

import (
	"strconv"
	"strings"

	"github.com/danielleontiev/neojhat/internal/format"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/output"
	"github.com/danielleontiev/neojhat/internal/summary"
	"github.com/danielleontiev/neojhat/internal/threads"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// wide is the length of the very long texts of a harness about few facts (0: not such a one).
var wide int

// veryLong chooses the length of the texts of a harness.
func veryLong() { wide = []int{700, 9000, 70000}[sym.Choice("text", 2+sym.Tier())] }

// padded is veryLong for reports that fill every row up to the longest text.
func padded() { wide = []int{700, 2000, 9000}[sym.Choice("text", 2+sym.Tier())] }

// many is a number of facts, 0 for the fewest.
func many(name string, n int) int {
	if wide > 0 {
		return 0
	}
	return sym.Choice(name, n)
}

// long is a long word with some arbitrary letters.
func long(name string) string {
	n := max(wide, 300)
	b := hx.Pattern(name, n)
	for _, i := range []int{0, n / 2, n - 1} {
		sym.Assume(sym.Or(sym.And(b[i] >= 'a', b[i] <= 'z'), sym.And(b[i] >= '0', b[i] <= '9'), b[i] == '$', b[i] == '_'))
	}
	return string(b)
}

// manyThreads is a dump of many threads, deep stacks and long names, and its report.
func manyThreads(localVars bool, ind string, page int) (threads.ThreadDump, string) {
	n := []int{13, 40, 300, 1100}[many("threads", 3-page+sym.Tier())]
	depth := []int{130, 300, 2000, 5000}[many("depth", 3-page+sym.Tier())]
	where := sym.Choice("long", 6)
	name := func(i int) string {
		if i == where {
			return long("text")
		}
		return "x" + strconv.Itoa(i)
	}
	var td threads.ThreadDump
	reps := make([]string, n)
	for i := 0; i < n; i++ {
		k := i * 7 % n // the order of the ids is another than that of the dump
		if n%7 == 0 {
			k = n - 1 - i
		}
		st := threads.StackTrace{ThreadName: "t" + strconv.Itoa(k), ThreadId: k*3000000000 - 5, ThreadDaemon: k%2 == 0, ThreadPriority: k % 11, ThreadStatus: 1}
		if k == n/2 {
			st.ThreadName = name(0)
		}
		rep := "\"" + st.ThreadName + "\", ID=" + strconv.Itoa(st.ThreadId) + ", prio=" + strconv.Itoa(st.ThreadPriority) + ", status=" + st.ThreadStatus.String()
		if st.ThreadDaemon {
			rep += " (daemon)"
		}
		rep += "\n"
		frames := k % 4
		if k == n/2 {
			frames = depth
		}
		for q := 0; q < frames; q++ {
			f := threads.StackFrame{MethodName: "m" + strconv.Itoa(q), ClassName: "a/B", FileName: "B.java", LineNumber: strconv.Itoa(q*1000 + 1), MethodSignature: "()V"}
			ret, args := "void", ""
			if k == n/2 && q == depth-2 {
				f.MethodName, f.ClassName, f.FileName = name(1), "a/"+name(2), name(3)
				c, more := name(4), 20
				if wide > 0 {
					more = 2
				}
				f.MethodSignature = "(" + strings.Repeat("J[La/"+c+";", more) + ")" + strings.Repeat("[", 60) + "I"
				ret = "int" + strings.Repeat("[]", 60)
				args = "long, a." + c + "[]" + strings.Repeat(", long, a."+c+"[]", more-1)
			}
			rep += ind + ret + " " + strings.ReplaceAll(f.ClassName, "/", ".") + "." + f.MethodName + "(" + args + ") " + f.FileName + ":" + f.LineNumber + "\n"
			locals := q % 2
			if k == n/2 && q == depth-2 {
				locals = 140
			}
			for m := 0; m < locals; m++ {
				c := "L" + strconv.Itoa(m)
				if m == 139 {
					c = name(5)
				}
				f.LocalFrames = append(f.LocalFrames, threads.LocalFrame{ObjectId: 1, ObjectTypeSignature: "[Lp/" + c + ";", Type: threads.JniLocal})
				if localVars {
					rep += ind + ind + "local p." + c + "[]\n"
				}
			}
			st.Frames = append(st.Frames, f)
		}
		td.StackTraces = append(td.StackTraces, st)
		reps[k] = rep + "\n"
	}
	return td, strings.Join(reps, "")
}

// H_LongThreads: the text report of many threads.
func H_LongThreads() {
	locals := sym.Choice("locals", 2) == 1
	td, want := manyThreads(locals, "    ", 0)
	var sb strings.Builder
	output.ThreadsPlain(td, locals, &sb)
	sym.Assert(sym.EqStr(sb.String(), want), "report of the threads")
}

// H_LongThreadsColor: the coloured report of many threads.
func H_LongThreadsColor() {
	locals := sym.Choice("locals", 2) == 1
	td, want := manyThreads(locals, "\t", 1)
	got := sym.CaptureStdout(func() { output.ThreadsPlainColor(td, locals) })
	sym.Assert(sym.EqStr(strip(got), want), "coloured report of the threads")
}

// H_LongThreadsHtml: the page about many threads.
func H_LongThreadsHtml() {
	locals := sym.Choice("locals", 2) == 1
	td, want := manyThreads(locals, "    ", 1)
	var sb strings.Builder
	sym.Assert(output.ThreadsHtml(td, locals, &sb) == nil, "the page about the threads is written")
	checkThreadsPage(sb.String(), want)
}

// manySummary is a summary of many properties and long texts.
func manySummary(small int) (summary.Summary, []string, [][][2]string) {
	where := sym.Choice("long", 5)
	name := func(i int) string {
		if i == where {
			return long("text")
		}
		return "x" + strconv.Itoa(i)
	}
	s := summary.Summary{Env: summary.EnvProperties{Architecture: name(0), JavaHome: "h", JavaName: "n", JavaVendor: "v", JavaVersion: "r", System: name(1)},
		Heap:   summary.HeapProperties{Classes: 1 << 40, GcRoots: 1 << 33, Instances: 1<<45 + 1, HeapSize: 1<<50 + 7},
		System: summary.SystemProperties{JvmUptime: name(2)}}
	rows := [][][2]string{
		{{"Architecture", s.Env.Architecture}, {"JavaHome", "h"}, {"JavaName", "n"}, {"JavaVendor", "v"}, {"JavaVersion", "r"}, {"System", s.Env.System}},
		{{"Classes", strconv.Itoa(s.Heap.Classes)}, {"GC Roots", strconv.Itoa(s.Heap.GcRoots)}, {"Instances", strconv.Itoa(s.Heap.Instances)}, {"Heap Size", format.Size(s.Heap.HeapSize)}},
		{{"JVM Uptime", s.System.JvmUptime}}, nil}
	n := []int{20, 140, 1000, 5000}[many("properties", 3-small+sym.Tier())]
	for i := 0; i < n; i++ {
		kv := summary.Kv{Key: "key." + strconv.Itoa(i), Val: "val" + strconv.Itoa(i*i)}
		if i == n-2 {
			kv.Key = name(3)
		}
		if i == n/2 {
			kv.Val = name(4)
		}
		s.Properties = append(s.Properties, kv)
		rows[3] = append(rows[3], [2]string{kv.Key, kv.Val})
	}
	return s, []string{"Environment", "Heap", "System", "Properties"}, rows
}

func plainSummary(secs []string, rows [][][2]string) string {
	width := 0
	for _, rs := range rows {
		for _, r := range rs {
			width = max(width, len(r[0]))
		}
	}
	want := ""
	for i, sec := range secs {
		want += "- " + sec + "\n"
		for _, r := range rows[i] {
			want += r[0] + ":" + strings.Repeat(" ", width+10-len(r[0])) + r[1] + "\n"
		}
		want += "\n"
	}
	return want
}

// H_LongSummary: the text report of a summary with many properties.
func H_LongSummary() {
	s, secs, rows := manySummary(0)
	var sb strings.Builder
	output.SummaryPlain(s, &sb)
	sym.Assert(sym.EqStr(sb.String(), plainSummary(secs, rows)), "report of the summary")
}

// H_LongSummaryColor: the coloured report of such a summary.
func H_LongSummaryColor() {
	s, secs, rows := manySummary(1)
	got := sym.CaptureStdout(func() { output.SummaryPlainColor(s) })
	sym.Assert(sym.EqStr(strip(got), plainSummary(secs, rows)), "coloured report of the summary")
}

// H_LongSummaryHtml: the page about such a summary.
func H_LongSummaryHtml() {
	s, secs, rows := manySummary(0)
	want := "Property|Value|\n"
	for i, sec := range secs {
		want += sec + "|\n"
		for _, r := range rows[i] {
			want += r[0] + "|" + r[1] + "|\n"
		}
	}
	var sb strings.Builder
	sym.Assert(output.SummaryHtml(s, &sb) == nil, "the page about the summary is written")
	checkSummaryPage(sb.String(), want)
}

// manyObjects has many entries, in descending order but for an arbitrary rotation.
func manyObjects(small int) (objects.Objects, objects.Objects) {
	n := []int{13, 140, 1100, 5000}[many("items", 3-small+sym.Tier())]
	o := objects.Objects{SortBy: objects.SortBy(sym.Choice("sort by", 2))}
	c := string(long("class"))
	for i := 0; i < n; i++ {
		x := objects.ObjectItem{Name: "C" + strconv.Itoa(i), InstancesCount: (n - i) * 999, TotalSize: (n - i) * 77777}
		if i == n/2 {
			x.Name = c
		}
		o.TotalCount += x.InstancesCount
		o.TotalSize += x.TotalSize
		o.Items = append(o.Items, x)
	}
	r := o
	k := []int{0, 1, n / 2, n - 1}[sym.Choice("rotation", 4)]
	r.Items = append(append([]objects.ObjectItem{}, o.Items[k:]...), o.Items[:k]...)
	return o, r
}

// H_LongObjectsColor: the coloured report of many classes.
func H_LongObjectsColor() {
	_, o := manyObjects(1)
	p := o
	p.Items = append([]objects.ObjectItem{}, o.Items...)
	var sb strings.Builder
	output.ObjectsPlain(o, &sb)
	got := sym.CaptureStdout(func() { output.ObjectsPlainColor(p) })
	sym.Assert(sym.EqStr(strip(got), sb.String()), "coloured report of the objects")
}

// H_LongObjectsHtml: the page about many classes.
func H_LongObjectsHtml() {
	o, r := manyObjects(0)
	want := "Instances|" + strconv.Itoa(o.TotalCount) + "|\nTotal Size|" + format.Size(o.TotalSize) + "|\nClass Name|Count|Size ↓|\n"
	if o.SortBy == objects.Count {
		want = strings.Replace(want, "Count|Size ↓", "Count ↓|Size", 1)
	}
	for _, x := range o.Items {
		want += x.Name + "|" + strconv.Itoa(x.InstancesCount) + " (" + strconv.Itoa(100*x.InstancesCount/o.TotalCount) + "%)|" +
			format.Size(x.TotalSize) + " (" + strconv.Itoa(100*x.TotalSize/o.TotalSize) + "%)|\n"
	}
	var sb strings.Builder
	sym.Assert(output.ObjectsHtml(r, &sb) == nil, "the page about the objects is written")
	checkObjectsPage(sb.String(), want)
}

// H_VeryLongThreads: the text report of threads with very long texts.
func H_VeryLongThreads() {
	veryLong()
	H_LongThreads()
}

// H_VeryLongThreadsColor: the coloured report of such threads.
func H_VeryLongThreadsColor() {
	veryLong()
	H_LongThreadsColor()
}

// H_VeryLongThreadsHtml: the page about such threads.
func H_VeryLongThreadsHtml() {
	veryLong()
	H_LongThreadsHtml()
}

// H_VeryLongSummary: the text report of a summary with very long texts.
func H_VeryLongSummary() {
	veryLong()
	H_LongSummary()
}

// H_VeryLongSummaryColor: the coloured report of such a summary.
func H_VeryLongSummaryColor() {
	padded()
	H_LongSummaryColor()
}

// H_VeryLongSummaryHtml: the page about such a summary.
func H_VeryLongSummaryHtml() {
	veryLong()
	H_LongSummaryHtml()
}

// H_VeryLongObjectsColor: the coloured report of classes with very long names.
func H_VeryLongObjectsColor() {
	padded()
	H_LongObjectsColor()
}

// H_VeryLongObjectsHtml: the page about such classes.
func H_VeryLongObjectsHtml() {
	veryLong()
	H_LongObjectsHtml()
}

// H_Crowd: the text report of very many threads.
func H_Crowd() { crowd(0) }

// H_CrowdColor: the coloured report of very many threads.
func H_CrowdColor() { crowd(1) }

// H_CrowdHtml: the page about very many threads.
func H_CrowdHtml() { crowd(2) }

func crowd(kind int) {
	n := []int{6000, 20000}[sym.Tier()]
	ind := []string{"    ", "\t", "    "}[kind]
	odd := string(hx.Pattern("name", 3))
	for i := range odd {
		sym.Assume(odd[i] >= 'a' && odd[i] <= 'z')
	}
	if kind > 0 {
		n /= 4
	}
	var td threads.ThreadDump
	var sb strings.Builder
	for i := 0; i < n; i++ {
		name := "t"
		if i == n-2 {
			name = odd
		}
		td.StackTraces = append(td.StackTraces, threads.StackTrace{ThreadName: name, ThreadId: i, ThreadPriority: 5, ThreadStatus: 4, Frames: []threads.StackFrame{{MethodName: "m", ClassName: "C", FileName: "F", LineNumber: "1", MethodSignature: "()V"}}})
		sb.WriteString("\"" + name + "\", ID=" + strconv.Itoa(i) + ", prio=5, status=RUNNABLE\n" + ind + "void C.m() F:1\n\n")
	}
	switch kind {
	case 0:
		var got strings.Builder
		output.ThreadsPlain(td, false, &got)
		sym.Assert(sym.EqStr(got.String(), sb.String()), "report of very many threads")
	case 1:
		got := sym.CaptureStdout(func() { output.ThreadsPlainColor(td, false) })
		sym.Assert(sym.EqStr(strip(got), sb.String()), "coloured report of very many threads")
	case 2:
		var got strings.Builder
		sym.Assert(output.ThreadsHtml(td, false, &got) == nil, "the page about the threads is written")
		checkThreadsPage(got.String(), sb.String())
	}
}

// H_Alike: frames whose texts, one written after the other, may be the same.
func H_Alike() {
	type frame struct{ class, method, file, line string }
	text := func(name string) string {
		b := sym.Bytes(name, 1+sym.Choice("longer", 2))
		for _, c := range b {
			sym.Assume(sym.Or(c == '1', c == 'a'))
		}
		return string(b)
	}
	f := frame{"c1", "m1", "f1", "1"}
	g := f
	switch sym.Choice("which", 3) {
	case 0:
		f.file, g.file = text("file"), text("file")
		f.line, g.line = []string{"1", "11"}[sym.Choice("line", 2)], []string{"1", "11"}[sym.Choice("line", 2)]
	case 1:
		f.class, g.class = text("class"), text("class")
		f.method, g.method = text("method"), text("method")
	case 2:
		f.method, g.method = text("method"), text("method")
		f.file, g.file = text("file"), text("file")
	}
	var td threads.ThreadDump
	var st threads.StackTrace
	want := "\"\", ID=0, prio=0, status=RUNNABLE\n"
	for _, x := range []frame{f, g, f} {
		st.Frames = append(st.Frames, threads.StackFrame{MethodName: x.method, ClassName: x.class, FileName: x.file, LineNumber: x.line, MethodSignature: "()V"})
		want += "    void " + x.class + "." + x.method + "() " + x.file + ":" + x.line + "\n"
	}
	st.ThreadStatus = 4
	td.StackTraces = append(td.StackTraces, st)
	var got strings.Builder
	output.ThreadsPlain(td, false, &got)
	sym.Assert(sym.EqStr(got.String(), want+"\n"), "frames that are alike")
}
