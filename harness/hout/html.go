package hout

import (
	"strconv"
	"strings"

	"github.com/danielleontiev/neojhat/internal/format"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/output"
	"github.com/danielleontiev/neojhat/internal/summary"
	"github.com/danielleontiev/neojhat/internal/threads"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// trim drops the white space of the page's own layout around a text.
func trim(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\n' || s[0] == '\t') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\n' || s[len(s)-1] == '\t') {
		s = s[:len(s)-1]
	}
	return s
}

func tag(s string) string {
	i := 0
	for i < len(s) && s[i] != ' ' {
		i++
	}
	return s[:i]
}

// read gives the title of a page, its heading, the rows of its tables and its paragraphs,
// and whether it has nothing but the elements such a page has, properly nested.
func read(p string) (title, heading string, rows [][]string, paras [][2]string, ok bool) {
	toks := sym.Page(p)
	ok = true
	var open []string
	var cell *string
	var row []string
	inRow := false
	for i, t := range toks {
		if i%2 == 0 {
			if cell != nil {
				*cell += t
			}
			continue
		}
		name := tag(t)
		switch name {
		case "html", "head", "body", "title", "style", "table", "tr", "th", "td", "h1", "h3", "div", "p", "span", "thead", "tbody", "pre", "b", "section", "header", "main":
			open = append(open, name)
		case "!DOCTYPE", "meta", "link", "br", "hr":
		default:
			if len(open) == 0 || name != "/"+open[len(open)-1] {
				return title, heading, rows, paras, false
			}
			open = open[:len(open)-1]
		}
		switch name {
		case "title":
			cell = &title
		case "h1":
			cell = &heading
		case "/title", "/h1":
			cell = nil
		case "tr":
			row, inRow = nil, true
		case "/tr":
			rows = append(rows, row)
			inRow = false
		case "td", "th":
			if inRow {
				row = append(row, "")
				cell = &row[len(row)-1]
			}
		case "/td", "/th":
			if cell != nil {
				*cell = trim(*cell)
			}
			cell = nil
		case "p":
			paras = append(paras, [2]string{t, ""})
			cell = &paras[len(paras)-1][1]
		case "/p":
			cell = nil
		}
	}
	return title, heading, rows, paras, len(open) == 0
}

func joinRows(rows [][]string) string {
	s := ""
	for _, r := range rows {
		for _, c := range r {
			s += c + "|"
		}
		s += "\n"
	}
	return s
}

// H_ObjectsHtml: the page about the objects shows the same facts, whatever the classes are called.
func H_ObjectsHtml() {
	pageMode()
	n := sym.Choice("items", 3)
	o := objects.Objects{SortBy: objects.SortBy(sym.Choice("sort by", 2))}
	for i := 0; i < n; i++ {
		x := objects.ObjectItem{Name: text("name", 2), InstancesCount: 3 + i, TotalSize: 2000 - i}
		if !anyText && n == 1 {
			x.InstancesCount, x.TotalSize = int(sym.U32("count")), int(sym.U32("size"))
		} else if !anyText {
			x.InstancesCount, x.TotalSize = int(sym.U8("count")), int(sym.U8("size"))
		}
		for k := range x.Name {
			sym.Assume(x.Name[k] != '/')
		}
		o.TotalCount += x.InstancesCount
		o.TotalSize += x.TotalSize
		o.Items = append(o.Items, x)
	}
	if !anyText { // any totals would do, and fixed ones spare the solver the divisions
		o.TotalCount, o.TotalSize = 1<<20, 1000
	}
	if n == 2 {
		a, b := o.Items[0], o.Items[1]
		if o.SortBy == objects.Size {
			sym.Assume(a.TotalSize != b.TotalSize)
		} else {
			sym.Assume(a.InstancesCount != b.InstancesCount)
		}
	}
	mark := func(by objects.SortBy, s string) string {
		if o.SortBy == by {
			return s + " ↓"
		}
		return s
	}
	pct := func(p, t int) string {
		if t == 0 {
			return " (0%)"
		}
		return " (" + strconv.Itoa(100*p/t) + "%)"
	}
	row := func(x objects.ObjectItem) string {
		return x.Name + "|" + strconv.Itoa(x.InstancesCount) + pct(x.InstancesCount, o.TotalCount) + "|" + format.Size(x.TotalSize) + pct(x.TotalSize, o.TotalSize) + "|\n"
	}
	want := "Instances|" + strconv.Itoa(o.TotalCount) + "|\nTotal Size|" + format.Size(o.TotalSize) + "|\nClass Name|" + mark(objects.Count, "Count") + "|" + mark(objects.Size, "Size") + "|\n"
	var ab, ba string
	for _, x := range o.Items {
		r := row(x)
		ab, ba = ab+r, r+ba
	}
	if n == 2 {
		a, b := o.Items[0], o.Items[1]
		if o.SortBy == objects.Size && a.TotalSize < b.TotalSize || o.SortBy == objects.Count && a.InstancesCount < b.InstancesCount {
			ab = ba
		}
	}
	sym.Assume(marked || !anyText)
	var sb strings.Builder
	err := output.ObjectsHtml(o, &sb)
	sym.Assert(err == nil, "the page about the objects is written")
	checkObjectsPage(sb.String(), want+ab)
}

// H_SummaryHtml: the page about the summary.
func H_SummaryHtml() {
	pageMode()
	s, _ := anySummary()
	want := ""
	sec := func(name string, kv ...string) {
		want += name + "|\n"
		for i := 0; i < len(kv); i += 2 {
			want += kv[i] + "|" + kv[i+1] + "|\n"
		}
	}
	want = "Property|Value|\n"
	sec("Environment", "Architecture", s.Env.Architecture, "JavaHome", s.Env.JavaHome, "JavaName", s.Env.JavaName, "JavaVendor", s.Env.JavaVendor, "JavaVersion", s.Env.JavaVersion, "System", s.Env.System)
	sec("Heap", "Classes", strconv.Itoa(s.Heap.Classes), "GC Roots", strconv.Itoa(s.Heap.GcRoots), "Instances", strconv.Itoa(s.Heap.Instances), "Heap Size", format.Size(s.Heap.HeapSize))
	sec("System", "JVM Uptime", s.System.JvmUptime)
	if s.Properties != nil {
		var kv []string
		for _, p := range s.Properties {
			kv = append(kv, p.Key, trim(p.Val))
		}
		sec("Properties", kv...)
	}
	sym.Assume(marked || !anyText)
	var sb strings.Builder
	err := output.SummaryHtml(s, &sb)
	sym.Assert(err == nil, "the page about the summary is written")
	checkSummaryPage(sb.String(), want)
}

// H_ThreadsHtml: the page about the threads.
func H_ThreadsHtml() {
	pageMode()
	locals := sym.Choice("locals", 2) == 1
	td, want := anyThreads(locals, "    ")
	sym.Assume(marked || !anyText)
	var sb strings.Builder
	err := output.ThreadsHtml(td, locals, &sb)
	sym.Assert(err == nil, "the page about the threads is written")
	checkThreadsPage(sb.String(), want)
}

type badWriter struct{ left int }

func (b *badWriter) Write(p []byte) (int, error) {
	if b.left <= 0 {
		return 0, errWrite
	}
	b.left--
	return len(p), nil
}

type writeError struct{}

func (writeError) Error() string { return "no space left on device" }

var errWrite error = writeError{}

// H_HtmlFails: a page that cannot be written whole is not reported as written.
func H_HtmlFails() {
	k := sym.Choice("page", 3)
	n := int(sym.U8("writes") & 127)
	b := &badWriter{n}
	full := &badWriter{1 << 20}
	var err error
	gen := func(w *badWriter) error {
		switch k {
		case 0:
			return output.ObjectsHtml(objects.Objects{Items: []objects.ObjectItem{{Name: "A", InstancesCount: 1, TotalSize: 1}}, TotalCount: 1, TotalSize: 1}, w)
		case 1:
			return output.SummaryHtml(fixedSummary, w)
		}
		return output.ThreadsHtml(fixedThreads, true, w)
	}
	sym.Assert(gen(full) == nil, "a page is written")
	err = gen(b)
	sym.Assert((err != nil) == (n < 1<<20-full.left), "a page that is not written whole is an error")
}

var fixedSummary = summary.Summary{Properties: []summary.Kv{{Key: "a", Val: "b"}}}

var fixedThreads = threads.ThreadDump{StackTraces: []threads.StackTrace{{ThreadName: "main", Frames: []threads.StackFrame{{MethodName: "m", MethodSignature: "()V", ClassName: "C",
	LocalFrames: []threads.LocalFrame{{ObjectTypeSignature: "D"}}}}}}}

func checkObjectsPage(page, want string) {
	title, head, rows, paras, ok := read(page)
	sym.Assert(ok, "nothing in the dump becomes markup of the page about the objects")
	sym.Assert(sym.And(title == "Heap Objects", head == "Heap Objects", len(paras) == 0), "title of the page about the objects")
	sym.Assert(sym.EqStr(joinRows(rows), want), "facts of the page about the objects")
}

func checkSummaryPage(page, want string) {
	title, head, rows, paras, ok := read(page)
	sym.Assert(ok, "nothing in the dump becomes markup of the page about the summary")
	sym.Assert(sym.And(title == "Heap Summary", head == "Heap Summary", len(paras) == 0), "title of the page about the summary")
	sym.Assert(sym.EqStr(joinRows(rows), want), "facts of the page about the summary")
}

func checkThreadsPage(page, want string) {
	title, head, rows, paras, ok := read(page)
	sym.Assert(ok, "nothing in the dump becomes markup of the page about the threads")
	sym.Assert(sym.And(title == "Thread Dump", head == "Thread Dump", len(rows) == 0), "title of the page about the threads")
	got := ""
	for i, p := range paras {
		switch {
		case strings.Contains(p[0], "one"):
			got += "    "
		case strings.Contains(p[0], "two"):
			got += "        "
		case i > 0:
			got += "\n"
		}
		got += p[1] + "\n"
	}
	if len(paras) > 0 {
		got += "\n"
	}
	sym.Assert(sym.EqStr(got, want), "facts of the page about the threads")
}
