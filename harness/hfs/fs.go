// Package hfs has the harnesses about what the commands do to the file system, on an in-memory
// file system whose operations are numbered steps.
package hfs

import (
	"errors"
	"strings"

	"github.com/danielleontiev/neojhat/internal/cmd"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/mos"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

const file = "/data/a.hprof"

// dump is a dump all three commands can report on, under construction.
type dump struct {
	*hw.World
	thread, node, table, chm, props, runtime, system, helper *hw.Class
	head                                                     uint64
}

func newContent() *dump {
	w := hw.New(8)
	d := &dump{World: w}
	object := w.Class("java/lang/Object", nil)
	w.StringClass()
	d.thread = w.Class("java/lang/Thread", object,
		hw.Field{Name: "threadStatus", Ty: 10}, hw.Field{Name: "tid", Ty: 11}, hw.Field{Name: "name", Ty: 2}, hw.Field{Name: "daemon", Ty: 4}, hw.Field{Name: "priority", Ty: 10})
	d.node = w.Class("java/util/concurrent/ConcurrentHashMap$Node", object,
		hw.Field{Name: "hash", Ty: 10}, hw.Field{Name: "key", Ty: 2}, hw.Field{Name: "val", Ty: 2}, hw.Field{Name: "next", Ty: 2})
	d.table = w.Class("[Ljava/util/concurrent/ConcurrentHashMap$Node;", object)
	d.chm = w.Class("java/util/concurrent/ConcurrentHashMap", object, hw.Field{Name: "table", Ty: 2})
	d.props = w.Class("java/util/Properties", object, hw.Field{Name: "map", Ty: 2})
	d.runtime = w.Class("sun/management/RuntimeImpl", object, hw.Field{Name: "vmStartupTime", Ty: 11})
	d.system = w.Class("java/lang/System", object)
	d.helper = w.Class("sun/management/ManagementFactoryHelper", object)
	d.prop("os.name", "Lx")
	return d
}

// prop adds a system property.
func (d *dump) prop(key, val string) {
	k, v := d.String([]byte(key)), d.String([]byte(val))
	d.head = d.Instance(d.node, hw.Int(7), d.Ref(k), d.Ref(v), d.Ref(d.head))
}

func (d *dump) bytes() []byte {
	c := d.Instance(d.chm, d.Ref(d.ObjArray(d.table.Id, d.head)))
	p := d.Instance(d.props, d.Ref(c))
	r := d.Instance(d.runtime, hw.Long(5))
	d.system.Statics = append(d.system.Statics, hw.Static{Name: "props", Val: d.Ref(p)})
	d.helper.Statics = append(d.helper.Statics, hw.Static{Name: "runtimeMBean", Val: d.Ref(r)})
	return d.Bytes()
}

// content is a dump all three commands can report on.
func content() []byte {
	d := newContent()
	t := d.Instance(d.thread, hw.Int(sym.U32("status")), hw.Long(3), d.Ref(d.String([]byte("main"))), hw.Bool(0), hw.Int(5))
	f, m := d.Fresh(), d.Utf8("run")
	d.Top().Frame(f, m, d.Utf8("()V"), m, d.thread.Serial, 12)
	d.Top().Trace(7, 1, []uint64{f})
	d.Roots().ThreadObj(t, 1, 7)
	d.Roots().JavaFrame(t, 1, 0)
	return d.bytes()
}

// small is a dump with little in it.
func small() []byte {
	w := hw.New(4)
	c := w.Class("A", nil, hw.Field{Name: "x", Ty: 8})
	w.Instance(c, hw.Byte(sym.U8("x")))
	w.PrimArray(8, 1, sym.Bytes("element", 1))
	return w.Bytes()
}

// result is what a run of a command comes to.
type result struct {
	out    string
	err    error
	killed bool
}

// run is one run of a command as its own process.
func run(path string, command int) (r result) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case mos.Killed:
			r.killed = true
		default:
			panic(x)
		}
	}()
	if r.err = cmd.ParseHprof(path, true); r.err != nil {
		return
	}
	r.out = sym.CaptureStdout(func() { r.err = get(path, command) })
	return
}

func get(path string, command int) error {
	switch command {
	case 0:
		return cmd.GetObjects(path, true, objects.Count, cmd.Plain)
	case 1:
		return cmd.GetSummary(path, true, false, cmd.Plain)
	}
	return cmd.GetThreads(path, true, false, cmd.Plain)
}

// when is the number of any one step of n.
func when(name string, n int) int {
	b := sym.U8(name)
	sym.Assume(n < 256)
	sym.Assume(1 <= b && int(b) <= n)
	return int(b)
}

// fresh is an undisturbed run on a new file system.
func fresh(data []byte, command int) (result, int) {
	mos.Reset()
	mos.Put(file, data)
	r := run(file, command)
	sym.Assert(r.err == nil && !r.killed && r.out != "", "an undisturbed run")
	return r, mos.Steps()
}

// settled checks what is in the directory of the dump.
func settled(data []byte, more ...string) {
	b, ok := mos.Get(file)
	sym.Assert(ok && sym.EqBytes(b, data), "the dump is as it was")
	for _, n := range mos.Names("/data") {
		known := n == "a.hprof" || n == "other"
		for _, m := range more {
			known = known || n == m
		}
		sym.Assert(known, "nothing else is left beside the dump")
	}
	b, ok = mos.Get("/data/other")
	sym.Assert(ok && string(b) == "x", "other files are as they were")
}

func start(data []byte) {
	mos.Reset()
	mos.Put(file, data)
	mos.Put("/data/other", []byte("x"))
}

// same checks a run against the undisturbed one.
func same(r, want result) {
	sym.Assert(!r.killed, "runs to its end")
	sym.Assert(r.err == nil, "a later run succeeds")
	sym.Assert(sym.EqStr(r.out, want.out), "a later run prints what an undisturbed one prints")
}

// H_Killed: a run that dies before any of its operations, or in the middle of a write, does not
// change what later runs print.
func H_Killed() {
	data := content()
	command := sym.Choice("command", 3)
	want, n := fresh(data, command)
	start(data)
	at := when("at", n)
	if sym.Choice("torn", 2) == 1 {
		mos.TornAt = at
	} else {
		mos.CrashAt = at
	}
	r := run(file, command)
	sym.Assume(r.killed)
	settledPrefix(data)
	mos.Process()
	same(run(file, command), want)
	mos.Process()
	same(run(file, command), want)
	settledPrefix(data)
}

// settledPrefix is settled for runs that could not clean up.
func settledPrefix(data []byte) {
	var more []string
	for _, n := range mos.Names("/data") {
		if strings.HasPrefix(n, "a.hprof") || strings.HasPrefix(n, ".a.hprof") {
			more = append(more, n)
		}
	}
	settled(data, more...)
}

// H_Failing: when any one operation fails the run says so or prints the right thing, a run that
// fails leaves no index, and later runs print what an undisturbed one prints.
func H_Failing() {
	data := content()
	command := sym.Choice("command", 3)
	want, n := fresh(data, command)
	start(data)
	mos.FailAt = when("at", n)
	r := run(file, command)
	sym.Assume(mos.Happened)
	if r.err == nil {
		sym.Assert(sym.EqStr(r.out, want.out), "success means the right output")
	}
	if mos.Failed != "removeall" && mos.Failed != "remove" {
		settled(data, "a.hprof.db")
	}
	mos.Process()
	same(run(file, command), want)
	mos.Process()
	same(run(file, command), want)
	settledPrefix(data)
}

// H_Twice: any command after any other works on the index of the first, changes nothing, and
// prints what it prints with an index of its own.
func H_Twice() {
	data := content()
	a, b := sym.Choice("first", 3), sym.Choice("second", 3)
	wantA, _ := fresh(data, a)
	wantB, _ := fresh(data, b)
	start(data)
	same(run(file, a), wantA)
	settled(data, "a.hprof.db")
	before := mos.Take("/data")
	mos.Process()
	same(run(file, b), wantB)
	sym.Assert(unchanged(before, mos.Take("/data")), "the index is reused as it is")
}

func unchanged(a, b mos.Snap) bool {
	if len(a.Paths) != len(b.Paths) {
		return false
	}
	for i := range a.Paths {
		if a.Paths[i] != b.Paths[i] || !sym.EqBytes(a.Data[i], b.Data[i]) {
			return false
		}
	}
	return true
}

// H_Together: a second process that runs from start to end between any two operations of the
// first, or dies at any of its own: both print the right thing, and so do later runs.
func H_Together() {
	data := content()
	command := sym.Choice("command", 1+2*sym.Tier())
	want, n := fresh(data, command)
	start(data)
	at := when("at", n)
	die := 0
	if sym.Tier() > 0 {
		die = when("dies at", n)
	}
	var other result
	mos.RunAt = at
	mos.Before = func() {
		mos.CrashAt = die
		other = run(file, command)
	}
	r := run(file, command)
	sym.Assume(mos.Happened)
	same(r, want)
	if !other.killed {
		same(other, want)
	}
	mos.Process()
	same(run(file, command), want)
	settledPrefix(data)
}

// H_Malformed: a run on a dump that ends too early fails and leaves nothing behind; when the dump
// is complete the next run works.
func H_Malformed() {
	data := small()
	want, _ := fresh(data, 0)
	start(data)
	n := sym.Choice("length", len(data))
	mos.Put(file, data[:n])
	r := run(file, 0)
	sym.Assert(r.err != nil, "a dump that ends too early is an error")
	settled(data[:n])
	mos.Put(file, data)
	mos.Process()
	same(run(file, 0), want)
	settled(data, "a.hprof.db")
}

// whole is one run of the program.
func whole(path string, command int) (r result) {
	e := program(commands[command], "-non-interactive", "-no-color", "-hprof", path)
	if r.out = e.out; e.code != 0 {
		r.err = errors.New(e.out)
	}
	return
}

// H_Paths: the same dump under any way to write its path.
func H_Paths() {
	data := content()
	command := sym.Choice("command", 3)
	want, _ := fresh(data, command)
	start(data)
	mos.PutDir("/data/sub")
	// Links to directories: the parent of where they lead is not the one of where they are.
	mos.PutDir("/else/inner")
	mos.PutLink("/else/back", "../data/sub")
	mos.PutLink("/else/up", "/data")
	ps := []string{"a.hprof", "./a.hprof", "../data/a.hprof", "sub/../a.hprof", "/data/a.hprof", "/data//a.hprof", "sub/.././a.hprof", "/../data/a.hprof",
		"/else/back/../a.hprof", "../else/back/.././a.hprof", "/else/up/a.hprof", "/else/back/../../else/up/a.hprof"}
	mos.Chdir("/data")
	p, q := ps[sym.Choice("path", len(ps))], ps[sym.Choice("later path", len(ps))]
	same(whole(p, command), want)
	settled(data, "a.hprof.db", "sub")
	before := mos.Take("/data")
	mos.Process()
	same(whole(q, command), want)
	sym.Assert(unchanged(before, mos.Take("/data")), "the index is reused as it is")
	sym.Assert(len(mos.Names("/data/sub")) == 0, "nothing elsewhere")
	sym.Assert(len(mos.Names("/tmp")) == 0, "nothing elsewhere")
	sym.Assert(len(mos.Names("/else")) == 3 && len(mos.Names("/else/inner")) == 0, "nothing elsewhere")
}

// H_Names: the name of the dump may have any characters.
func H_Names() {
	data := content()
	command := sym.Choice("command", 3)
	want, _ := fresh(data, command)
	start(data)
	b := sym.Bytes("name", 2)
	for i := range b {
		sym.Assume(sym.And(b[i] != 0, b[i] != '/'))
	}
	name := string(b)
	sym.Assume(name != "..")
	if k := sym.Choice("example", 5); k > 0 {
		name = []string{"100%", "%d %s%v.hprof", " \"of\" today's \t", "-heap,~\\$HOME.HPROF.gz"}[k-1]
	}
	p := "/n/" + name
	mos.Put(p, data)
	same(whole(p, command), want)
	mos.Process()
	same(whole(p, command), want)
	got, ok := mos.Get(p)
	sym.Assert(ok && sym.EqBytes(got, data), "the dump is as it was")
	sym.Assert(len(mos.Names("/n")) == 2, "one index")
}

// H_Damaged: a run that finds an index with a missing or cut file says so, unless it does not need
// what is missing, and never prints anything else than the report of the dump.
func H_Damaged() {
	data := content()
	command := sym.Choice("command", 3)
	want, _ := fresh(data, command)
	start(data)
	same(run(file, command), want)
	mos.Process()
	db := file + ".db/"
	names := mos.Names(db)
	sym.Assert(len(names) > 0, "an index")
	n := db + names[sym.Choice("file", len(names))]
	b, ok := mos.Get(n)
	sym.Assert(ok, "files of the index")
	switch sym.Choice("damage", 5) {
	case 0:
		l := int(sym.U16("length"))
		sym.Assume(l < len(b))
		if sym.Tier() == 0 {
			sym.Assume(sym.Or(l < 18, l > len(b)-18))
		}
		mos.Put(n, b[:sym.Pin(l)])
	case 1:
		mos.Drop(n)
	case 2:
		mos.Drop(n)
		mos.PutDir(n)
	case 3: // all of them
		for _, n := range names {
			mos.Drop(db + n)
		}
	case 4:
		for _, n := range names {
			mos.Drop(db + n)
		}
		mos.Drop(file + ".db")
		mos.Put(file+".db", []byte("x"))
	}
	r := run(file, command)
	sym.Assert(!r.killed, "runs to its end")
	if r.err == nil {
		sym.Assert(sym.EqStr(r.out, want.out), "success means the right output")
	}
}
