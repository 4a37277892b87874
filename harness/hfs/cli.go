package hfs

import (
	"strings"
	"syscall"

	"github.com/danielleontiev/neojhat/internal/cmd"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/output"
	"github.com/danielleontiev/neojhat/internal/summary"
	"github.com/danielleontiev/neojhat/internal/threads"
	"github.com/danielleontiev/neojhat/internal/zzverif/hdb"
	"github.com/danielleontiev/neojhat/internal/zzverif/mmain"
	"github.com/danielleontiev/neojhat/internal/zzverif/mos"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// ended is what a run of the program comes to.
type ended struct {
	out  string
	code int
}

// program runs the program with these arguments.
func program(args ...string) (e ended) {
	mos.Args = append([]string{"neojhat"}, args...)
	e.out = sym.CaptureStdout(func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case mos.Exited:
				e.code = x.Code
			default:
				panic(x)
			}
		}()
		mmain.Main()
	})
	return
}

// report is what the settings ask for, made from the dump without the commands.
func report(data []byte, command int, noColor, extra bool, size bool, html bool) string {
	acc := hdb.Open(data)
	by := objects.Count
	if size {
		by = objects.Size
	}
	var o objects.Objects
	var s summary.Summary
	var t threads.ThreadDump
	var err error
	switch command {
	case 0:
		o, err = objects.GetObjects(acc, by)
	case 1:
		s, err = summary.GetSummary(acc, extra)
	case 2:
		t, err = threads.GetThreadDump(acc)
	}
	sym.Assert(err == nil, "facts of a complete dump")
	var sb strings.Builder
	switch {
	case html && command == 0:
		err = output.ObjectsHtml(o, &sb)
	case html && command == 1:
		err = output.SummaryHtml(s, &sb)
	case html && command == 2:
		err = output.ThreadsHtml(t, extra, &sb)
	case noColor && command == 0:
		output.ObjectsPlain(o, &sb)
	case noColor && command == 1:
		output.SummaryPlain(s, &sb)
	case noColor && command == 2:
		output.ThreadsPlain(t, extra, &sb)
	default:
		return sym.CaptureStdout(func() {
			switch command {
			case 0:
				output.ObjectsPlainColor(o)
			case 1:
				output.SummaryPlainColor(s)
			case 2:
				output.ThreadsPlainColor(t, extra)
			}
		})
	}
	sym.Assert(err == nil, "an undisturbed report")
	return sb.String()
}

var commands = []string{"objects", "summary", "threads"}

// H_Options: the options select what their description says, in any order and spelling.
func H_Options() {
	data := content()
	start(data)
	command := sym.Choice("command", 3)
	args := []string{commands[command]}
	noColor, extra, size, html := sym.Choice("no-color", 2) == 1, false, false, false
	flags := [][]string{{"-hprof", file}, {"--hprof=" + file}}[sym.Choice("spelling", 2)]
	rest := []string{"-non-interactive"}
	if noColor {
		rest = append(rest, "--no-color")
	}
	switch command {
	case 0:
		v := sym.Choice("sort-by", 4)
		size = v == 2
		if v > 0 {
			rest = append(rest, "-sort-by", []string{"", "count", "size", ""}[v])
		}
	case 1, 2:
		extra = sym.Choice("extra", 2) == 1
		if extra {
			rest = append(rest, []string{"-all-props", "-local-vars=true"}[command-1])
		}
	}
	switch sym.Choice("output", 4) {
	case 1:
		rest = append(rest, "-output", "plain")
	case 2:
		rest = append(rest, "-output=html")
		html = true
	case 3:
		rest = append(rest, "-output=")
	}
	if sym.Choice("order", 2) == 0 {
		args = append(append(args, flags...), rest...)
	} else {
		args = append(append(args, rest...), flags...)
	}
	e := program(args...)
	sym.Assert(e.code == 0, "exit status")
	sym.Assert(sym.EqStr(e.out, report(data, command, noColor, extra, size, html)), "the report the options ask for")
}

// untouched checks that the program did nothing to the files.
func untouched(before mos.Snap) {
	sym.Assert(unchanged(before, mos.Take("/")), "nothing is written")
}

// has looks for a text.
func has(s, part string) bool {
	for i := 0; i+len(part) <= len(s); i++ {
		if s[i:i+len(part)] == part {
			return true
		}
	}
	return false
}

var options = [][]string{
	{"-hprof", "-no-color", "-non-interactive", "-sort-by", "-output"},
	{"-hprof", "-no-color", "-non-interactive", "-all-props", "-output"},
	{"-hprof", "-no-color", "-non-interactive", "-local-vars", "-output"},
}

// H_Help: without a command it knows, or without a dump, the program explains itself, naming
// every command and option that matters, and ends with status 0, having written nothing.
func H_Help() {
	start([]byte("x"))
	before := mos.Take("/")
	var e ended
	c := 0
	switch sym.Choice("how", 3) {
	case 0:
		e = program()
		c = -1
	case 1:
		name := sym.String("command", sym.Choice("length", 8+sym.Tier()))
		for i := range commands {
			sym.Assume(name != commands[i])
		}
		e = program(name)
		c = -1
	case 2:
		c = sym.Choice("which", 3)
		e = program([][]string{{commands[c]}, {commands[c], "-no-color"}, {commands[c], "-hprof", ""}, {commands[c], "-help"}, {commands[c], "-h"}}[sym.Choice("arguments", 5)]...)
	}
	sym.Assert(e.code == 0, "status 0")
	for i := range commands {
		if c >= 0 && i != c {
			continue
		}
		sym.Assert(has(e.out, commands[i]), "names the command")
		for _, o := range options[i] {
			sym.Assert(has(e.out, "  "+o), "names the option")
		}
	}
	untouched(before)
}

// plainText is text that is printed as it is between quotes.
func plainText(name string, n int) string {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume(sym.And(b[i] >= ' ', b[i] < 0x7f, b[i] != '"', b[i] != '\\'))
	}
	return string(b)
}

// H_Values: an option takes exactly the values of its description, empty for the default, keeps
// its value when it rejects one, and shows its value by its name.
func H_Values() {
	v := sym.String("value", sym.Choice("length", 8))
	if sym.Choice("option", 2) == 0 {
		o := []cmd.OutputType{cmd.Plain, cmd.Html}[sym.Choice("before", 2)]
		old := o
		err := o.Set(v)
		switch {
		case v == "html":
			sym.Assert(err == nil && o == cmd.Html, "html")
		case v == "plain" || v == "":
			sym.Assert(err == nil && o == cmd.Plain, "plain")
		default:
			sym.Assert(err != nil, "rejected")
			sym.Assert(o == old, "unchanged")
		}
		sym.Assert(o.String() == []string{"plain", "html"}[sym.SelInt(o == cmd.Html, 1, 0)], "its name")
		return
	}
	o := []objects.SortBy{objects.Count, objects.Size}[sym.Choice("before", 2)]
	old := o
	err := o.Set(v)
	switch {
	case v == "size":
		sym.Assert(err == nil && o == objects.Size, "size")
	case v == "count" || v == "":
		sym.Assert(err == nil && o == objects.Count, "count")
	default:
		sym.Assert(err != nil, "rejected")
		sym.Assert(o == old, "unchanged")
	}
	sym.Assert(o.String() == []string{"count", "size"}[sym.SelInt(o == objects.Size, 1, 0)], "its name")
}

// H_Rejected: options that do not exist, and values that an option does not have, are rejected
// with a message that names the option and a status other than 0.
func H_Rejected() {
	start([]byte("x"))
	before := mos.Take("/")
	c := sym.Choice("command", 3)
	args := []string{commands[c], "-hprof", file}
	bad := ""
	switch sym.Choice("what", 3) {
	case 0:
		bad = "-nonsense"
		args = append(args, bad)
	case 1:
		bad = "-output"
		v := plainText("value", 1+sym.Choice("length", 6+sym.Tier()))
		sym.Assume(v != "plain" && v != "html")
		args = append(args, bad, v)
	case 2:
		sym.Assume(c == 0)
		bad = "-sort-by"
		v := plainText("value", 1+sym.Choice("length", 6+sym.Tier()))
		sym.Assume(v != "count" && v != "size")
		args = append(args, bad, v)
	}
	e := program(args...)
	sym.Assert(e.code != 0, "a status other than 0")
	sym.Assert(has(e.out, bad), "names the option")
	untouched(before)
}

// H_Error: when the dump cannot be read or has an error the program says so and ends with a status
// other than 0.
func H_Error() {
	data := small()
	start(data)
	c := sym.Choice("command", 3)
	dir := []string{"/data", "/100%", "/%s %d%v"}[sym.Choice("directory", 3)]
	mos.PutDir(dir)
	path := dir + "/" + plainText("name", 1) + "%x"
	switch sym.Choice("what", 3) {
	case 1:
		mos.Put(path, data[:sym.Choice("length", len(data))])
	case 2:
		path = dir
	}
	err := cmd.ParseHprof(path, true)
	sym.Assert(err != nil, "an error")
	e := program(commands[c], "-non-interactive", "-hprof", path)
	sym.Assert(has(e.out, err.Error()), "says what is wrong")
	sym.Assert(e.code != 0, "a status other than 0")
	sym.Assert(has(e.out, "Error occurred: "), "says so")
}

// H_ReportError: when the report cannot be made from the index the program says so and ends with a
// status other than 0.
func H_ReportError() {
	data := content()
	c := sym.Choice("command", 3)
	want, _ := fresh(data, c)
	db := file + ".db/"
	names := mos.Names(db)
	n := db + names[sym.Choice("file", len(names))]
	mos.Drop(n)
	mos.Process()
	r := run(file, c)
	mos.Drop(n)
	mos.Process()
	e := program(commands[c], "-non-interactive", "-no-color", "-hprof", file)
	if r.err == nil {
		sym.Assert(e.code == 0, "status 0")
		sym.Assert(sym.EqStr(e.out, want.out), "the report")
		return
	}
	sym.Assert(has(e.out, "Error occurred: "), "says so")
	sym.Assert(has(e.out, r.err.Error()), "says what is wrong")
	sym.Assert(e.code != 0, "a status other than 0")
}

// H_Unwritten: a report that the standard output does not take whole is an error, in every format.
func H_Unwritten() {
	data := content()
	c := sym.Choice("command", 3)
	args := []string{commands[c], "-non-interactive", "-hprof", file}
	switch sym.Choice("format", 3) {
	case 1:
		args = append(args, "-no-color")
	case 2:
		args = append(args, "-output", "html")
	}
	start(data)
	want := program(args...)
	sym.Assert(want.code == 0, "status 0")
	mos.Process()
	mos.Half = sym.Choice("half", 2) == 1
	mos.Once = sym.Choice("once", 2) == 1
	if sym.Choice("pipe", 2) == 1 {
		mos.NoRoom = syscall.EPIPE
	}
	mos.Room = int(sym.U16("room"))
	e := program(args...)
	if mos.Refused {
		sym.Assert(sym.Or(e.code != 0, sym.EqStr(e.out, want.out)), "a report that is not written whole gives a status other than 0")
		return
	}
	sym.Assert(e.code == 0 && sym.EqStr(e.out, want.out), "the report")
}
