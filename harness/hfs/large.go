package hfs

import (
	"strconv"
	"strings"

	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/mos"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// large is a dump of more than 100 KB with many records of every kind.
func large() []byte {
	j := newContent()
	w := j.World
	for i := 0; i < 150; i++ {
		c := w.Class("p/C"+strconv.Itoa(i), nil, hw.Field{Name: "x", Ty: 11})
		c.Size = 8
		a := w.Class("[Lp/C"+strconv.Itoa(i)+";", nil)
		for k := 0; k < 1+i%3; k++ {
			o := w.Instance(c, hw.Long(uint64(i)))
			w.ObjArray(a.Id, o, 0, o)
			w.PrimArray(4+byte(i%8), 0, nil)
			w.Roots().Sticky(o)
			w.Roots().JniGlobal(o, o)
		}
		if i%10 == 0 {
			j.prop("key."+strconv.Itoa(i), "val"+strconv.Itoa(i))
		}
	}
	m := w.Utf8("method")
	var fs []uint64
	for i := 0; i < 200; i++ {
		f := w.Fresh()
		w.Top().Frame(f, m, w.Utf8("()V"), m, w.Classes[i%100].Serial, uint32(i))
		fs = append(fs, f)
	}
	for i := 0; i < 20; i++ {
		status := uint32(1)
		if i == 7 {
			status = sym.U32("status")
		}
		t := w.Instance(j.thread, hw.Int(status), hw.Long(uint64(100-i)), w.Ref(w.String([]byte("t"+strconv.Itoa(i)))), hw.Bool(0), hw.Int(5))
		w.Top().Trace(uint32(100+i), uint32(100+i), fs[i*9:i*10])
		w.Roots().ThreadObj(t, uint32(100+i), uint32(100+i))
		if i > 0 {
			w.Roots().JavaFrame(t, uint32(100+i), uint32(i-1))
			w.Roots().JniLocal(t, uint32(100+i), 0)
		}
	}
	// The arrays of primitives have more chunks than all other objects together, and every
	// one of the last is a local variable.
	for i := 0; i < 1200; i++ {
		a := w.PrimArray(4+byte(i%8), 0, nil)
		if i >= 1180 {
			w.Roots().JavaFrame(a, 101, uint32(i%9))
		}
	}
	w.PrimArray(8, 70000, make([]byte, 70000))
	w.PrimArray(10, 1, []byte{1, 2, 3, 4})
	return j.bytes()
}

// H_Large: the commands find in a large dump what there is in it, with a new index and with
// the one they find.
func H_Large() {
	data := large()
	command := sym.Choice("command", 3)
	want := report(data, command, true, true, false, false)
	dir := "/data/" + strings.Repeat("directory/", 20)
	path := dir + strings.Repeat("n", 200) + ".hprof"
	mos.Reset()
	mos.PutDir(dir)
	mos.Put(path, data)
	args := []string{commands[command], "-hprof", path, "-no-color", "-non-interactive"}
	if command > 0 {
		args = append(args, []string{"-all-props", "-local-vars"}[command-1])
	}
	for i := 0; i < 2; i++ {
		e := program(args...)
		sym.Assert(e.code == 0, "exit status")
		sym.Assert(sym.EqStr(e.out, want), "the report of the dump")
		mos.Process()
	}
}
