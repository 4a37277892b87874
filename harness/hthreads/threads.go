// Package hthreads has the harnesses about the threads of a dump.
package hthreads

import (
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/threads"
	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// jvm is a dump with the thread classes.
type jvm struct {
	*hw.World
	thread, sub *hw.Class
}

var threadFields = []hw.Field{{Name: "threadStatus", Ty: 10}, {Name: "tid", Ty: 11}, {Name: "name", Ty: 2}, {Name: "daemon", Ty: 4}, {Name: "priority", Ty: 10}}

func newJvm(idSize int, fields ...hw.Field) *jvm {
	j := &jvm{World: hw.New(idSize)}
	object := j.Class("java/lang/Object", nil)
	j.StringClass()
	j.thread = j.Class("java/lang/Thread", object, fields...)
	j.sub = j.Class("x/Own", j.thread, hw.Field{Name: "own", Ty: 9})
	return j
}

// mk adds a thread object.
func (j *jvm) mk(own bool, status uint32, tid uint64, name uint64, daemon byte, prio uint32) uint64 {
	vals := []hx.Val{hw.Int(status), hw.Long(tid), j.Ref(name), hw.Bool(daemon), hw.Int(prio)}
	if own {
		return j.Instance(j.sub, append([]hx.Val{{Ty: 9, Raw: []byte{1, 2}}}, vals...)...)
	}
	return j.Instance(j.thread, vals...)
}

func ascii(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for i := range b {
		sym.Assume(b[i] < 0x80)
	}
	return b
}

// H_Fields: a thread is shown with the name, id, priority, status and daemon flag of its object.
func H_Fields() {
	j := newJvm(hx.IDSize(), threadFields...)
	n := 1 + sym.Choice("threads", 2+sym.Tier())
	var want []threads.StackTrace
	var ids []uint64
	for i := 0; i < n; i++ {
		nm := ascii("name", i%3)
		st, tid, prio, dm := sym.U32("status"), sym.U64("tid"), sym.U32("priority"), sym.U8("daemon")
		sym.Assume(dm <= 1)
		ids = append(ids, j.mk(sym.Choice("own class", 2) == 1, st, tid, j.String(nm), dm, prio))
		want = append(want, threads.StackTrace{ThreadName: string(nm), ThreadId: int(tid), ThreadDaemon: dm == 1,
			ThreadPriority: int(int32(prio)), ThreadStatus: threads.ThreadStatus(int32(st))})
	}
	serials := make([]uint32, n)
	rev := sym.Choice("reversed", 2) == 1
	for i := range serials {
		serials[i] = sym.U32("thread serial")
		for k := 0; k < i; k++ {
			sym.Assume(serials[i] != serials[k])
		}
	}
	for i := range serials {
		k := i
		if rev {
			k = n - 1 - i
		}
		j.Top().Trace(uint32(k+7), serials[k], nil)
	}
	for i, id := range ids {
		j.Roots().ThreadObj(id, serials[i], uint32(i+7))
	}
	got, err := threads.GetThreadDump(j.Open())
	sym.Assert(err == nil, "threads of a complete dump")
	sym.Assert(len(got.StackTraces) == n, "every thread once")
	for i, w := range want {
		g := got.StackTraces[i]
		sym.Assert(sym.EqStr(g.ThreadName, w.ThreadName), "name")
		sym.Assert(g.ThreadId == w.ThreadId, "id")
		sym.Assert(g.ThreadDaemon == w.ThreadDaemon, "daemon")
		sym.Assert(g.ThreadPriority == w.ThreadPriority, "priority")
		sym.Assert(g.ThreadStatus == w.ThreadStatus, "status")
		sym.Assert(len(g.Frames) == 0 && g.NumberOfFrames == 0, "no frames")
	}
}

// H_Frames: the frames of a thread are those of its own trace, in order, each with its method,
// signature, class, file and line; names the dump lacks are unknown, missing records an error.
func H_Frames() {
	j := newJvm(hx.IDSize(), threadFields...)
	name := j.String([]byte("n"))
	t1 := j.mk(false, 1, 1, name, 0, 5)
	t2 := j.mk(false, 1, 2, name, 0, 5)
	nn := 3
	nameIds := make([]uint64, nn)
	texts := make([]string, nn)
	for i := range nameIds {
		texts[i] = string(ascii("text", 1+i%2))
		nameIds[i] = j.Utf8(texts[i])
	}
	ca, cb := j.Class("A", nil), j.Class("B", nil)
	ca.NameId = nameIds[0]
	cb.NameId = nameIds[1]
	type frame struct {
		id, method, sig, file uint64
		class, line           uint32
	}
	anyName := func(what string) uint64 { return hx.ID(what, j.ID) }
	sys := func(id uint64) { // not the name of something else
		for _, x := range j.Ids() {
			own := false
			for _, n := range nameIds {
				own = own || n == x
			}
			if !own {
				sym.Assume(id != x)
			}
		}
	}
	look := func(id uint64) string {
		for i, n := range nameIds {
			if id == n {
				return texts[i]
			}
		}
		return threads.UnknownString
	}
	var frames []frame
	f1 := frame{j.Fresh(), nameIds[0], nameIds[1], nameIds[2], cb.Serial, sym.U32("line")}
	switch sym.Choice("symbolic", 5) {
	case 4:
		cb.NameId = hx.ID("class name", j.ID)
		sys(cb.NameId)
	case 0:
		f1.method = anyName("method")
		sys(f1.method)
	case 1:
		f1.sig = anyName("signature")
		sys(f1.sig)
	case 2:
		f1.file = anyName("file")
		sys(f1.file)
	case 3:
		f1.class = sym.U32("class serial")
		sym.Assume(sym.Or(f1.class == ca.Serial, f1.class == cb.Serial, f1.class > 100))
	}
	f2 := frame{j.Fresh(), nameIds[2], nameIds[0], nameIds[1], ca.Serial, 42}
	frames = append(frames, f1, f2)
	for _, f := range frames {
		j.Top().Frame(f.id, f.method, f.sig, f.file, f.class, f.line)
	}
	n1, n2 := sym.Choice("frames", 3+sym.Tier()), sym.Choice("frames", 2)
	r1, r2 := make([]uint64, n1), make([]uint64, n2)
	for i := range r1 {
		r1[i] = hx.ID("frame", j.ID)
	}
	for i := range r2 {
		r2[i] = f2.id
	}
	s1, s2 := sym.U32("thread serial"), sym.U32("thread serial")
	sym.Assume(s1 != s2)
	j.Top().Trace(5, s1, r1)
	if sym.Choice("trace", 2) == 1 {
		j.Top().Trace(6, s2, r2)
	} else {
		r2 = nil
	}
	q := sym.U32("asked serial")
	j.Roots().ThreadObj(t1, q, 5)
	j.Roots().ThreadObj(t2, s1, 6)
	got, err := threads.GetThreadDump(j.Open())
	// what must have come out
	var bad bool
	expect := func(s uint32) []threads.StackFrame {
		refs := r2
		switch {
		case s == s1:
			refs = r1
		case s == s2 && r2 != nil:
		default:
			bad = true
			return nil
		}
		var r []threads.StackFrame
		for _, id := range refs {
			var f frame
			switch id {
			case f1.id:
				f = f1
			case f2.id:
				f = f2
			default:
				bad = true
				return nil
			}
			var c string
			switch f.class {
			case ca.Serial:
				c = texts[0]
			case cb.Serial:
				c = look(cb.NameId)
			default:
				bad = true
				return nil
			}
			r = append(r, threads.StackFrame{MethodName: look(f.method), MethodSignature: look(f.sig), FileName: look(f.file),
				ClassName: c, LineNumber: core.LineNumber(f.line).String()})
		}
		return r
	}
	w := [][]threads.StackFrame{expect(q), expect(s1)}
	if bad {
		sym.Assert(err != nil, "missing traces, frames and classes are reported")
		return
	}
	sym.Assert(err == nil, "threads of a complete dump")
	sym.Assert(len(got.StackTraces) == 2, "every thread once")
	for i, fr := range w {
		g := got.StackTraces[i]
		sym.Assert(g.ThreadId == i+1, "threads in the order of the dump")
		sym.Assert(g.NumberOfFrames == uint32(len(fr)), "number of frames")
		sym.Assert(len(g.Frames) == len(fr), "every frame once")
		for k, x := range fr {
			y := g.Frames[k]
			sym.Assert(sym.EqStr(x.MethodName, y.MethodName), "method")
			sym.Assert(sym.EqStr(x.MethodSignature, y.MethodSignature), "signature")
			sym.Assert(sym.EqStr(x.FileName, y.FileName), "file")
			sym.Assert(sym.EqStr(x.ClassName, y.ClassName), "class")
			sym.Assert(sym.EqStr(x.LineNumber, y.LineNumber), "line")
			sym.Assert(len(y.LocalFrames) == 0, "no locals")
		}
	}
}

// H_Locals: a local variable is shown at the frame of the thread that holds it, with the type of
// the object, and nowhere else.
func H_Locals() {
	j := newJvm(hx.IDSize(), threadFields...)
	name := j.String([]byte("n"))
	t1 := j.mk(false, 1, 1, name, 0, 5)
	t2 := j.mk(false, 1, 2, name, 0, 5)
	a := j.Class(string(ascii("class", 1)), nil)
	b := j.Class("["+string(ascii("class", 1)), nil)
	noLoad := sym.Choice("class not loaded", 3)
	a.NoLoad = noLoad == 1
	b.NoLoad = noLoad == 2
	aName, bName := j.Utf8("An"), j.Utf8("[Bn")
	a.NameId, b.NameId = aName, bName
	inst := j.Instance(a)
	arr := j.ObjArray(b.Id)
	tys := []byte{4, 5, 6, 7, 8, 9, 10, 11}
	ti := sym.Choice("type", len(tys))
	prim := j.PrimArray(tys[ti], 0, nil)
	f1, f2 := j.Fresh(), j.Fresh()
	m := j.Utf8("m")
	j.Top().Frame(f1, m, m, m, a.Serial, 1)
	j.Top().Frame(f2, m, m, m, a.Serial, 2)
	if a.NoLoad {
		c := j.Class("C", nil)
		j.Top().Frame(f1, m, m, m, c.Serial, 1)
		j.Top().Frame(f2, m, m, m, c.Serial, 2)
	}
	s1, s2 := uint32(3), uint32(4)
	j.Top().Trace(5, s1, []uint64{f1, f2})
	j.Top().Trace(6, s2, []uint64{f2})
	j.Roots().ThreadObj(t1, s1, 5)
	j.Roots().ThreadObj(t2, s2, 6)
	type local struct {
		jni           bool
		obj           uint64
		thread, frame uint32
	}
	n := sym.Choice("locals", 3+sym.Tier())
	if n > 1 && (ti > 0 || noLoad > 0) {
		return
	}
	var ls []local
	for i := 0; i < n; i++ {
		l := local{jni: sym.Choice("kind", 2) == 1, obj: hx.ID("local", j.ID), thread: sym.U32("thread"), frame: sym.U32("frame")}
		if n > 1 {
			sym.Assume(sym.Or(l.obj == inst, l.obj == a.Id, l.obj == arr))
		}
		for _, x := range j.Ids() { // the others are no locals
			if x != inst && x != arr && x != prim && x != a.Id && x != b.Id {
				sym.Assume(l.obj != x)
			}
		}
		ls = append(ls, l)
		if l.jni {
			j.Roots().JniLocal(l.obj, l.thread, l.frame)
		} else {
			j.Roots().JavaFrame(l.obj, l.thread, l.frame)
		}
	}
	got, err := threads.GetThreadDump(j.Open())
	bad := false
	sig := func(id uint64) string {
		switch id {
		case inst:
			bad = bad || a.NoLoad
			return "An"
		case arr:
			bad = bad || b.NoLoad
			return "[Bn"
		case prim:
			return "[" + "ZCFDBSIJ"[ti:ti+1]
		case a.Id:
			bad = bad || a.NoLoad
			return "class An"
		case b.Id:
			bad = bad || b.NoLoad
			return "class [Bn"
		}
		bad = true
		return ""
	}
	at := map[[2]int][]threads.LocalFrame{}
	for _, jni := range []bool{true, false} {
		for _, l := range ls {
			if l.jni != jni {
				continue
			}
			ty := threads.FrameType(threads.Frame)
			if jni {
				ty = threads.JniLocal
			}
			x := threads.LocalFrame{ObjectId: int(l.obj), ObjectTypeSignature: sig(l.obj), Type: ty}
			for _, p := range [][2]int{{0, 0}, {0, 1}, {1, 0}} {
				if l.thread == []uint32{s1, s2}[p[0]] && l.frame == uint32(p[1]) {
					at[p] = append(at[p], x)
				}
			}
		}
	}
	if bad {
		sym.Assert(err != nil, "locals of an unknown class are reported")
		return
	}
	sym.Assert(err == nil, "threads of a complete dump")
	sym.Assert(len(got.StackTraces) == 2 && len(got.StackTraces[0].Frames) == 2 && len(got.StackTraces[1].Frames) == 1, "every frame once")
	for _, p := range [][2]int{{0, 0}, {0, 1}, {1, 0}} {
		g := got.StackTraces[p[0]].Frames[p[1]].LocalFrames
		w := at[p]
		sym.Assert(len(g) == len(w), "every local once at its frame")
		for i := range w {
			sym.Assert(g[i].ObjectId == w[i].ObjectId, "object of the local")
			sym.Assert(g[i].Type == w[i].Type, "kind of the local")
			sym.Assert(sym.EqStr(g[i].ObjectTypeSignature, w[i].ObjectTypeSignature), "type of the local")
		}
	}
}

// H_Incomplete: threads that cannot be read completely are reported.
func H_Incomplete() {
	fields := append([]hw.Field{}, threadFields...)
	c := sym.Choice("case", 16)
	vals := func(j *jvm, name uint64) []hx.Val {
		return []hx.Val{hw.Int(1), hw.Long(2), j.Ref(name), hw.Bool(0), hw.Int(5)}
	}
	switch {
	case c < 5: // the field is not there
		fields[c].Name = "other"
	case c < 10: // of a wrong type
		fields[c-5].Ty = []byte{4, 10, 10, 8, 9}[c-5]
	}
	j := newJvm(hx.IDSize(), fields...)
	name := j.String([]byte("n"))
	v := vals(j, name)
	switch {
	case c >= 5 && c < 10:
		v[c-5] = hx.AnyVal("value", fields[c-5].Ty, j.ID)
	case c == 10:
		v = v[:4]
	case c == 11:
		v = vals(j, 0)
	case c == 12:
		j.thread.NoDump = true
	case c == 13:
		j.thread.NoLoad = true
	}
	id := j.Instance(j.thread, v...)
	if c == 14 {
		x := hx.ID("dangling", j.ID)
		for _, y := range j.Ids() {
			sym.Assume(x != y)
		}
		id = x
	}
	if c != 15 {
		j.Top().Trace(1, 1, nil)
	}
	j.Roots().ThreadObj(id, 1, 1)
	_, err := threads.GetThreadDump(j.Open())
	sym.Assert(err != nil, "an incomplete thread is reported")
}
