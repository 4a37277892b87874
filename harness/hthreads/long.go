package hthreads

import (
	"strconv"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/threads"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// H_Many: many threads, one with a deep stack and many locals, and long names.
func H_Many() {
	j := newJvm(hx.IDSize(), threadFields...)
	size := [][2]int{{13, 140}, {40, 300}, {13, 1100}, {300, 140}, {150, 2000}, {1100, 5000}}[sym.Choice("threads and depth", 4+2*sym.Tier())]
	n, depth := size[0], size[1]
	deep := []int{0, n / 2, n - 1}[sym.Choice("deep", 3)]
	long := string(hx.Pattern("name", 300))
	m := j.Utf8("m")
	var classes []uint32
	for i := 0; i < 20; i++ {
		classes = append(classes, j.Class("C"+strconv.Itoa(i), nil).Serial)
	}
	lm := j.Utf8(long)
	obj := j.Class("L", nil)
	arr := j.Class("["+long, nil)
	var ids []uint64
	name := j.String([]byte("n"))
	for i := 0; i < n; i++ {
		nm := name
		if i == deep {
			nm = j.String([]byte(long))
		}
		ids = append(ids, j.mk(i%2 == 1, uint32(i), uint64(i)<<33, nm, byte(i%2), uint32(i%10)))
	}
	a, b, p := j.Instance(obj), j.ObjArray(arr.Id), j.PrimArray(10, 0, nil)
	var fids []uint64
	for i := 0; i < depth; i++ {
		fid := j.Fresh()
		fids = append(fids, fid)
		at := m
		if i == depth/2 {
			at = lm
		}
		j.Top().Frame(fid, at, m, m, classes[i%20], uint32(i+1))
	}
	line := sym.U32("line")
	last := j.Fresh()
	j.Top().Frame(last, m, lm, lm, classes[19], line)
	fids = append(fids, last)
	// the traces in another order than the threads
	for i := n - 1; i >= 0; i-- {
		fs := fids[i%7 : i%7+i%3]
		if i == deep {
			fs = fids
		}
		j.Top().Trace(uint32(1000+i), uint32(i+1), fs)
	}
	for i, id := range ids {
		j.Roots().ThreadObj(id, uint32(i+1), uint32(1000+i))
	}
	type local struct {
		jni   bool
		obj   uint64
		frame int
	}
	var ls []local
	objs := []uint64{a, b, p, obj.Id, arr.Id}
	for i, f := range []int{0, 1, 126, 127, 128, 129, depth - 1, depth, 0, 127, 128, depth} {
		ls = append(ls, local{i%2 == 0, objs[i%5], f})
	}
	for i := 0; i < 140; i++ {
		ls = append(ls, local{i%3 == 0, objs[i%5], 130})
	}
	odd := sym.U8("object")
	for i, l := range ls {
		if i == 20 {
			ls[i].obj = sym.SelU64(odd == 0, a, b)
			l = ls[i]
		}
		if l.jni {
			j.Roots().JniLocal(l.obj, uint32(deep+1), uint32(l.frame))
		} else {
			j.Roots().JavaFrame(l.obj, uint32(deep+1), uint32(l.frame))
		}
	}
	got, err := threads.GetThreadDump(j.Open())
	sym.Assert(err == nil, "threads of a complete dump")
	sym.Assert(len(got.StackTraces) == n, "every thread once")
	sigs := map[uint64]string{a: "L", b: "[" + long, p: "[I", obj.Id: "class L", arr.Id: "class [" + long}
	for i, t := range got.StackTraces {
		w := threads.StackTrace{ThreadName: "n", ThreadId: i << 33, ThreadDaemon: i%2 == 1, ThreadPriority: i % 10, ThreadStatus: threads.ThreadStatus(i)}
		first, cnt := i%7, i%3
		if i == deep {
			w.ThreadName = long
			first, cnt = 0, depth+1
		}
		sym.Assert(sym.EqStr(t.ThreadName, w.ThreadName), "name")
		sym.Assert(t.ThreadId == w.ThreadId && t.ThreadDaemon == w.ThreadDaemon && t.ThreadPriority == w.ThreadPriority && t.ThreadStatus == w.ThreadStatus, "facts of the thread")
		sym.Assert(len(t.Frames) == cnt && int(t.NumberOfFrames) == cnt, "every frame once")
		for k, g := range t.Frames {
			f := first + k
			x := threads.StackFrame{MethodName: "m", MethodSignature: "m", FileName: "m", ClassName: "C" + strconv.Itoa(f%20), LineNumber: strconv.Itoa(f + 1)}
			switch f {
			case depth / 2:
				x.MethodName = long
			case depth:
				x.MethodSignature, x.FileName, x.ClassName = long, long, "C19"
				x.LineNumber = core.LineNumber(line).String()
			}
			sym.Assert(sym.EqStr(x.MethodName, g.MethodName), "method")
			sym.Assert(sym.EqStr(x.MethodSignature, g.MethodSignature), "signature")
			sym.Assert(sym.EqStr(x.FileName, g.FileName), "file")
			sym.Assert(sym.EqStr(x.ClassName, g.ClassName), "class")
			sym.Assert(sym.EqStr(x.LineNumber, g.LineNumber), "line")
			var lw []threads.LocalFrame
			for _, jni := range []bool{true, false} {
				for _, l := range ls {
					if i == deep && l.frame == f && l.jni == jni {
						y := threads.LocalFrame{ObjectId: int(l.obj), Type: threads.Frame}
						if jni {
							y.Type = threads.JniLocal
						}
						y.ObjectTypeSignature = sigs[l.obj]
						lw = append(lw, y)
					}
				}
			}
			sym.Assert(len(lw) == len(g.LocalFrames), "every local once at its frame")
			for q, y := range lw {
				z := g.LocalFrames[q]
				sym.Assert(z.ObjectId == y.ObjectId && z.Type == y.Type, "object of the local")
				sym.Assert(sym.EqStr(z.ObjectTypeSignature, y.ObjectTypeSignature), "type of the local")
			}
		}
	}
}

// H_Crowd: very many threads.
func H_Crowd() {
	j := newJvm(hx.IDSize(), threadFields...)
	n := []int{3000, 20000}[sym.Tier()]
	m := j.Utf8("m")
	c := j.Class("C", nil).Serial
	fid := j.Fresh()
	j.Top().Frame(fid, m, m, m, c, 1)
	var names, ids []uint64
	for i := 0; i < 3; i++ {
		names = append(names, j.String([]byte{byte('0' + i)}))
	}
	odd := sym.U32("priority")
	for i := 0; i < n; i++ {
		prio := uint32(i % 10)
		if i == n-3 {
			prio = odd
		}
		ids = append(ids, j.mk(i%2 == 1, uint32(i), uint64(i)<<33, names[i%3], byte(i%2), prio))
		j.Top().Trace(uint32(7+i), uint32(i+1), []uint64{fid})
	}
	for i, id := range ids {
		j.Roots().ThreadObj(id, uint32(i+1), uint32(7+i))
	}
	got, err := threads.GetThreadDump(j.Open())
	sym.Assert(err == nil, "threads of a complete dump")
	sym.Assert(len(got.StackTraces) == n, "every thread once")
	for i, t := range got.StackTraces {
		prio := i % 10
		if i == n-3 {
			prio = int(int32(odd))
		}
		sym.Assert(t.ThreadName == strconv.Itoa(i%3) && t.ThreadId == i<<33 && t.ThreadDaemon == (i%2 == 1) && t.ThreadStatus == threads.ThreadStatus(i), "facts of the thread")
		sym.Assert(t.ThreadPriority == prio, "priority")
		sym.Assert(len(t.Frames) == 1 && t.Frames[0].ClassName == "C", "frames of the thread")
	}
}
