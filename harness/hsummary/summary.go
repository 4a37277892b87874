// Package hsummary has the harnesses about the summary of a dump.
package hsummary

import (
	"time"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/summary"
	"github.com/danielleontiev/neojhat/internal/zzverif/hw"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// sys is a dump with the classes the summary reads.
type sys struct {
	*hw.World
	node, table, system, helper, runtime, props, chm *hw.Class
	runtimeId, propsId, chmId                        uint64
}

func newSys(idSize int) *sys {
	s := &sys{World: hw.New(idSize)}
	object := s.Class("java/lang/Object", nil)
	s.StringClass()
	s.node = s.Class("java/util/concurrent/ConcurrentHashMap$Node", object,
		hw.Field{Name: "hash", Ty: 10}, hw.Field{Name: "key", Ty: 2}, hw.Field{Name: "val", Ty: 2}, hw.Field{Name: "next", Ty: 2})
	s.table = s.Class("[Ljava/util/concurrent/ConcurrentHashMap$Node;", object)
	s.chm = s.Class("java/util/concurrent/ConcurrentHashMap", object, hw.Field{Name: "size", Ty: 10}, hw.Field{Name: "table", Ty: 2})
	s.props = s.Class("java/util/Properties", object, hw.Field{Name: "defaults", Ty: 2}, hw.Field{Name: "map", Ty: 2})
	s.runtime = s.Class("sun/management/RuntimeImpl", object, hw.Field{Name: "jvm", Ty: 2}, hw.Field{Name: "vmStartupTime", Ty: 11})
	s.system = s.Class("java/lang/System", object)
	s.helper = s.Class("sun/management/ManagementFactoryHelper", object)
	return s
}

// fill adds the objects: buckets of node ids, and the start time of the JVM.
func (s *sys) fill(start uint64, buckets ...uint64) {
	tab := s.ObjArray(s.table.Id, buckets...)
	chm := s.Instance(s.chm, hw.Int(3), s.Ref(tab))
	pr := s.Instance(s.props, s.Ref(0), s.Ref(chm))
	rt := s.Instance(s.runtime, s.Ref(0), hw.Long(start))
	s.system.Statics = append(s.system.Statics, hw.Static{Name: "in", Val: s.Ref(0)}, hw.Static{Name: "props", Val: s.Ref(pr)})
	s.helper.Statics = append(s.helper.Statics, hw.Static{Name: "count", Val: hw.Int(5)}, hw.Static{Name: "runtimeMBean", Val: s.Ref(rt)})
}

// prop adds a node.
func (s *sys) prop(key, val []byte, next uint64) uint64 {
	k, v := s.String(key), s.String(val)
	return s.Instance(s.node, hw.Int(7), s.Ref(k), s.Ref(v), s.Ref(next))
}

const most = 1 << 31

// H_Heap: the heap section has the number of distinct classes, of all GC roots, of all objects
// and the sum of their sizes.
func H_Heap() {
	s := newSys(hx.IDSize())
	s.fill(0, 0)
	roots := 0
	kind := sym.Choice("most of", 6)
	for k := 0; k < 5; k++ {
		n := 1
		if k == kind {
			n = 2 + sym.Tier()
		}
		if kind == 5 {
			n = 0
		}
		for i := 0; i < n; i++ {
			roots++
			id := hx.ID("root", s.ID)
			switch k {
			case 0:
				s.Roots().JniGlobal(id, id)
			case 1:
				s.Roots().JniLocal(id, 1, 2)
			case 2:
				s.Roots().JavaFrame(id, 1, 2)
			case 3:
				s.Roots().Sticky(id)
			case 4:
				s.Roots().ThreadObj(id, uint32(i+1), 1)
			}
		}
	}
	a := s.Class("a", nil)
	a.Size = sym.U32("instance size")
	b := s.Class("b", nil)
	b.Size = sym.U32("instance size")
	sym.Assume(sym.And(a.Size < most, b.Size < most))
	classes := len(s.Classes)
	switch sym.Choice("reloaded", 3) {
	case 1:
		s.Top().LoadClass(100, a.Id, 1, a.NameId)
	case 2:
		s.Top().LoadClass(100, a.Id, 1, a.NameId)
		s.Top().LoadClass(101, s.Fresh(), 1, a.NameId)
		classes++
	}
	acc := s.Open()
	c := &acc.MetaStorage.Counters
	n := func(x string) int { return int(sym.U32(x)) }
	p1, p2, o1, o2, i1, i2 := n("count"), n("count"), n("count"), n("count"), n("count"), n("count")
	ep1, ep2, eo1, eo2 := n("elements"), n("elements"), n("elements"), n("elements")
	t1, t2 := core.Char, core.Long
	sz1, sz2 := 2, 8
	switch sym.Choice("types", 4) {
	case 1:
		t1, t2, sz1, sz2 = core.Boolean, core.Int, 1, 4
	case 2:
		t1, t2, sz1, sz2 = core.Byte, core.Float, 1, 4
	case 3:
		t1, t2, sz1, sz2 = core.Short, core.Double, 2, 8
	}
	c.PrimArraysCount = map[core.JavaType]int{t1: p1, t2: p2}
	c.PrimArrayElementsCount = map[core.JavaType]int{t1: ep1, t2: ep2}
	c.ObjArraysCount = map[core.Identifier]int{core.Identifier(s.table.Id): o1, 12: o2}
	c.ObjArrayElementsCount = map[core.Identifier]int{core.Identifier(s.table.Id): eo1, 12: eo2}
	c.InstancesCount = map[core.Identifier]int{core.Identifier(a.Id): i1, core.Identifier(b.Id): i2}
	if sym.Choice("unknown class", 2) == 1 {
		c.InstancesCount[13] = 1
		_, err := summary.GetSummary(acc, false)
		sym.Assert(err != nil, "instances of an unknown class are reported")
		return
	}
	got, err := summary.GetSummary(acc, false)
	sym.Assert(err == nil, "summary of a complete dump")
	sym.Assert(got.Heap.Classes == classes, "number of classes")
	sym.Assert(got.Heap.GcRoots == roots, "number of GC roots")
	sym.Assert(got.Heap.Instances == p1+p2+o1+o2+i1+i2, "number of objects")
	sym.Assert(got.Heap.HeapSize == ep1*sz1+ep2*sz2+(eo1+eo2)*s.ID+i1*int(int32(a.Size))+i2*int(int32(b.Size)), "size of the heap")
}

type kv struct{ k, v []byte }

// H_Properties: all system properties are listed, sorted, whatever buckets they are in.
func H_Properties() {
	s := newSys(hx.IDSize())
	n := sym.Choice("properties", 4)
	if n == 3 && sym.Tier() == 0 && s.ID == 4 {
		return
	}
	var ps []kv
	buckets := make([]uint64, 3)
	for i := 0; i < n; i++ {
		p := kv{sym.Bytes("key", 1+i%2), sym.Bytes("val", i%2)}
		for _, x := range append(append([]byte{}, p.k...), p.v...) {
			sym.Assume(x < 0x80)
		}
		for _, q := range ps {
			sym.Assume(!sym.EqBytes(p.k, q.k))
		}
		ps = append(ps, p)
		b := sym.Choice("bucket", min(i+1, 3))
		buckets[b] = s.prop(p.k, p.v, buckets[b])
	}
	s.fill(0, buckets...)
	acc := s.Open()
	all := sym.Choice("all", 2) == 1
	got, err := summary.GetSummary(acc, all)
	sym.Assert(err == nil, "summary of a complete dump")
	if !all {
		sym.Assert(got.Properties == nil, "properties only when asked for")
		return
	}
	for i := range ps {
		for j := i; j > 0 && string(ps[j].k) < string(ps[j-1].k); j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
	sym.Assert(len(got.Properties) == n, "every property once")
	for i, p := range ps {
		sym.Assert(sym.EqStr(got.Properties[i].Key, string(p.k)), "keys in order")
		sym.Assert(sym.EqStr(got.Properties[i].Val, string(p.v)), "value of the key")
	}
}

// H_PropertiesFail: properties that cannot be read completely are reported.
func H_PropertiesFail() {
	s := newSys(hx.IDSize())
	v := []byte("v")
	start := uint64(0)
	k1 := s.String([]byte("k1"))
	v1 := s.String(v)
	other := s.Instance(s.Classes[0])
	id := s.Fresh()
	next := uint64(0)
	key, val := k1, v1
	c := sym.Choice("case", 9)
	switch c {
	case 0: // a chain that bites its tail
		next = id
	case 1:
		next = hx.ID("dangling", s.ID)
		sym.Assume(next != 0)
		sym.Assume(next != id)
		for _, x := range s.Ids() {
			sym.Assume(next != x)
		}
	case 2:
		key = 0
	case 3:
		val = 0
	case 4:
		key = other
	case 5:
		val = other
	}
	s.InstanceAt(id, s.node, hw.Int(1), s.Ref(key), s.Ref(val), s.Ref(next))
	switch c {
	case 6:
		s.system.NoDump = true
	case 7:
		s.system.NoLoad = true
	case 8:
		s.helper.NoLoad = true
	}
	s.fill(start, 0, id)
	_, err := summary.GetSummary(s.Open(), sym.Choice("all", 2) == 1)
	sym.Assert(err != nil, "an incomplete dump is reported")
}

// otherKeys are the standard system properties that the report does not use.
var otherKeys = []string{
	"awt.toolkit", "file.encoding", "file.separator", "java.awt.graphicsenv", "java.awt.headless", "java.class.path", "java.class.version",
	"java.compiler", "java.endorsed.dirs", "java.ext.dirs", "java.io.tmpdir", "java.library.path", "java.runtime.name", "java.runtime.version",
	"java.specification.name", "java.specification.vendor", "java.specification.version", "java.vendor", "java.vendor.url",
	"java.vendor.url.bug", "java.vendor.version", "java.version.date", "java.vm.compressedOopsMode", "java.vm.specification.name",
	"java.vm.specification.vendor", "java.vm.specification.version", "jdk.debug", "line.separator", "native.encoding", "os.version",
	"path.separator", "sun.arch.data.model", "sun.boot.library.path", "sun.cpu.endian", "sun.io.unicode.encoding", "sun.java.command",
	"sun.java.launcher", "sun.jnu.encoding", "sun.management.compiler", "sun.os.patch.level", "stdout.encoding", "user.dir", "user.home",
	"user.language", "user.name", "user.timezone", "vm.name", "vm.vendor", "name", "vendor", "version", "arch", "home", "",
}

// H_Env: the environment shows the properties of these names, empty where there are none.
func H_Env() {
	s := newSys(hx.IDSize())
	keys := []string{"os.name", "os.arch", "java.home", "java.version", "java.vm.name", "java.vm.version", "java.vm.info", "java.vm.vendor"}
	miss := sym.Choice("missing", len(keys)+1)
	vals := make([]string, len(keys))
	buckets := []uint64{0, 0, 0}
	for i, k := range keys {
		if i == miss {
			continue
		}
		v := sym.Bytes("val", 1+i%2)
		for _, x := range v {
			sym.Assume(x < 0x80)
		}
		vals[i] = string(v)
		buckets[i%3] = s.prop([]byte(k), v, buckets[i%3])
	}
	// properties with other keys are no substitute, however similar
	switch other := sym.Choice("others", 3); {
	case other == 1:
		for i, k := range otherKeys {
			buckets[i%3] = s.prop([]byte(k), []byte("other "+k), buckets[i%3])
		}
	case other == 2 && miss < len(keys):
		k := []byte(keys[miss])
		at, c := sym.Choice("at", len(k)+1), sym.U8("c")
		sym.Assume(c < 0x80)
		if at < len(k) {
			sym.Assume(c != k[at])
			k[at] = c
		} else if sym.Choice("in front", 2) == 1 {
			k = append([]byte{c}, k...)
		} else {
			k = append(k, c)
		}
		buckets[0] = s.prop(k, []byte("similar"), buckets[0])
	}
	s.fill(0, buckets...)
	got, err := summary.GetSummary(s.Open(), sym.Choice("all", 2) == 1)
	sym.Assert(err == nil, "summary of a complete dump")
	e := got.Env
	sym.Assert(sym.EqStr(e.System, vals[0]), "operating system")
	sym.Assert(sym.EqStr(e.Architecture, vals[1]), "architecture")
	sym.Assert(sym.EqStr(e.JavaHome, vals[2]), "Java home")
	sym.Assert(sym.EqStr(e.JavaVersion, vals[3]), "Java version")
	sym.Assert(sym.EqStr(e.JavaName, vals[4]+" ("+vals[5]+", "+vals[6]+")"), "name of the JVM")
	sym.Assert(sym.EqStr(e.JavaVendor, vals[7]), "vendor of the JVM")
}

// H_Uptime: the uptime is the time between the start of the JVM and the dump.
func H_Uptime() {
	s := newSys(hx.IDSize())
	s.Hi, s.Lo = uint32(sym.U16("hi")&0x7fff), sym.U32("lo")
	start := uint64(sym.U16("start hi")&0x7fff)<<32 | uint64(sym.U32("start lo"))
	dump := uint64(s.Hi)<<32 | uint64(s.Lo)
	d := int64(dump - start)                   // negative if the clock of the machine was set back
	sym.Assume(sym.And(d < 1<<42, d > -1<<42)) // 139 years
	s.fill(start, 0)
	got, err := summary.GetSummary(s.Open(), false)
	sym.Assert(err == nil, "summary of a complete dump")
	sym.Assert(sym.EqStr(got.System.JvmUptime, (time.Duration(d)*time.Millisecond).String()), "uptime")
}

// H_Uptimes: uptimes at and around the units of time, of either sign.
func H_Uptimes() {
	units := []int64{0, 1, 1000, 60_000, 3_600_000, 86_400_000, 604_800_000, 31_536_000_000, 1 << 31, 1 << 32, 3_600_000_000}
	d := units[sym.Choice("unit", len(units))]*[]int64{1, 2, 59, 100}[sym.Choice("count", 4)] + int64(sym.Choice("delta", 3)-1)
	if sym.Choice("sign", 2) == 1 {
		d = -d
	}
	start := []int64{1_600_000_000_123, 1_700_000_000_000 - 1_000_000_000_000}[sym.Choice("start", 2)]
	dump := start + d
	if dump < 0 {
		start, dump = start-dump, 0
	}
	s := newSys(8)
	s.Hi, s.Lo = uint32(dump>>32), uint32(dump)
	s.fill(uint64(start), 0)
	got, err := summary.GetSummary(s.Open(), false)
	sym.Assert(err == nil, "summary of a complete dump")
	sym.Assert(got.System.JvmUptime == (time.Duration(d)*time.Millisecond).String(), "uptime")
}
