package hsummary

import (
	"strconv"

	"github.com/danielleontiev/neojhat/internal/summary"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// What keys of properties begin with.
var prefixes = []string{"", "java.", "java.vm.", "java.runtime.", "java.internal.", "jdk.", "jdk.internal.", "jdk.module.", "sun.", "sun.java.", "com.sun.", "os.", "user.",
	"file.", "env.", "awt.", "http.", "native.", "_", "__", " ", "#", "!", ".", "-D", "-XX:", "=", ":", "JAVA_", "internal.", "hidden.", "secret.", "password."}

// H_ManyProperties: large tables with long chains and long texts.
func H_ManyProperties() {
	s := newSys(hx.IDSize())
	n := 40
	size := 70000
	if c := sym.Choice("buckets", 4); c < 3 {
		n = []int{40, 70, 500, 3000}[sym.Choice("properties", 3+sym.Tier())]
		size = []int{1, 16, 128}[c]
	}
	buckets := make([]uint64, size)
	vals := map[string]string{}
	var keys []string
	for i := 0; i < n; i++ {
		k, v := prefixes[i*7%len(prefixes)]+"key."+strconv.Itoa(i), []byte("v"+strconv.Itoa(i))
		switch i {
		case 3:
			k += string(hx.Pattern("long", 300)[1:299])
		case n / 2, n - 1:
			v = hx.Pattern("value", 300)
		}
		keys = append(keys, k)
		vals[k] = string(v)
		b := i * 5 % size
		if size > 1000 {
			b = i * (size - 1) / (n - 1)
		}
		buckets[b] = s.prop([]byte(k), v, buckets[b])
	}
	s.fill(0, buckets...)
	got, err := summary.GetSummary(s.Open(), true)
	sym.Assert(err == nil, "summary of a complete dump")
	for i := range keys {
		for j := i; j > 0 && keys[j] < keys[j-1]; j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	sym.Assert(len(got.Properties) == n, "every property once")
	for i, k := range keys {
		sym.Assert(sym.EqStr(got.Properties[i].Key, k), "keys in order")
		sym.Assert(sym.EqStr(got.Properties[i].Val, vals[k]), "value of the key")
	}
}

// H_ManyRoots: a dump with many roots of every kind.
func H_ManyRoots() {
	s := newSys(hx.IDSize())
	s.fill(0, 0)
	n := []int{150, 300, 3000, 20000}[sym.Choice("roots", 3+sym.Tier())]
	most := sym.Choice("most of", 5)
	roots := 0
	for k := 0; k < 5; k++ {
		m := 3
		if k == most {
			m = n
		}
		for i := 0; i < m; i++ {
			roots++
			id := uint64(i%10*8 + 8) // an object may be referred to by many roots
			switch k {
			case 0:
				s.Roots().JniGlobal(id, id)
			case 1:
				s.Roots().JniLocal(id, 1, uint32(i))
			case 2:
				s.Roots().JavaFrame(id, 1, uint32(i))
			case 3:
				s.Roots().Sticky(id)
			case 4:
				s.Roots().ThreadObj(id, uint32(i+1), 1)
			}
		}
	}
	for i := 0; i < n; i++ {
		s.Class("c"+strconv.Itoa(i), nil)
	}
	a := s.Class("a", nil)
	a.Size = sym.U32("instance size")
	sym.Assume(a.Size < 1<<31)
	for i := 0; i < n; i++ {
		s.Instance(a)
	}
	got, err := summary.GetSummary(s.Open(), false)
	sym.Assert(err == nil, "summary of a complete dump")
	sym.Assert(got.Heap.Classes == len(s.Classes), "number of classes")
	sym.Assert(got.Heap.GcRoots == roots, "number of GC roots")
	sym.Assert(got.Heap.Instances == n+4, "number of objects")
	sym.Assert(got.Heap.HeapSize == s.ID+n*int(a.Size), "size of the heap")
}

// H_VeryLongProperties: properties with very long keys and values.
func H_VeryLongProperties() {
	s := newSys(hx.IDSize())
	n := []int{700, 9000, 70000}[sym.Choice("text", 2+sym.Tier())]
	k, v := []byte("b.c"), []byte("w")
	if sym.Choice("key", 2) == 1 {
		k = append([]byte("b"), hx.Pattern("key", n)...)
	} else {
		v = hx.Pattern("value", n)
	}
	s.fill(0, s.prop([]byte("c"), []byte("x"), s.prop(k, v, s.prop([]byte("a"), []byte("y"), 0))))
	got, err := summary.GetSummary(s.Open(), true)
	sym.Assert(err == nil, "summary of a complete dump")
	sym.Assert(len(got.Properties) == 3, "every property once")
	for i, p := range []kv{{[]byte("a"), []byte("y")}, {k, v}, {[]byte("c"), []byte("x")}} {
		sym.Assert(sym.EqStr(got.Properties[i].Key, string(p.k)), "keys in order")
		sym.Assert(sym.EqStr(got.Properties[i].Val, string(p.v)), "value of the key")
	}
}
