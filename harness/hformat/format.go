// Package hformat has the harnesses about the texts of sizes, names and signatures.
package hformat

import (
	"strconv"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/format"
	"github.com/danielleontiev/neojhat/internal/threads"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// nameBytes is a class name of n bytes: valid UTF-8, without the characters the class file
// format forbids in names.
func nameBytes(n int) []byte {
	b := sym.Bytes("name", n)
	for i := 0; i < n; i++ {
		if i+1 < n && b[i] >= 0x80 {
			sym.Assume(sym.And(b[i] >= 0xc3, b[i] <= 0xdf, b[i+1] >= 0x80, b[i+1] <= 0xbf))
			i++
			continue
		}
		sym.Assume(sym.And(b[i] > 0, b[i] < 0x80, b[i] != ';', b[i] != '[', b[i] != '.'))
	}
	return b
}

// dotted is the source form of a class name.
func dotted(b []byte) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(sym.SelInt(x == '/', '.', int(x)))
	}
	return r
}

var prims = []struct {
	code byte
	name string
}{{'B', "byte"}, {'C', "char"}, {'D', "double"}, {'F', "float"}, {'I', "int"}, {'J', "long"}, {'S', "short"}, {'Z', "boolean"}}

// desc appends a field descriptor and its source form.
func desc(d, want []byte, full bool, name int) ([]byte, []byte) {
	dims := sym.Choice("dims", 2+sym.Tier())
	if full {
		dims = sym.Choice("more dims", 4)
	}
	for i := 0; i < dims; i++ {
		d = append(d, '[')
	}
	k := 9
	if !full {
		k = 3
	}
	switch k := sym.Choice("base", k); {
	case k == 0:
		n := nameBytes(name)
		d = append(d, 'L')
		d = append(d, n...)
		d = append(d, ';')
		want = append(want, dotted(n)...)
	default:
		p := prims[k-1]
		d = append(d, p.code)
		want = append(want, p.name...)
	}
	for i := 0; i < dims; i++ {
		want = append(want, "[]"...)
	}
	return d, want
}

// H_Signature: a method descriptor is rendered as its argument and return types.
func H_Signature() {
	d := []byte{'('}
	var want []byte
	n := sym.Choice("args", 3+sym.Tier())
	for i := 0; i < n; i++ {
		if i > 0 {
			want = append(want, ", "...)
		}
		name := 1
		if n == 1 {
			name = 3 + sym.Tier()
		}
		d, want = desc(d, want, n == 1, name)
	}
	d = append(d, ')')
	var ret []byte
	if sym.Choice("void", 2) == 0 {
		d = append(d, 'V')
		ret = append(ret, "void"...)
	} else {
		d, ret = desc(d, ret, n == 0, 1)
	}
	a, r := format.Signature(string(d))
	sym.Assert(sym.EqStr(a, string(want)), "argument types of a method")
	sym.Assert(sym.EqStr(r, string(ret)), "return type of a method")
}

// H_Type: a field descriptor is rendered as the type.
func H_Type() {
	d, want := desc(nil, nil, true, 1+sym.Choice("len", 4+sym.Tier()))
	a, r := format.Signature(string(d))
	sym.Assert(sym.EqStr(a, string(want)), "type of a field descriptor")
	sym.Assert(r == "", "a field descriptor has no return type")
}

// H_AnySignature: no name from a dump makes the rendering crash.
func H_AnySignature() {
	format.Signature(sym.String("s", 3+sym.Tier()))
}

// H_ClassName: only the separators change.
func H_ClassName() {
	b := sym.Bytes("name", sym.Choice("len", 8+4*sym.Tier()))
	got := format.ClassName(string(b))
	sym.Assert(sym.EqStr(got, string(dotted(b))), "class name in source form")
}

// H_Size: a size is shown in whole units of the largest unit that fits, whatever was shown before.
func H_Size() {
	if sym.Choice("first", 2) == 1 {
		size(sym.Int("bytes", 0, 1<<62))
	}
	size(sym.Int("bytes", 0, 1<<62))
}

func size(n int) {
	got := format.Size(n)
	switch {
	case n < 1<<10:
		sym.Assert(sym.EqStr(got, strconv.Itoa(n)+"B"), "bytes")
	case n < 1<<20:
		sym.Assert(sym.EqStr(got, strconv.Itoa(n>>10)+"K"), "kilobytes")
	case n < 1<<30:
		sym.Assert(sym.EqStr(got, strconv.Itoa(n>>20)+"M"), "megabytes")
	default:
		sym.Assert(sym.EqStr(got, strconv.Itoa(n>>30)+"G"), "gigabytes")
	}
}

// H_Units: sizes at and around multiples of the units and of their quarters.
func H_Units() {
	unit := 1 << uint(10*sym.Choice("unit", 4))
	count := []int{0, 1, 2, 3, 9, 10, 99, 100, 511, 512, 999, 1000, 1022, 1023, 1024, 1025, 4095, 5000000}[sym.Choice("count", 18)]
	n := count*unit + unit/4*sym.Choice("quarter", 4) + sym.Int("delta", -1, 1)
	sym.Assume(n >= 0)
	got := format.Size(n)
	for i := 3; i >= 0; i-- {
		if m := n >> uint(10*i); m > 0 || i == 0 {
			sym.Assert(sym.EqStr(got, strconv.Itoa(m)+"BKMG"[i:i+1]), "whole units of the largest unit that fits")
			break
		}
	}
}

// H_LineNumber: line numbers show as numbers or as what they stand for.
func H_LineNumber() {
	n := sym.I32("line")
	got := core.LineNumber(n).String()
	switch {
	case n > 0:
		sym.Assert(sym.EqStr(got, strconv.Itoa(int(n))), "line number")
	case n == -1:
		sym.Assert(got == "Unknown", "unknown line")
	case n == -2:
		sym.Assert(got == "CompiledMethod", "compiled method")
	case n == -3:
		sym.Assert(got == "NativeMethod", "native method")
	default:
		sym.Assert(got == "Error", "line number that means nothing")
	}
}

// H_Lines: a line number is shown as that number whichever were shown before.
func H_Lines() {
	shows := func(n int) {
		sym.Assert(core.LineNumber(n).String() == strconv.Itoa(n), "line number, after others")
	}
	for n := 1; n <= 5000; n++ {
		shows(n)
	}
	for k := uint(1); k < 31; k++ {
		for d := -3; d <= 300; d++ {
			if n := 1<<k + d; n > 0 && n < 1<<31 {
				shows(n)
			}
		}
	}
	for n := 5000; n > 0; n -= 3 {
		shows(n)
	}
	H_LineNumber()
}

// H_Status: a thread status word shows as the java.lang.Thread.State the JDK derives from
// it (jdk.internal.misc.VM.toThreadState).
func H_Status() { status(int(sym.I32("status"))) }

// H_Statuses: the state does not depend on those shown before.
func H_Statuses() {
	v, w := int(sym.I32("status")), int(sym.I32("status"))
	sym.Assume(v&0x436 != 0)
	sym.Assume(w&0x436 != 0)
	status(v)
	status(w)
}

func status(v int) {
	got := threads.ThreadStatus(v).String()
	bit := func(m int) bool { return v&m != 0 }
	switch {
	case bit(0x4):
		sym.Assert(got == "RUNNABLE", "runnable thread")
	case bit(0x400):
		sym.Assert(got == "BLOCKED", "thread blocked on a monitor")
	case bit(0x10):
		sym.Assert(got == "WAITING", "waiting thread")
	case bit(0x20):
		sym.Assert(got == "TIMED_WAITING", "thread waiting with a timeout")
	case bit(0x2):
		sym.Assert(got == "TERMINATED", "terminated thread")
	case bit(0x1):
		sym.Assert(got == "RUNNABLE", "alive-thread-without-further-state")
	default:
		sym.Assert(got == "NEW", "thread-not-started")
	}
}

// H_Long: descriptors with many arguments, many dimensions and long names.
func H_Long() {
	n := []int{40, 255}[sym.Choice("arguments", 2)]
	dims := []int{1, 200, 255}[sym.Choice("dims", 3)]
	size := []int{1, 130, 300, 2000, 9000}[sym.Choice("name", 4+sym.Tier())]
	at := []int{0, n / 2, n - 1, n}[sym.Choice("at", 4)]
	name := make([]byte, size)
	for i := range name {
		name[i] = byte("com/example/Foo$Bar_()ILV"[i%25])
	}
	odd := nameBytes(1)
	name[size/2] = odd[0]
	d, want := []byte{'('}, []byte{}
	for i := 0; i <= n; i++ {
		switch {
		case i == n:
			d = append(d, ')')
			want = append(want, ')') // not part of the arguments: the return type follows
		case i > 0:
			want = append(want, ", "...)
		}
		k := 0
		if i == at || i%13 == 7 {
			k = dims
		}
		for j := 0; j < k; j++ {
			d = append(d, '[')
		}
		if i == at || i%17 == 3 {
			d = append(append(append(d, 'L'), name...), ';')
			want = append(want, dotted(name)...)
		} else {
			d = append(d, prims[i%8].code)
			want = append(want, prims[i%8].name...)
		}
		for j := 0; j < k; j++ {
			want = append(want, "[]"...)
		}
	}
	a, r := format.Signature(string(d))
	sym.Assert(sym.EqStr(a+")"+r, string(want)), "types of a long descriptor")
}

// H_LongClassName: only the separators change in long names.
func H_LongClassName() {
	b := sym.Bytes("name", 40+260*sym.Choice("length", 2))
	for i := range b { // all but a few are fixed
		if i%37 > 1 {
			b[i] = "com/example.Foo$Bar;[_()ILV"[i%27]
		}
	}
	got := format.ClassName(string(b))
	sym.Assert(sym.EqStr(got, string(dotted(b))), "class name in source form")
}

// known are names as they occur in dumps.
var known = []string{
	"java/lang/String", "java/util/Map$Entry", "com/example/App$1", "com/example/App$1Local", "com/example/App$$Lambda$14/0x0000000800066840",
	"com/example/App$$Lambda$14+0x0000000800066840", "com/example/App$$Lambda/0x00007f8a1c001000", "com/example/App$$Lambda+0x00007f8a1c001000",
	"java/lang/invoke/LambdaForm$DMH/0x0000000800c03000", "java/lang/invoke/LambdaForm$MH+0x0000000800c03000", "java/lang/invoke/LambdaForm$MH/1096979270",
	"jdk/internal/reflect/GeneratedConstructorAccessor1", "jdk/proxy2/$Proxy12", "com/sun/proxy/$Proxy12", "$Proxy0", "com/example/S$$EnhancerBySpringCGLIB$$1a2b3c4d",
	"com/example/S$$SpringCGLIB$$0", "com/example/E$HibernateProxy$Xy1z", "com/example/E_$$_jvst5e7_0", "com/example/E$ByteBuddy$AbCdEfGh", "scala/collection/immutable/List$",
	"scala/Function1$$anon$2", "com/example/package-info", "module-info", "Main", "A", "com/example/a-b", "kotlin/Foo$bar$1$invokeSuspend$$inlined$baz$1",
	"com/example/Script1$_run_closure1", "com/example/Foo/0x1", "com/example/Foo+0x1", "com/example/Foo@1b6d3586", "com/example/Foo#1", "com/example/Foo<T>", "Lcom/example/Foo", "L", "I", "V",
	"java/lang/Object$", "$", "$$", "a//b", "/", "com/example/Foo$0", "com/example/Foo$00000001", "com/example/Foo1234567890123456789", "org/example/Foo$LambdaForm$Hidden/0x0000000801000400",
}

// H_KnownNames: names as they occur in dumps, as they are and with an arbitrary byte in, in front of
// or behind them.
func H_KnownNames() {
	names()
	b := nearby()
	switch sym.Choice("array", 3) {
	case 0:
		got := format.ClassName(string(b))
		sym.Assert(sym.EqStr(got, string(dotted(b))), "class name in source form")
	case 1:
		b = append(append([]byte("[[L"), b...), ';')
		got := format.ClassName(string(b))
		sym.Assert(sym.EqStr(got, string(dotted(b))), "class name in source form")
	case 2:
		b = []byte("[[J")
		sym.Assert(format.ClassName(string(b)) == "[[J", "class name in source form")
	}
	names()
}

// names shows every known name, whatever was shown before.
func names() {
	for _, n := range known {
		sym.Assert(format.ClassName(n) == string(dotted([]byte(n))), "class name in source form, after others")
	}
}

// nearby is a known name, possibly with one arbitrary byte.
func nearby() []byte {
	n := []byte(known[sym.Choice("name", len(known))])
	switch sym.Choice("change", 4) {
	case 1:
		at := len(n) - 1 - sym.Choice("at", min(len(n), 8+16*sym.Tier()))
		n[at] = nameBytes(1)[0]
	case 2:
		n = append(nameBytes(1), n...)
	case 3:
		n = append(n, nameBytes(1)...)
	}
	return n
}

// H_KnownTypes: descriptors with such names.
func H_KnownTypes() {
	types()
	n := nearby()
	d, want := append(append([]byte("([L"), n...), ";ILA;)L"...), append(dotted(n), "[], int, A"...)
	d = append(append(d, n...), ';')
	a, r := format.Signature(string(d))
	sym.Assert(sym.EqStr(a, string(want)), "argument types of a method")
	sym.Assert(sym.EqStr(r, string(dotted(n))), "return type of a method")
	d = append(append([]byte("[[L"), n...), ';')
	a, r = format.Signature(string(d))
	sym.Assert(sym.EqStr(a, string(append(dotted(n), "[][]"...))), "type of a field descriptor")
	sym.Assert(r == "", "a field descriptor has no return type")
}

// types shows descriptors that have parts in common, whatever was shown before.
func types() {
	shows := func(d, args, ret string) {
		a, r := format.Signature(d)
		sym.Assert(a == args, "argument types of a method, after others")
		sym.Assert(r == ret, "return type of a method, after others")
	}
	for _, n := range known {
		c := string(dotted([]byte(n)))
		shows("(L"+n+";)V", c, "void")
		shows("(L"+n+";)I", c, "int")
		shows("([L"+n+";)I", c+"[]", "int")
		shows("(I)L"+n+";", "int", c)
		shows("()[L"+n+";", "", c+"[]")
		shows("()L"+n+";", "", c)
		shows("L"+n+";", c, "")
		shows("[L"+n+";", c+"[]", "")
	}
	for i, p := range prims {
		q := prims[(i+1)%len(prims)]
		for k := 0; k < 2; k++ {
			shows("("+string(p.code)+")"+string(q.code), p.name, q.name)
			shows("("+string(q.code)+")"+string(p.code), q.name, p.name)
			shows("("+string(p.code)+string(q.code)+")V", p.name+", "+q.name, "void")
			shows("(["+string(p.code)+string(q.code)+")V", p.name+"[], "+q.name, "void")
			shows("("+string(p.code)+"["+string(q.code)+")V", p.name+", "+q.name+"[]", "void")
			shows("["+string(p.code), p.name+"[]", "")
		}
	}
}
