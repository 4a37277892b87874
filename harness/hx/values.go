package hx

import (
	"math"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// BE is the big-endian number in b.
func BE(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

// WantValue is what a value of the format denotes.
func WantValue(v Val) core.JavaValue {
	r := core.JavaValue{Type: core.JavaType(v.Ty)}
	switch v.Ty {
	case 2:
		r.Value = core.Identifier(BE(v.Raw))
	case 4:
		r.Value = v.Raw[0] != 0
	case 5:
		r.Value = string(v.Raw)
	case 6:
		r.Value = math.Float32frombits(uint32(BE(v.Raw)))
	case 7:
		r.Value = math.Float64frombits(BE(v.Raw))
	case 8:
		r.Value = int8(BE(v.Raw))
	case 9:
		r.Value = int16(BE(v.Raw))
	case 10:
		r.Value = int32(BE(v.Raw))
	case 11:
		r.Value = int64(BE(v.Raw))
	}
	return r
}

// sameValue compares values bit by bit (NaNs included).
func same(a, b core.JavaValue) bool {
	if a.Type != b.Type {
		return false
	}
	switch x := a.Value.(type) {
	case float32:
		y, ok := b.Value.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.Value.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return sym.Equal(a.Value, b.Value)
}

// SameValue reports whether a parsed value is the encoded one.
func SameValue(a core.JavaValue, v Val) bool { return same(a, WantValue(v)) }

// Pattern is n bytes of text of which the first, the last and one in the middle are arbitrary
// (printable ASCII).
func Pattern(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+i/26)%26)
	}
	for i, k := range []int{0, n / 2, n - 1} {
		if n > i {
			c := sym.U8(name)
			sym.Assume(sym.And(c > ' ', c < 0x7f))
			b[k] = c
		}
	}
	return b
}
