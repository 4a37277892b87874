package hcore

import (
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// marked are the positions whose contents are arbitrary in a long list: the ends, and those
// on both sides of where a count or an index of 8 or 16 bits would wrap around.
func marked(i, n int) bool {
	switch i {
	case 0, 255, 256, 65535, 65536:
		return true
	}
	return i == n-1
}

func longID(id, i int) uint64 {
	if id == 4 {
		return 0x8000_0000 + uint64(i)*7
	}
	return 0xa123_4567_8000_0000 + uint64(i)*7
}

// H_Long: records whose counts and lengths need all their bytes.
func H_Long() {
	id := hx.IDSize()
	b := hx.New(id)
	switch sym.Choice("kind", 3) {
	case 0:
		n := []int{300, 66000}[sym.Choice("length", 2)]
		fs := make([]uint64, n)
		b.U4(1)
		b.U4(2)
		b.U4(uint32(n))
		for i := range fs {
			fs[i] = longID(id, i)
			if marked(i, n) {
				fs[i] = hx.ID("frame", id)
			}
			b.Id(fs[i])
		}
		b.Raw(tail)
		r := hx.NewReader(b.Buf, 0)
		v, err := core.NewRecordParser(r, uint32(id)).ParseHprofTrace()
		done(r, err)
		sym.Assert(int(v.NumberOfFrames) == n && len(v.StackFrameIds) == n, "trace with many frames")
		for i := range fs {
			sym.Assert(uint64(v.StackFrameIds[i]) == fs[i], "frames of a long trace")
		}
	case 1:
		n := []int{300, 66000}[sym.Choice("length", 2)]
		i := hx.ID("id", id)
		s := hx.Pattern("text", n)
		b.Id(i)
		b.Raw(s)
		b.Raw(tail)
		r := hx.NewReader(b.Buf, 0)
		u, err := core.NewRecordParser(r, uint32(id)).ParseHprofUtf8(uint32(id + n))
		done(r, err)
		sym.Assert(uint64(u.Identifier) == i && sym.EqStr(u.Characters, string(s)), "long text")
	default:
		n := []int{300, 65535}[sym.Choice("length", 2)]
		k := sym.Choice("list", 3)
		c := hx.Class{Id: hx.ID("cid", id), Super: hx.ID("super", id)}
		ty := byte(11)
		if n == 300 {
			ty = hx.Types[sym.Choice("type", 9)]
		}
		for i := 0; i < n; i++ {
			v := hx.Val{Ty: 8, Raw: []byte{byte(i)}}
			nm := longID(id, i)
			if marked(i, n) {
				v = hx.AnyVal("value", ty, id)
				nm = hx.ID("name", id)
			}
			switch k {
			case 0:
				c.Consts = append(c.Consts, hx.ConstRec{Index: uint16(i), Val: v})
			case 1:
				c.Statics = append(c.Statics, hx.StaticRec{Name: nm, Val: v})
			case 2:
				c.Fields = append(c.Fields, hx.FieldRec{Name: nm, Ty: v.Ty})
			}
		}
		b.ClassBody(c)
		size := len(b.Buf)
		b.Raw(tail)
		r := hx.NewReader(b.Buf, 0)
		v, err := core.NewRecordParser(r, uint32(id)).ParseHprofGcClassDump()
		done(r, err)
		sym.Assert(len(v.ConstantPoolRecords) == len(c.Consts) && len(v.StaticFieldRecords) == len(c.Statics) && len(v.InstanceFieldRecords) == len(c.Fields), "long class dump")
		for i, x := range v.ConstantPoolRecords {
			sym.Assert(int(x.ConstantPoolIndex) == i && byte(x.Ty) == c.Consts[i].Val.Ty && hx.SameValue(x.Value, c.Consts[i].Val), "one of many constants")
		}
		for i, x := range v.StaticFieldRecords {
			sym.Assert(uint64(x.StaticFieldName) == c.Statics[i].Name && byte(x.Ty) == c.Statics[i].Val.Ty && hx.SameValue(x.Value, c.Statics[i].Val), "one of many static fields")
		}
		for i, x := range v.InstanceFieldRecords {
			sym.Assert(uint64(x.InstanceFieldName) == c.Fields[i].Name && byte(x.Ty) == c.Fields[i].Ty, "one of many instance fields")
		}
		sym.Assert(core.NewSizeInfo(uint32(id)).Of(v) == size, "size of a long class dump")
	}
}
