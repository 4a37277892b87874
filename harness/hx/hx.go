// Package hx has helpers shared by the harnesses: a reference .hprof encoder written from
// the format description, and readers with awkward but legal behaviour.
package hx

import (
	"errors"
	"io"

	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// ID is an arbitrary identifier of the given size.
func ID(name string, idSize int) uint64 {
	if idSize == 4 {
		return uint64(sym.U32(name))
	}
	return sym.U64(name)
}

// IDSize is 4 or 8.
func IDSize() int {
	if sym.Choice("idSize", 2) == 0 {
		return 8
	}
	return 4
}

// B builds a dump.
type B struct {
	Buf []byte
	ID  int
}

func New(idSize int) *B { return &B{ID: idSize} }

func (b *B) U1(v uint8)  { b.Buf = append(b.Buf, v) }
func (b *B) U2(v uint16) { b.Buf = append(b.Buf, byte(v>>8), byte(v)) }
func (b *B) U4(v uint32) {
	b.Buf = append(b.Buf, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}
func (b *B) U8(v uint64) { b.U4(uint32(v >> 32)); b.U4(uint32(v)) }
func (b *B) Id(v uint64) {
	if b.ID == 4 {
		b.U4(uint32(v))
	} else {
		b.U8(v)
	}
}
func (b *B) Raw(p []byte) { b.Buf = append(b.Buf, p...) }

// Header writes the file header.
func (b *B) Header(hi, lo uint32) {
	b.Raw([]byte("JAVA PROFILE 1.0.2\x00"))
	b.U4(uint32(b.ID))
	b.U4(hi)
	b.U4(lo)
}

// Tag writes a record header with the given body length.
func (b *B) Tag(tag byte, n int) {
	b.U1(tag)
	b.U4(0)
	b.U4(uint32(n))
}

func (b *B) Utf8(id uint64, s []byte) {
	b.Tag(1, b.ID+len(s))
	b.Id(id)
	b.Raw(s)
}

func (b *B) LoadClass(serial uint32, obj uint64, trace uint32, name uint64) {
	b.Tag(2, 8+2*b.ID)
	b.U4(serial)
	b.Id(obj)
	b.U4(trace)
	b.Id(name)
}

func (b *B) Frame(id, method, sig, src uint64, class uint32, line uint32) {
	b.Tag(4, 8+4*b.ID)
	b.Id(id)
	b.Id(method)
	b.Id(sig)
	b.Id(src)
	b.U4(class)
	b.U4(line)
}

func (b *B) Trace(serial, thread uint32, frames []uint64) {
	b.Tag(5, 12+len(frames)*b.ID)
	b.U4(serial)
	b.U4(thread)
	b.U4(uint32(len(frames)))
	for _, f := range frames {
		b.Id(f)
	}
}

func (b *B) Segment(n int) { b.Tag(0x1c, n) }
func (b *B) End()          { b.Tag(0x2c, 0) }

// sub-records, type byte included
func (b *B) JniGlobal(obj, ref uint64) { b.U1(0x01); b.Id(obj); b.Id(ref) }
func (b *B) JniLocal(obj uint64, thread, frame uint32) {
	b.U1(0x02)
	b.Id(obj)
	b.U4(thread)
	b.U4(frame)
}
func (b *B) JavaFrame(obj uint64, thread, frame uint32) {
	b.U1(0x03)
	b.Id(obj)
	b.U4(thread)
	b.U4(frame)
}
func (b *B) Sticky(obj uint64) { b.U1(0x05); b.Id(obj) }
func (b *B) ThreadObj(obj uint64, seq, trace uint32) {
	b.U1(0x08)
	b.Id(obj)
	b.U4(seq)
	b.U4(trace)
}

// Val is a typed value; Raw holds its big-endian bytes.
type Val struct {
	Ty  byte
	Raw []byte
}

// TypeSize is the size of a value of the type, 0 for a byte that names no type.
func TypeSize(ty byte, idSize int) int {
	switch ty {
	case 2:
		return idSize
	case 4, 8:
		return 1
	case 5, 9:
		return 2
	case 6, 10:
		return 4
	case 7, 11:
		return 8
	}
	return 0
}

// Types are the type codes of the format.
var Types = []byte{2, 4, 5, 6, 7, 8, 9, 10, 11}

type ConstRec struct {
	Index uint16
	Val   Val
}
type StaticRec struct {
	Name uint64
	Val  Val
}
type FieldRec struct {
	Name uint64
	Ty   byte
}

// Class is a class dump.
type Class struct {
	Id, Super, Loader, Signers, Domain uint64
	Trace                              uint32
	Size                               uint32
	Consts                             []ConstRec
	Statics                            []StaticRec
	Fields                             []FieldRec
}

func (b *B) ClassBody(c Class) {
	b.Id(c.Id)
	b.U4(c.Trace)
	b.Id(c.Super)
	b.Id(c.Loader)
	b.Id(c.Signers)
	b.Id(c.Domain)
	b.Id(0)
	b.Id(0)
	b.U4(c.Size)
	b.U2(uint16(len(c.Consts)))
	for _, r := range c.Consts {
		b.U2(r.Index)
		b.U1(r.Val.Ty)
		b.Raw(r.Val.Raw)
	}
	b.U2(uint16(len(c.Statics)))
	for _, r := range c.Statics {
		b.Id(r.Name)
		b.U1(r.Val.Ty)
		b.Raw(r.Val.Raw)
	}
	b.U2(uint16(len(c.Fields)))
	for _, r := range c.Fields {
		b.Id(r.Name)
		b.U1(r.Ty)
	}
}

func (b *B) Class(c Class) { b.U1(0x20); b.ClassBody(c) }

func (b *B) Instance(obj uint64, trace uint32, class uint64, data []byte) {
	b.U1(0x21)
	b.Id(obj)
	b.U4(trace)
	b.Id(class)
	b.U4(uint32(len(data)))
	b.Raw(data)
}

func (b *B) ObjArray(obj uint64, trace uint32, class uint64, elems []uint64) {
	b.U1(0x22)
	b.Id(obj)
	b.U4(trace)
	b.U4(uint32(len(elems)))
	b.Id(class)
	for _, e := range elems {
		b.Id(e)
	}
}

func (b *B) PrimArray(obj uint64, trace uint32, ty byte, n int, data []byte) {
	b.U1(0x23)
	b.Id(obj)
	b.U4(trace)
	b.U4(uint32(n))
	b.U1(ty)
	b.Raw(data)
}

// Reader hands out at most Chunk bytes per call (0: no limit) and may return io.EOF
// together with the last bytes.
type Reader struct {
	B        []byte
	Pos      int
	Chunk    int
	EagerEOF bool
	Fail     int  // fail with ErrIO once this many bytes were delivered (negative: never)
	Once     bool // fail only the first time
}

var ErrIO = errors.New("injected i/o error")

func NewReader(b []byte, chunk int) *Reader { return &Reader{B: b, Chunk: chunk, Fail: -1} }

func (r *Reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.Fail >= 0 && r.Pos >= r.Fail {
		if r.Once {
			r.Fail = -1
		}
		return 0, ErrIO
	}
	if r.Pos >= len(r.B) {
		return 0, io.EOF
	}
	n := len(p)
	if r.Chunk > 0 && n > r.Chunk {
		n = r.Chunk
	}
	if n > len(r.B)-r.Pos {
		n = len(r.B) - r.Pos
	}
	if r.Fail >= 0 && n > r.Fail-r.Pos {
		n = r.Fail - r.Pos
	}
	copy(p, r.B[r.Pos:r.Pos+n])
	r.Pos += n
	if r.EagerEOF && r.Pos == len(r.B) {
		return n, io.EOF
	}
	return n, nil
}

// AnyVal is an arbitrary value of the chosen type.
func AnyVal(name string, ty byte, idSize int) Val {
	return Val{ty, sym.Bytes(name, TypeSize(ty, idSize))}
}

// SubTypes are the sub-record codes of records with an identifier that the tool reports.
var SubTypes = []byte{0x01, 0x02, 0x03, 0x05, 0x08, 0x20, 0x21, 0x22, 0x23}

// Seeker is a seekable file that hands out at most Chunk bytes per call.
type Seeker struct {
	Reader
	SeekErr error
	Seeks   int
}

func NewSeeker(b []byte, chunk int) *Seeker {
	return &Seeker{Reader: Reader{B: b, Chunk: chunk, Fail: -1}}
}

func (s *Seeker) Seek(offset int64, whence int) (int64, error) {
	s.Seeks++
	if s.SeekErr != nil {
		return 0, s.SeekErr
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		offset += int64(s.Pos)
	case io.SeekEnd:
		offset += int64(len(s.B))
	default:
		return 0, ErrIO
	}
	if offset < 0 {
		return 0, ErrIO
	}
	s.Pos = int(offset)
	return offset, nil
}
