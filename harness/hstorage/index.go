// Package hstorage has the harnesses about the stored index.
package hstorage

import (
	"errors"
	"io"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/storage"
	"github.com/danielleontiev/neojhat/internal/zzverif/hdb"
	"github.com/danielleontiev/neojhat/internal/zzverif/hx"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

var errDisk = errors.New("injected disk error")

type entry struct{ k, v uint64 }

// write stores n entries with increasing keys in batches of the given size.
func write(v *hdb.Vol, n, batch int) []entry {
	w := storage.NewIndexRecordsWriteStorage(v, storage.BatchSize(batch))
	var es []entry
	for i := 0; i < n; i++ {
		e := entry{sym.U64("key"), sym.U64("val")}
		if i > 0 {
			sym.Assume(es[i-1].k < e.k)
		}
		sym.Assert(w.Put(e.k, e.v) == nil, "increasing key refused")
		es = append(es, e)
	}
	sym.Assert(w.Close() == nil, "closing the index")
	return es
}

// H_Index: every stored key is found with its value and no other key is.
func H_Index() {
	n := sym.Choice("n", 6+2*sym.Tier())
	v := &hdb.Vol{}
	es := write(v, n, 1+sym.Choice("batch", 4))
	sym.Assert(v.Closed == 1, "index file closed once")
	sym.Assert(len(v.Data) == 16*n, "index size")
	r, err := storage.NewIndexRecordsReadStorage(storage.NewRamReadVolume(v.Data), len(v.Data))
	sym.Assert(err == nil, "index refused")
	k := sym.U64("query")
	var want uint64
	var present bool
	for _, e := range es {
		want = sym.SelU64(e.k == k, e.v, want)
		present = sym.Or(present, e.k == k)
	}
	got, err := r.Get(k)
	sym.Assert((err == nil) == present, "a key is found exactly if it was stored")
	sym.Assert(err != nil || got == want, "value of a stored key")
}

// H_Backward: a key smaller than an earlier one is refused whatever the batch boundaries.
func H_Backward() {
	n := 1 + sym.Choice("n", 4+sym.Tier())
	v := &hdb.Vol{}
	w := storage.NewIndexRecordsWriteStorage(v, storage.BatchSize(1+sym.Choice("batch", 3)))
	var last uint64
	for i := 0; i < n; i++ {
		k := sym.U64("key")
		sym.Assume(last <= k)
		last = k
		sym.Assert(w.Put(k, sym.U64("val")) == nil, "key in order refused")
	}
	k := sym.U64("bad")
	sym.Assume(k < last)
	sym.Assert(w.Put(k, 0) != nil, "key out of order accepted")
}

// H_WriteFail: a failing write or close is reported by a Put or by Close.
func H_WriteFail() {
	v := &hdb.Vol{}
	n := sym.Choice("n", 6)
	what := sym.Choice("what", 2)
	if what == 0 {
		v.FailAt, v.WriteErr = 1+sym.Choice("failAt", 4), errDisk
	} else {
		v.CloseErr = errDisk
	}
	w := storage.NewIndexRecordsWriteStorage(v, storage.BatchSize(1+sym.Choice("batch", 3)))
	failed := false
	for i := 0; i < n; i++ {
		if w.Put(uint64(i), sym.U64("val")) != nil {
			failed = true
			break
		}
	}
	if !failed {
		failed = w.Close() != nil
	}
	if what == 0 && v.Failed == 0 {
		return // no write reached the failing one
	}
	sym.Assert(failed, "write failure swallowed")
}

// badAt is a volume whose reads fail or come back short.
type badAt struct {
	data []byte
	from int
}

func (b *badAt) ReadAt(p []byte, off int64) (int, error) {
	if int(off)+len(p) > b.from {
		return 0, errDisk
	}
	copy(p, b.data[off:])
	return len(p), nil
}
func (b *badAt) Close() error { return errDisk }

// H_BadIndex: damaged index files are reported and never answered from.
func H_BadIndex() {
	v := &hdb.Vol{}
	n := 1 + sym.Choice("n", 3)
	es := write(v, n, 2)
	switch sym.Choice("what", 3) {
	case 0: // not a whole number of entries
		cut := 1 + sym.Choice("cut", 15)
		_, err := storage.NewIndexRecordsReadStorage(storage.NewRamReadVolume(v.Data[:16*n-cut]), 16*n-cut)
		sym.Assert(err != nil, "index of a broken size accepted")
	case 1: // shorter than announced
		r, err := storage.NewIndexRecordsReadStorage(storage.NewRamReadVolume(v.Data[:16*n-16]), 16*n)
		if err == nil {
			_, err = r.Get(es[n-1].k)
		}
		sym.Assert(err != nil, "entry found beyond the end of the index")
	case 2: // unreadable
		r, err := storage.NewIndexRecordsReadStorage(&badAt{v.Data, 16 * (n - 1)}, 16*n)
		sym.Assert(err == nil, "index refused")
		_, err = r.Get(es[n-1].k)
		sym.Assert(err != nil, "read error swallowed")
		sym.Assert(r.Close() != nil, "close error swallowed")
	}
}

// small is a dump with two objects of each kind.
func small() []byte {
	b := hx.New(8)
	b.Header(0x190, 0)
	b.Utf8(1, []byte("x"))
	b.Segment(0)
	var ids [3]uint64
	for i := byte(0); i < 2; i++ {
		b.Instance(other(&ids[0], "i"), 0, 5, []byte{i})
		b.ObjArray(other(&ids[1], "o"), 0, 5, []uint64{1})
		b.PrimArray(other(&ids[2], "p"), 0, 8, 1, []byte{i})
	}
	b.End()
	return b.Buf
}

// other is a number beyond the last one.
func other(last *uint64, name string) uint64 {
	x := sym.U64(name)
	sym.Assume(x > *last)
	*last = x
	return x
}

// H_DiskFail: a failure to write or close any index file makes indexing fail, and the files
// are closed whatever happens.
func H_DiskFail() {
	d := &hdb.DB{Inst: &hdb.Vol{}, Obj: &hdb.Vol{}, Prim: &hdb.Vol{}}
	vols := []*hdb.Vol{d.Inst, d.Obj, d.Prim}
	bad := sym.Choice("which", 8)
	for i, v := range vols {
		if bad>>i&1 != 0 {
			if sym.Choice("how", 2) == 0 {
				v.FailAt, v.WriteErr = 1, errDisk
				v.Part = []int{0, 1, 16, 31}[sym.Choice("part", 4)]
			} else {
				v.CloseErr = errDisk
			}
		}
	}
	b := small()
	d.ParseFrom(hx.NewReader(b, 0))
	sym.Assert((d.Err != nil) == (bad != 0), "indexing fails exactly if writing the index failed")
	for i, v := range vols {
		sym.Assert(v.Closed == 1 || v.FailAt != 0, "index file left open")
		if bad == 0 {
			sym.Assert(len(v.Data) == 32, "index file complete")
		}
		_ = i
	}
}

// H_RecordFiles: failing or damaged record files are reported.
func H_RecordFiles() {
	d := hdb.Parse(hx.NewReader(small(), 0))
	sym.Assert(d.Err == nil, "well-formed dump rejected")
	meta := sym.Choice("meta", 2) == 1
	switch sym.Choice("what", 3) {
	case 0:
		v := &hdb.Vol{FailAt: 1, WriteErr: errDisk, Part: sym.Choice("part", 2)}
		var err error
		if meta {
			err = d.MetaW.SerializeTo(v)
		} else {
			err = d.SmallW.SerializeTo(v)
		}
		sym.Assert(err != nil, "failure to write a record file swallowed")
	case 1: // cut
		v := &hdb.Vol{}
		var err error
		if meta {
			err = d.MetaW.SerializeTo(v)
		} else {
			err = d.SmallW.SerializeTo(v)
		}
		sym.Assert(err == nil, "storing")
		keep := 0
		if sym.Choice("part", 2) == 1 {
			keep = len(v.Data) - 1
		}
		if meta {
			err = storage.NewMetaReadStorage().RestoreFrom(hx.NewReader(v.Data[:keep], 0))
		} else {
			err = storage.NewSmallRecordsReadStorage().RestoreFrom(hx.NewReader(v.Data[:keep], 0))
		}
		sym.Assert(err != nil, "cut record file accepted")
	case 2: // unreadable
		r := hx.NewReader(nil, 0)
		r.Fail = 0
		var err error
		if meta {
			err = storage.NewMetaReadStorage().RestoreFrom(r)
		} else {
			err = storage.NewSmallRecordsReadStorage().RestoreFrom(r)
		}
		sym.Assert(err != nil, "unreadable record file accepted")
	}
}

// H_ReadClose: closing the opened index closes all its files and reports failures.
func H_ReadClose() {
	var cs [3]*closer
	bad := sym.Choice("which", 8)
	for i := range cs {
		cs[i] = &closer{}
		if bad>>i&1 != 0 {
			cs[i].err = errDisk
		}
	}
	r, err := storage.NewBigRecordsReadStorage(cs[0], 0, cs[1], 0, cs[2], 0)
	sym.Assert(err == nil, "empty index refused")
	_, e1 := r.HprofGcInstanceDumpGetOffset(core.Identifier(sym.U64("a")))
	_, e2 := r.HprofGcObjArrayDumpGetOffset(core.Identifier(sym.U64("b")))
	_, e3 := r.HprofGcPrimArrayDumpGetOffset(core.Identifier(sym.U64("c")))
	sym.Assert(e1 != nil && e2 != nil && e3 != nil, "object found in an empty index")
	err = r.Close()
	sym.Assert((err != nil) == (bad != 0), "close fails exactly if a file failed")
	for _, c := range cs {
		sym.Assert(c.closed == 1, "index file left open")
	}
}

type closer struct {
	err    error
	closed int
}

func (c *closer) ReadAt(p []byte, off int64) (int, error) { return 0, io.EOF }
func (c *closer) Close() error                            { c.closed++; return c.err }

// vast is an index of n entries with keys base+3i and values 7i, computed on demand.
type vast struct{ n, base uint64 }

func (v *vast) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || uint64(off)+uint64(len(p)) > 16*v.n {
		return 0, io.EOF
	}
	b := hx.New(8)
	for at := uint64(off) / 16 * 16; at < uint64(off)+uint64(len(p)); at += 16 {
		b.U8(v.base + 3*(at/16))
		b.U8(7 * (at / 16))
	}
	copy(p, b.Buf[uint64(off)%16:])
	return len(p), nil
}
func (v *vast) Close() error { return nil }

// H_VastIndex: lookups work in indexes far beyond 4 GiB.
func H_VastIndex() {
	ns := []uint64{1, 1000, 1<<27 - 1, 1 << 28, 1<<31 + 5, 1<<36 + 1}
	n := ns[sym.Choice("n", len(ns))]
	v := &vast{n, sym.U64("base") >> 1}
	r, err := storage.NewIndexRecordsReadStorage(v, int(16*n))
	sym.Assert(err == nil, "index refused")
	var i uint64
	switch sym.Choice("where", 4) {
	case 0:
		i = 0
	case 1:
		i = n - 1
	case 2:
		i = n / 2
	case 3:
		i = n / 3
	}
	got, err := r.Get(v.base + 3*i)
	sym.Assert(err == nil && got == 7*i, "entry of a vast index")
	d := sym.U64("gap")
	sym.Assume(d >= 1 && d <= 2)
	_, err = r.Get(v.base + 3*i + d)
	sym.Assert(err != nil, "key that is not in a vast index")
}

// H_LongIndex: an index of many entries, in batches of any kind.
func H_LongIndex() {
	n := []int{127, 128, 300, 1000, 5000}[sym.Choice("entries", 4+sym.Tier())]
	batch := []int{1, 7, 64, n - 1, n, n + 1}[sym.Choice("batch", 6)]
	base := sym.U64("base")
	sym.Assume(base < 1<<62)
	v := &hdb.Vol{}
	w := storage.NewIndexRecordsWriteStorage(v, storage.BatchSize(batch))
	key := func(i int) uint64 { return base + uint64(i)*3 + uint64(i/10)<<33 }
	for i := 0; i < n; i++ {
		sym.Assert(w.Put(key(i), uint64(i)<<30+7) == nil, "entry refused")
	}
	sym.Assert(w.Close() == nil, "close")
	sym.Assert(len(v.Data) == 16*n, "size of the index")
	r, err := storage.NewIndexRecordsReadStorage(storage.NewRamReadVolume(v.Data), len(v.Data))
	sym.Assert(err == nil, "index refused")
	k := []int{0, 1, 63, 64, 65, n / 2, n - 2, n - 1}[sym.Choice("which", 8)]
	got, err := r.Get(key(k))
	sym.Assert(err == nil && got == uint64(k)<<30+7, "stored entry not found")
	d := uint64(sym.U8("distance"))
	sym.Assume(sym.And(d%3 != 0, d < 30))
	_, err = r.Get(key(k) + d)
	sym.Assert(err != nil, "absent key found")
}

// H_ManyBatches: an index of very many batches.
func H_ManyBatches() {
	n := []int{600, 5000, 140000}[sym.Choice("entries", 2+sym.Tier())]
	batch := []int{1, 2, 3, 7, 255, 256}[sym.Choice("batch", 6)]
	v := &hdb.Vol{}
	w := storage.NewIndexRecordsWriteStorage(v, storage.BatchSize(batch))
	odd := sym.U64("offset")
	for i := 0; i < n; i++ {
		off := uint64(i) << 20
		if i == n-9 {
			off = odd
		}
		sym.Assert(w.Put(uint64(i)*5, off) == nil, "entry refused")
	}
	sym.Assert(w.Close() == nil, "close")
	sym.Assert(len(v.Data) == 16*n, "size of the index")
	r, err := storage.NewIndexRecordsReadStorage(storage.NewRamReadVolume(v.Data), len(v.Data))
	sym.Assert(err == nil, "index refused")
	for i := 0; i < n; i++ {
		if i%7 != 0 && i < n-9 {
			continue
		}
		got, err := r.Get(uint64(i) * 5)
		if i == n-9 {
			sym.Assert(err == nil && got == odd, "stored entry not found")
		} else {
			sym.Assert(err == nil && got == uint64(i)<<20, "stored entry not found")
		}
		_, err = r.Get(uint64(i)*5 + 1)
		sym.Assert(err != nil, "absent key found")
	}
}
