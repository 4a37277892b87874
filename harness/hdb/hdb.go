// Package hdb runs a dump through the real parser and the real storages and opens the
// result the way the commands do, all in memory.
package hdb

import (
	"bytes"
	"io"

	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/storage"
	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

// Vol is an index volume that can fail.
type Vol struct {
	Data     []byte
	FailAt   int // fail the n-th write (counting from 1), 0: never
	Part     int // how much of a failing write is stored all the same
	CloseErr error
	WriteErr error
	writes   int
	Failed   int
	Closed   int
}

func (v *Vol) Write(p []byte) (int, error) {
	v.writes++
	if v.FailAt != 0 && v.writes >= v.FailAt {
		v.Failed++
		n := min(v.Part, len(p))
		v.Data = append(v.Data, p[:n]...)
		return n, v.WriteErr
	}
	v.Data = append(v.Data, p...)
	return len(p), nil
}

func (v *Vol) Close() error {
	v.Closed++
	return v.CloseErr
}

// DB is an indexed dump.
type DB struct {
	Inst, Obj, Prim *Vol
	SmallW          *storage.SmallRecordsWriteStorage
	MetaW           *storage.MetaWriteStorage
	Pos             int
	Err             error
	Big             *storage.BigRecordsReadStorage
	Small           *storage.SmallRecordsReadStorage
	Meta            *storage.MetaReadStorage
}

// Parse indexes the dump.
func Parse(r io.Reader) *DB {
	d := &DB{Inst: &Vol{}, Obj: &Vol{}, Prim: &Vol{}}
	d.ParseFrom(r)
	return d
}

func (d *DB) ParseFrom(r io.Reader) {
	d.SmallW = storage.NewSmallRecordsWriteStorage()
	d.MetaW = storage.NewMetaWriteStorage()
	big := storage.NewBigRecordsWriteStorage(d.Inst, d.Obj, d.Prim)
	p := dump.NewParser(r, d.SmallW, big, d.MetaW)
	d.Err = p.ParseHeapDump()
	d.Pos = p.GetPosition()
}

// Restore writes the record files and reads everything back.
func (d *DB) Restore() error {
	var sb, mb bytes.Buffer
	if err := d.SmallW.SerializeTo(&sb); err != nil {
		return err
	}
	if err := d.MetaW.SerializeTo(&mb); err != nil {
		return err
	}
	d.Small = storage.NewSmallRecordsReadStorage()
	if err := d.Small.RestoreFrom(&sb); err != nil {
		return err
	}
	d.Meta = storage.NewMetaReadStorage()
	if err := d.Meta.RestoreFrom(&mb); err != nil {
		return err
	}
	var err error
	d.Big, err = storage.NewBigRecordsReadStorage(
		storage.NewRamReadVolume(d.Inst.Data), len(d.Inst.Data),
		storage.NewRamReadVolume(d.Obj.Data), len(d.Obj.Data),
		storage.NewRamReadVolume(d.Prim.Data), len(d.Prim.Data))
	return err
}

// Open indexes a well-formed dump and opens it for queries.
func Open(b []byte) *dump.ParsedAccessor { return OpenOn(b, bytes.NewReader(b)) }

// OpenOn is Open with the file the queries read.
func OpenOn(b []byte, file io.ReadSeeker) *dump.ParsedAccessor {
	d := Parse(bytes.NewReader(b))
	sym.Assert(d.Err == nil, "a well-formed dump is rejected")
	err := d.Restore()
	sym.Assert(err == nil, "index cannot be read back")
	return dump.NewParsedAccessor(file, d.Big, d.Small, d.Meta)
}
