// Package mos stands for package os in the copies of the module's packages that the
// file-system harnesses execute: an in-memory file system whose operations are numbered
// steps. A step can be the one at which the process dies, at which the operation fails, or
// at which another process runs.
package mos

import (
	"io"
	"io/fs"
	ros "os"
	"strings"
	"syscall"
	"time"

	"github.com/danielleontiev/neojhat/internal/zzverif/sym"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

type node struct {
	dir  bool
	data []byte
	name []string
	kid  []*node
	mode FileMode
	link string // of a symbolic link
}

func (n *node) find(name string) int {
	for i, s := range n.name {
		if s == name {
			return i
		}
	}
	return -1
}

func (n *node) put(name string, k *node) {
	if i := n.find(name); i >= 0 {
		n.kid[i] = k
		return
	}
	n.name = append(n.name, name)
	n.kid = append(n.kid, k)
}

func (n *node) del(name string) {
	i := n.find(name)
	n.name = append(append([]string{}, n.name[:i]...), n.name[i+1:]...)
	n.kid = append(append([]*node{}, n.kid[:i]...), n.kid[i+1:]...)
}

var (
	root  *node
	cwd   string
	temps int

	proc  int  // the running process
	dead  bool // the running process was killed
	steps int
	last  string // the last step, for folding consecutive writes and reads of one file

	// Plan of the running process: what happens at which step (counting from 1).
	CrashAt int    // the process dies before step CrashAt
	TornAt  int    // the process dies in the middle of step TornAt
	FailAt  int    // the operation of step FailAt fails
	Kind    string // if not empty, only operations of this kind count as steps
	Before  func() // called before step RunAt, once
	RunAt   int

	Happened bool   // the planned event took place
	Failed   string // the operation that failed
	Trace    []string
	Writable func(path string) bool // nil: everything
	Outside  string                 // a path that was changed although it may not be
)

// Killed is what a killed process panics with, Exited what Exit panics with.
type Killed struct{}
type Exited struct{ Code int }

// Reset empties the file system.
func Reset() {
	root = &node{dir: true, mode: fs.ModeDir | 0o755}
	cwd = "/"
	temps, proc = 0, 0
	Writable, Outside = nil, ""
	SizeIs, Chunk, StderrText, Slow = -1, 0, nil, false
	Room, Half, Once, Refused, NoRoom = -1, false, false, false, syscall.ENOSPC
	Process()
}

// Process starts a new process.
func Process() {
	proc++
	dead, steps, last = false, 0, ""
	CrashAt, TornAt, FailAt, RunAt, Before, Kind = 0, 0, 0, 0, nil, ""
	Happened = false
	Failed = ""
	Trace = nil
}

type saved struct {
	proc, steps, crash, torn, fail, runAt int
	last, kind                            string
	happened                              bool
	trace                                 []string
}

// Nested runs f as another process.
func Nested(f func()) {
	s := saved{proc, steps, CrashAt, TornAt, FailAt, RunAt, last, Kind, Happened, Trace}
	Process()
	f()
	dead = false
	proc, steps, CrashAt, TornAt, FailAt, RunAt, last, Kind, Happened, Trace = s.proc, s.steps, s.crash, s.torn, s.fail, s.runAt, s.last, s.kind, s.happened, s.trace
}

// Steps is the number of steps the process took.
func Steps() int { return steps }

var (
	errIO = syscall.EIO
)

// step accounts for one operation; torn tells that it is to be done half-way.
func step(op, path string, fold bool) (torn bool, err error) {
	if dead {
		panic(Killed{})
	}
	sym.Yield()
	k := op + " " + path
	if Kind != "" && Kind != op {
		return false, nil
	}
	if fold && k == last {
		return false, nil
	}
	last = k
	steps++
	Trace = append(Trace, k)
	if Before != nil && RunAt == steps {
		f := Before
		Before = nil
		Happened = true
		Nested(f)
	}
	switch steps {
	case CrashAt:
		die()
	case TornAt:
		return true, nil
	case FailAt:
		Happened = true
		Failed = op
		return false, errIO
	}
	return false, nil
}

func die() {
	dead = true
	Happened = true
	panic(Killed{})
}

func change(path string) {
	if Writable != nil && !Writable(path) && Outside == "" {
		Outside = path
	}
}

func abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	return cwd + "/" + p
}

// walk resolves a path to the directory holding it and its last name; links are followed.
func walk(p string) (parent *node, name string, n *node, err error) { return resolve(p, true) }

// lwalk is like walk but does not follow a link that the whole path names.
func lwalk(p string) (parent *node, name string, n *node, err error) { return resolve(p, false) }

func resolve(p string, follow bool) (parent *node, name string, n *node, err error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	var stack []*node
	var names []string
	cur := root
	parts := strings.Split(abs(p), "/")
	for i := 0; i < len(parts); i++ {
		s := parts[i]
		if s == "" || s == "." {
			if i == len(parts)-1 && i > 0 && cur != nil && !cur.dir {
				return nil, "", nil, syscall.ENOTDIR
			}
			continue
		}
		if cur == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if !cur.dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if s == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				names = names[:len(names)-1]
			}
			continue
		}
		j := cur.find(s)
		if j >= 0 && cur.kid[j].link != "" && (follow || i < len(parts)-1) {
			l := cur.kid[j].link
			if l[0] == '/' {
				cur, stack, names = root, nil, nil
			}
			parts = append(strings.Split(l, "/"), parts[i+1:]...)
			if i = -1; len(parts) > 64 {
				return nil, "", nil, syscall.ELOOP
			}
			continue
		}
		stack = append(stack, cur)
		names = append(names, s)
		if j >= 0 {
			cur = cur.kid[j]
		} else {
			cur = nil
		}
	}
	if len(stack) == 0 {
		return nil, "", cur, nil
	}
	return stack[len(stack)-1], names[len(names)-1], cur, nil
}

// clean is the absolute path without dots and links.
func clean(p string) string {
	var r []string
	at := []*node{root} // nil: nothing there
	parts := strings.Split(abs(p), "/")
	for i := 0; i < len(parts); i++ {
		cur := at[len(at)-1]
		switch s := parts[i]; s {
		case "", ".":
		case "..":
			if len(r) > 0 {
				r = r[:len(r)-1]
				at = at[:len(at)-1]
			}
		default:
			var n *node
			if cur != nil && cur.dir {
				if j := cur.find(s); j >= 0 {
					n = cur.kid[j]
				}
			}
			if n != nil && n.link != "" && len(parts) < 64 {
				if n.link[0] == '/' {
					r, at = nil, []*node{root}
				}
				parts = append(strings.Split(n.link, "/"), parts[i+1:]...)
				i = -1
				continue
			}
			r = append(r, s)
			at = append(at, n)
		}
	}
	return "/" + strings.Join(r, "/")
}

func perr(op, path string, err error) error { return &PathError{Op: op, Path: path, Err: err} }

// --- what the harness looks at

// Put writes a file without a step; directories are made as needed.
func Put(path string, data []byte) {
	d := mkAll(clean(path), true)
	d.put(base(path), &node{data: append([]byte{}, data...), mode: 0o600})
}

// PutDir makes a directory without a step.
func PutDir(path string) { mkAll(clean(path)+"/x", true) }

// PutLink makes a symbolic link without a step.
func PutLink(path, target string) {
	d := mkAll(clean(path), true)
	d.put(base(path), &node{link: target, mode: fs.ModeSymlink | 0o777})
}

// Drop removes a file or a directory without a step.
func Drop(path string) {
	p, name, n, err := lwalk(path)
	if err == nil && n != nil {
		p.del(name)
	}
}

func base(p string) string { p = clean(p); return p[strings.LastIndex(p, "/")+1:] }

func mkAll(p string, parentOnly bool) *node {
	cur := root
	ss := strings.Split(p, "/")
	for _, s := range ss[:len(ss)-1] {
		if s == "" {
			continue
		}
		i := cur.find(s)
		if i < 0 {
			cur.put(s, &node{dir: true, mode: fs.ModeDir | 0o755})
			i = cur.find(s)
		}
		cur = cur.kid[i]
	}
	return cur
}

// Get is the contents of a file.
func Get(path string) ([]byte, bool) {
	_, _, n, err := walk(path)
	if err != nil || n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Exists tells whether there is something at the path.
func Exists(path string) bool {
	_, _, n, err := walk(path)
	return err == nil && n != nil
}

// Names lists a directory.
func Names(path string) []string {
	_, _, n, err := walk(path)
	if err != nil || n == nil {
		return nil
	}
	return append([]string{}, n.name...)
}

// Chdir changes the working directory without a step.
func Chdir(path string) error { cwd = clean(path); return nil }

// Same compares the contents of two snapshots.
type Snap struct {
	Paths []string
	Data  [][]byte
}

// Take is a snapshot of everything below a path.
func Take(path string) Snap {
	var s Snap
	_, _, n, err := walk(path)
	if err == nil && n != nil {
		s.add(clean(path), n)
	}
	return s
}

func (s *Snap) add(p string, n *node) {
	s.Paths = append(s.Paths, p)
	s.Data = append(s.Data, append([]byte{}, n.data...))
	for i := range n.name {
		s.add(p+"/"+n.name[i], n.kid[i])
	}
}

// --- files

type File struct {
	name   string
	path   string
	n      *node
	off    int
	flag   int
	closed bool
	std    int
	proc   int
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
	Args   = []string{"neojhat"}

	// SizeIs, if not negative, is the size files claim to have.
	SizeIs = -1
	// Chunk, if not 0, is the most a read delivers.
	Chunk int

	// Room, if not negative, is how many bytes the standard output still takes. The write that
	// does not fit fails: it takes half of it if Half is set, and nothing otherwise. If Once is
	// set the standard output then takes everything again.
	Room       = -1
	Half, Once bool
	Refused    bool // a write did not fit
	NoRoom     error

	// StderrText collects what is written to the standard error.
	StderrText []byte
	// Slow makes the standard error a place where the scheduler may switch.
	Slow bool
)

func NewFile(fd uintptr, name string) *File { return &File{name: name, std: int(fd) + 1} }

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if _, err := step("open", clean(name), false); err != nil {
		return nil, perr("open", name, err)
	}
	d, b, n, err := walk(name)
	if err != nil {
		return nil, perr("open", name, err)
	}
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	if n == nil {
		if flag&O_CREATE == 0 || d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if strings.HasSuffix(name, "/") {
			return nil, perr("open", name, syscall.EISDIR)
		}
		change(clean(name))
		n = &node{mode: perm}
		d.put(b, n)
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && acc != O_RDONLY {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&O_TRUNC != 0 && acc != O_RDONLY {
			change(clean(name))
			n.data = nil
		}
	}
	return &File{name: name, path: clean(name), n: n, flag: flag, proc: proc}, nil
}

func (f *File) ok(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	if f.proc != proc && f.std == 0 {
		return perr(op, f.name, syscall.EBADF)
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr { return uintptr(100) }

func (f *File) Read(p []byte) (int, error) {
	if f.std != 0 {
		return ros.Stdin.Read(p)
	}
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	n, err := f.readAt(p, f.off)
	f.off += n
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, syscall.EINVAL)
	}
	n := 0
	for n < len(p) {
		k, err := f.readAt(p[n:], int(off)+n)
		if err != nil {
			return n, err
		}
		n += k
	}
	return n, nil
}

func (f *File) readAt(p []byte, off int) (int, error) {
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if _, err := step("read", f.path, true); err != nil {
		return 0, perr("read", f.name, err)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if off >= len(f.n.data) {
		return 0, io.EOF
	}
	if Chunk > 0 && len(p) > Chunk {
		p = p[:Chunk]
	}
	return copy(p, f.n.data[off:]), nil
}

func (f *File) Write(p []byte) (int, error) {
	switch f.std {
	case 2:
		if Room >= 0 && len(p) > 0 {
			if len(p) > Room {
				Room, Refused = 0, true
				if Once {
					Room = -1
				}
				n := 0
				if Half {
					n, _ = ros.Stdout.Write(p[:len(p)/2])
				}
				return n, perr("write", f.name, NoRoom)
			}
			Room -= len(p)
		}
		return ros.Stdout.Write(p)
	case 3:
		if Slow {
			sym.Yield()
		}
		StderrText = append(StderrText, p...)
		return len(p), nil
	}
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	off := f.off
	if f.flag&O_APPEND != 0 {
		off = len(f.n.data)
	}
	n, err := f.writeAt(p, off)
	f.off = off + n
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	return f.writeAt(p, int(off))
}

func (f *File) writeAt(p []byte, off int) (int, error) {
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	torn, err := step("write", f.path, true)
	if err != nil {
		err = perr("write", f.name, NoRoom)
	}
	if torn || err != nil {
		f.store(p[:len(p)/2], off)
		if torn {
			die()
		}
		return len(p) / 2, err
	}
	f.store(p, off)
	return len(p), nil
}

func (f *File) store(p []byte, off int) {
	if len(p) == 0 {
		return
	}
	change(f.path)
	d := f.n.data
	for len(d) < off+len(p) {
		d = append(d, make([]byte, off+len(p)-len(d))...)
	}
	copy(d[off:], p)
	f.n.data = d
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(onlyWriter{f}, r)
}

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	if _, err := step("seek", f.path, true); err != nil {
		return 0, perr("seek", f.name, err)
	}
	n := int(offset)
	switch whence {
	case 0:
	case 1:
		n += f.off
	case 2:
		n += len(f.n.data)
	default:
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	if n < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = n
	return int64(n), nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	if dead {
		return nil
	}
	if err := f.ok("close"); err != nil {
		return err
	}
	f.closed = true
	if f.flag&(O_WRONLY|O_RDWR) != 0 {
		if _, err := step("close", f.path, false); err != nil {
			return perr("close", f.name, err)
		}
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	if _, err := step("sync", f.path, false); err != nil {
		return perr("sync", f.name, err)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	if _, err := step("truncate", f.path, false); err != nil {
		return perr("truncate", f.name, err)
	}
	change(f.path)
	for len(f.n.data) < int(size) {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:size]
	return nil
}

func (f *File) Chmod(mode FileMode) error { return f.ok("chmod") }

func (f *File) Stat() (FileInfo, error) {
	if f.std != 0 {
		return &info{name: f.name, n: &node{mode: 0o600}}, nil
	}
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	if _, err := step("fstat", f.path, false); err != nil {
		return nil, perr("stat", f.name, err)
	}
	return &info{base(f.name), f.n}, nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.ok("readdir"); err != nil {
		return nil, err
	}
	return list(f.n), nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	if err := f.ok("readdir"); err != nil {
		return nil, err
	}
	return append([]string{}, f.n.name...), nil
}

type info struct {
	name string
	n    *node
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64 {
	if SizeIs >= 0 {
		return int64(SizeIs)
	}
	if i.n.dir {
		return 4096
	}
	return int64(len(i.n.data))
}
func (i *info) Mode() FileMode          { return i.n.mode }
func (i *info) ModTime() time.Time      { return time.Time{} }
func (i *info) IsDir() bool             { return i.n.dir }
func (i *info) Sys() any                { return nil }
func (i *info) Type() FileMode          { return i.n.mode & fs.ModeDir }
func (i *info) Info() (FileInfo, error) { return i, nil }
func (i *info) String() string          { return i.name }

func list(n *node) []DirEntry {
	var r []DirEntry
	for i, s := range n.name {
		j := len(r)
		for j > 0 && r[j-1].Name() > s {
			j--
		}
		r = append(r, nil)
		copy(r[j+1:], r[j:])
		r[j] = &info{s, n.kid[i]}
	}
	return r
}

// --- the rest of the package

func Stat(name string) (FileInfo, error)  { return stat("stat", name) }
func Lstat(name string) (FileInfo, error) { return stat("lstat", name) }

func stat(op, name string) (FileInfo, error) {
	if _, err := step("stat", clean(name), false); err != nil {
		return nil, perr(op, name, err)
	}
	_, _, n, err := resolve(name, op == "stat")
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr(op, name, err)
	}
	return &info{base(name), n}, nil
}

func SameFile(a, b FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.n == y.n
}

func Mkdir(name string, perm FileMode) error {
	if _, err := step("mkdir", clean(name), false); err != nil {
		return perr("mkdir", name, err)
	}
	d, b, n, err := lwalk(name)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err == nil && d == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("mkdir", name, err)
	}
	change(clean(name))
	d.put(b, &node{dir: true, mode: fs.ModeDir | perm})
	return nil
}

func MkdirAll(path string, perm FileMode) error {
	if fi, err := Stat(path); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	p := clean(path)
	cur := ""
	for _, s := range strings.Split(p, "/") {
		if s == "" {
			continue
		}
		cur += "/" + s
		if !Exists(cur) {
			if err := Mkdir(cur, perm); err != nil {
				return err
			}
		}
	}
	return nil
}

func tempName(pattern string) (string, string) {
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i], pattern[i+1:]
	}
	return pattern, ""
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.Contains(pattern, "/") {
		return "", perr("mkdirtemp", pattern, ErrInvalid)
	}
	a, b := tempName(pattern)
	for {
		temps++
		p := join(dir, a+digits(4096+temps)+b)
		err := Mkdir(p, 0o700)
		if err != nil && Exists(p) && IsExist(err) {
			continue
		}
		if err != nil {
			return "", err
		}
		return p, nil
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.Contains(pattern, "/") {
		return nil, perr("createtemp", pattern, ErrInvalid)
	}
	a, b := tempName(pattern)
	for {
		temps++
		f, err := OpenFile(join(dir, a+digits(4096+temps)+b), O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

func join(dir, name string) string {
	if len(dir) > 0 && dir[len(dir)-1] == '/' {
		return dir + name
	}
	return dir + "/" + name
}

func digits(n int) string {
	var b []byte
	for ; n > 0; n /= 10 {
		b = append([]byte{byte('0' + n%10)}, b...)
	}
	return string(b)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if _, err := step("read", f.path, true); err != nil {
		return nil, perr("read", name, err)
	}
	if f.n.dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, f.n.data...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	if _, err := step("readdir", clean(name), false); err != nil {
		return nil, perr("open", name, err)
	}
	_, _, n, err := walk(name)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !n.dir {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	return list(n), nil
}

func Rename(oldpath, newpath string) error {
	fail := func(err error) error { return &ros.LinkError{Op: "rename", Old: oldpath, New: newpath, Err: err} }
	if _, err := step("rename", clean(oldpath), false); err != nil {
		return fail(err)
	}
	d1, b1, n1, err := lwalk(oldpath)
	if err == nil && n1 == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return fail(err)
	}
	d2, b2, n2, err := lwalk(newpath)
	if err == nil && d2 == nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return fail(err)
	}
	if n1 == n2 {
		return nil
	}
	if n2 != nil {
		switch {
		case n2.dir:
			return fail(syscall.EEXIST)
		case n1.dir:
			return fail(syscall.ENOTDIR)
		}
	}
	if !n1.dir && strings.HasSuffix(newpath, "/") {
		return fail(syscall.ENOTDIR)
	}
	if n1.dir && strings.HasPrefix(clean(newpath)+"/", clean(oldpath)+"/") {
		return fail(syscall.EINVAL)
	}
	change(clean(oldpath))
	change(clean(newpath))
	d1.del(b1)
	d2.put(b2, n1)
	return nil
}

func Remove(name string) error {
	if _, err := step("remove", clean(name), false); err != nil {
		return perr("remove", name, err)
	}
	d, b, n, err := lwalk(name)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && n.dir && len(n.kid) > 0 {
		err = syscall.ENOTEMPTY
	}
	if err != nil {
		return perr("remove", name, err)
	}
	change(clean(name))
	d.del(b)
	return nil
}

// RemoveAll removes the entries one by one, each a step.
func RemoveAll(path string) error {
	if dead {
		return nil
	}
	d, b, n, err := lwalk(path)
	if err != nil || n == nil {
		if _, err := step("removeall", clean(path), false); err != nil {
			return perr("unlinkat", path, err)
		}
		return nil
	}
	for n.dir && len(n.kid) > 0 {
		if err := RemoveAll(path + "/" + n.name[0]); err != nil {
			return err
		}
	}
	if _, err := step("removeall", clean(path), false); err != nil {
		return perr("unlinkat", path, err)
	}
	if i := d.find(b); i < 0 || d.kid[i] != n {
		return nil
	}
	change(clean(path))
	d.del(b)
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, mode FileMode) error {
	_, err := Stat(name)
	return err
}

func Exit(code int)                       { panic(Exited{code}) }
func Getpid() int                         { return proc }
func Getenv(key string) string            { return "" }
func LookupEnv(key string) (string, bool) { return "", false }
func TempDir() string                     { return "/tmp" }
func Getwd() (string, error)              { return clean("."), nil }

func Chown(name string, uid, gid int) error             { return Chmod(name, 0) }
func Lchown(name string, uid, gid int) error            { return Chmod(name, 0) }
func Chtimes(name string, atime, mtime time.Time) error { return Chmod(name, 0) }
func Readlink(name string) (string, error) {
	if _, err := step("readlink", name, false); err != nil {
		return "", perr("readlink", name, err)
	}
	_, _, n, err := lwalk(name)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && n.link == "" {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return n.link, nil
}

func Symlink(oldname, newname string) error {
	fail := func(err error) error { return &LinkError{Op: "symlink", Old: oldname, New: newname, Err: err} }
	if _, err := step("symlink", newname, false); err != nil {
		return fail(err)
	}
	d, b, n, err := lwalk(newname)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err == nil && (d == nil || oldname == "") {
		err = syscall.ENOENT
	}
	if err != nil {
		return fail(err)
	}
	change(clean(newname))
	d.put(b, &node{link: oldname, mode: fs.ModeSymlink | 0o777})
	return nil
}
func Link(oldname, newname string) error {
	return &LinkError{Op: "link", Old: oldname, New: newname, Err: syscall.EPERM}
}
