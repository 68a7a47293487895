// Package simos is package os over an in-memory, fault-injecting file system
// with simulated standard streams and process exit.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Fault makes one file-system call fail. A fault applies to the Nth call
// (1-based) of operation Op on a path with suffix Path ("" = any).
type Fault struct {
	Op   string `json:"op"`             // open create read write close stat readfile
	Path string `json:"path,omitempty"` // suffix match
	Nth  int    `json:"nth"`
	Err  string `json:"err"`            // EIO ENOSPC EACCES EMFILE ENOENT
	Part int    `json:"part,omitempty"` // bytes transferred before the failure (read/write), or lost by it (close)
	Keep bool   `json:"keep,omitempty"` // the condition persists from then on
	Off  int    `json:"off,omitempty"`  // for op "readat" and "writeat": the byte offset at which a read or write fails (once, or always with Keep)
}

// Event is one file-system call as seen by the simulated kernel.
type Event struct {
	Seq    int    `json:"seq"`
	Tick   uint64 `json:"tick"`
	Op     string `json:"op"`
	Path   string `json:"path"`
	Handle int    `json:"h,omitempty"`
	N      int    `json:"n,omitempty"`
	Err    string `json:"err,omitempty"`
	Fault  bool   `json:"fault,omitempty"`
}

type inode struct {
	data []byte
	dir  bool
	perm fs.FileMode
	mod  int64
	more int64  // bytes of a sparse tail
	link string // a symbolic link to this
}

type state struct {
	nodes    map[string]*inode
	faults   []Fault
	hits     []int
	Log      []Event
	handles  int
	capacity int // bytes free on the disk, -1 = unlimited
	chunks   []int
	chunkPos int
	Fired    map[string]int
	exited   bool
	std      [3]*File
}

var (
	st    = &state{}
	disks []*state // one per simulated task, if they do not share one
)

// cur is the state that the running task sees.
//
//go:norace
func cur() *state {
	if disks != nil {
		if t := simrt.TaskID(); t >= 0 && t < len(disks) {
			return disks[t]
		}
	}
	return st
}

// NewDisk makes an empty disk the current one and returns it.
func NewDisk(faults []Fault, chunks []int) any {
	st = &state{nodes: map[string]*inode{"/": {dir: true}, Cwd: {dir: true}}, faults: faults,
		hits: make([]int, len(faults)), capacity: -1, chunks: chunks, Fired: map[string]int{}, std: [3]*File{
			{name: "/dev/stdin", kind: 'i', ino: &inode{}, id: -1},
			{name: "/dev/stdout", kind: 'o', ino: &inode{}, id: -2},
			{name: "/dev/stderr", kind: 'o', ino: &inode{}, id: -3}}}
	return st
}

// UseDisk makes a disk the current one.
func UseDisk(d any) { st = d.(*state) }

// SetDisks gives every task its own disk; nil ends that.
func SetDisks(ds []any) {
	disks = nil
	for _, d := range ds {
		disks = append(disks, d.(*state))
	}
}

const Cwd = "/w"

var (
	Stdin  = &File{name: "/dev/stdin"}
	Stdout = &File{name: "/dev/stdout"}
	Stderr = &File{name: "/dev/stderr"}
	Args   = []string{"prog"}
	env    = map[string]string{}
)

// ExitPanic carries the exit status of a simulated process.
type ExitPanic struct{ Code int }

func Exit(code int) {
	cur().exited = true
	panic(ExitPanic{code})
}

// ---- harness side ----

// Reset creates an empty disk containing only the working directory.
func Reset(faults []Fault, capacity int, chunks []int) {
	NewDisk(faults, chunks)
	st.capacity = capacity
	Stdin = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
	Args = []string{"prog"}
	env = map[string]string{}
}
func SetStdin(data string)         { Stdin.real().ino.data = []byte(data) }
func Log() []Event                 { return cur().Log }
func Fired() map[string]int        { return cur().Fired }
func SetFaults(f []Fault)          { cur().faults, cur().hits = f, make([]int, len(f)) }
func Faults() []Fault              { return cur().faults }
func SetCapacity(n int)            { cur().capacity = n }
func Put(name string, data string) { cur().nodes[abs(name)] = &inode{data: []byte(data)} }
func Del(name string)              { delete(cur().nodes, abs(name)) }
func PutDir(name string)           { cur().nodes[abs(name)] = &inode{dir: true} }

// PutSparse gives a file a tail of n bytes that is not stored.
func PutSparse(name string, n int64) { cur().nodes[abs(name)].more = n }

// PutLink makes a symbolic link.
func PutLink(name, target string) { cur().nodes[abs(name)] = &inode{link: target} }

// walk resolves a name as the kernel does: through every directory and link on
// the way, and through the last one if follow is set or the name ends with /.
func (s *state) walk(name string, follow bool) (string, error) {
	if name == "" {
		return "", syscall.ENOENT
	}
	if !strings.HasPrefix(name, "/") {
		name = Cwd + "/" + name
	}
	at, rest, links := "/", strings.Split(name, "/"), 0
	for len(rest) > 0 {
		c := rest[0]
		rest = rest[1:]
		if n := s.nodes[at]; n == nil {
			return abs(name), syscall.ENOENT
		} else if !n.dir {
			return abs(name), syscall.ENOTDIR
		}
		switch c {
		case "", ".":
			continue
		case "..":
			at = path.Dir(at)
			continue
		}
		next := path.Join(at, c)
		if n := s.nodes[next]; n != nil && n.link != "" && (follow || len(rest) > 0) {
			if links++; links > 40 {
				return abs(name), syscall.ELOOP
			}
			rest = append(strings.Split(n.link, "/"), rest...)
			if strings.HasPrefix(n.link, "/") {
				at = "/"
			}
			continue
		}
		at = next
	}
	return at, nil
}

// Leads tells where a name leads to, if anything is there.
func Leads(name string) (string, bool) {
	p, err := cur().walk(name, true)
	return p, err == nil && cur().nodes[p] != nil
}

// Exists tells if a name exists, be it a link to nowhere.
func Exists(name string) bool {
	p, err := cur().walk(name, false)
	return err == nil && cur().nodes[p] != nil
}

// SizeOf tells what the simulated kernel has under a name: its size, or -1 for
// a directory, or -2 for nothing.
func SizeOf(name string) int64 {
	n, ok := cur().nodes[abs(name)]
	switch {
	case !ok || name == "":
		return -2
	case n.dir:
		return -1
	}
	return int64(len(n.data)) + n.more
}

// Tree describes the whole disk.
func Tree() string {
	var r []string
	for k, n := range cur().nodes {
		t := "d"
		if !n.dir {
			t = string(n.data)
		}
		if n.link != "" {
			t = "->" + n.link
		}
		r = append(r, k+"\x00"+t)
	}
	sort.Strings(r)
	return strings.Join(r, "\x01")
}

// Entries lists the names of files and directories.
func Entries() []string {
	var r []string
	for k := range cur().nodes {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func Output(f *File) string { return string(f.real().ino.data) }
func Abs(p string) string   { return abs(p) }
func Get(name string) (string, bool) {
	n, ok := cur().nodes[abs(name)]
	if !ok || n.dir {
		return "", false
	}
	return string(n.data), true
}
func Names() []string {
	var r []string
	for k, n := range cur().nodes {
		if !n.dir && n.link == "" {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// OpenHandles counts handles opened and not closed.
func OpenHandles() int {
	open := map[int]bool{}
	for _, e := range cur().Log {
		switch e.Op {
		case "open", "create":
			if e.Handle > 0 {
				open[e.Handle] = true
			}
		case "close":
			delete(open, e.Handle)
		}
	}
	return len(open)
}

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return path.Clean(p)
}

var errnos = map[string]error{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "ENOENT": syscall.ENOENT, "EISDIR": syscall.EISDIR, "EBADF": syscall.EBADF, "EPIPE": syscall.EPIPE,
	"EAGAIN": syscall.EAGAIN, "unexpected EOF": io.ErrUnexpectedEOF, "closed pipe": io.ErrClosedPipe, "no progress": io.ErrNoProgress, "closed": fs.ErrClosed,
	"timeout": os.ErrDeadlineExceeded, "short buffer": io.ErrShortBuffer}

// Errno returns the error value the simulated kernel uses for a name.
func Errno(name string) error { return errnos[name] }

func (s *state) fault(op, p string) *Fault {
	var r *Fault
	for i := range s.faults {
		f := &s.faults[i]
		if f.Op != op || (f.Path != "" && !strings.HasSuffix(p, f.Path)) {
			continue
		}
		s.hits[i]++
		if r == nil && (s.hits[i] == f.Nth || (f.Keep && s.hits[i] > f.Nth)) {
			r = f
			s.Fired[op+":"+f.Err]++
		}
	}
	return r
}

func (s *state) log(op, p string, h, n int, err error, f bool) {
	e := Event{Seq: len(s.Log), Tick: simrt.Ticks(), Op: op, Path: p, Handle: h, N: n, Fault: f}
	if err != nil {
		e.Err = err.Error()
	}
	s.Log = append(s.Log, e)
}

func pe(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// ---- os API ----

type File struct {
	name   string
	path   string
	kind   byte // 'f' file, 'd' directory, 'i' input, 'o' output
	ino    *inode
	id     int
	pos    int64
	flag   int
	closed bool
	std    int // standard stream of the running process
}

// real is the stream of the running process that a standard stream stands for.
//
//go:norace
func (f *File) real() *File {
	if f != nil && f.std > 0 {
		if r := cur().std[f.std-1]; r != nil {
			return r
		}
	}
	return f
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p, werr := cur().walk(name, true)
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if f := cur().fault(op, p); f != nil {
		err := pe("open", name, errnos[f.Err])
		cur().log(op, p, 0, 0, err, true)
		return nil, err
	}
	n, ok := cur().nodes[p]
	var err error
	switch {
	case werr != nil:
		err = pe("open", name, werr)
	case !ok && flag&os.O_CREATE == 0:
		err = pe("open", name, syscall.ENOENT)
	case !ok:
		d, ok := cur().nodes[path.Dir(p)]
		if !ok {
			err = pe("open", name, syscall.ENOENT)
		} else if !d.dir {
			err = pe("open", name, syscall.ENOTDIR)
		}
	case n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0:
		err = pe("open", name, syscall.EISDIR)
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		err = pe("open", name, syscall.EEXIST)
	}
	if err != nil {
		cur().log(op, p, 0, 0, err, false)
		return nil, err
	}
	if !ok {
		n = &inode{perm: perm}
		cur().nodes[p] = n
	}
	n.mod = simrt.Now()
	if flag&os.O_TRUNC != 0 {
		if cur().capacity >= 0 {
			cur().capacity += len(n.data)
		}
		n.data = nil
	}
	cur().handles++
	f := &File{name: name, path: p, kind: 'f', ino: n, id: cur().handles, flag: flag}
	if n.dir {
		f.kind = 'd'
	}
	cur().log(op, p, f.id, 0, nil, false)
	return f, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f == Stdin {
		return 0
	}
	return 1
}

func (f *File) chunk(n int) int {
	if len(cur().chunks) == 0 || n <= 1 {
		return n
	}
	c := cur().chunks[cur().chunkPos%len(cur().chunks)]
	cur().chunkPos++
	if c < 1 {
		c = 1
	}
	if c < n {
		cur().Fired["short-read"]++
		return c
	}
	return n
}

func (f *File) Read(b []byte) (int, error) {
	f = f.real()
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, pe("read", f.name, os.ErrClosed)
	}
	if f.kind == 'd' {
		return 0, pe("read", f.name, syscall.EISDIR)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, pe("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	avail := len(f.ino.data) - int(f.pos)
	if avail < 0 {
		avail = 0
	}
	n := f.chunk(len(b))
	if n > avail {
		n = avail
	}
	for i := range cur().faults {
		ft := &cur().faults[i]
		if ft.Op != "readat" || !strings.HasSuffix(f.path+f.stdname(), ft.Path) || (cur().hits[i] > 0 && !ft.Keep) {
			continue
		}
		if int(f.pos) == ft.Off {
			cur().hits[i]++
			cur().Fired["read:"+ft.Err]++
			err := pe("read", f.name, errnos[ft.Err])
			cur().log("read", f.path, f.id, 0, err, true)
			return 0, err
		}
		if int(f.pos) < ft.Off && int(f.pos)+n > ft.Off {
			n = ft.Off - int(f.pos)
		}
	}
	if ft := cur().fault("read", f.path+f.stdname()); ft != nil {
		k := ft.Part
		if k > n {
			k = n
		}
		if k > 0 { // the bytes before the error arrive; the error comes with the next call
			copy(b, f.ino.data[f.pos:int(f.pos)+k])
			f.pos += int64(k)
			for i := range cur().faults {
				if &cur().faults[i] == ft {
					cur().hits[i]--
					cur().faults[i].Part = 0
				}
			}
			cur().Fired["read:"+ft.Err]--
			return k, nil
		}
		err := pe("read", f.name, errnos[ft.Err])
		cur().log("read", f.path, f.id, 0, err, true)
		return 0, err
	}
	if n == 0 {
		return 0, io.EOF
	}
	copy(b, f.ino.data[f.pos:int(f.pos)+n])
	f.pos += int64(n)
	return n, nil
}

func (f *File) stdname() string {
	if f.path == "" {
		return f.name
	}
	return ""
}

func (f *File) Write(b []byte) (int, error) {
	f = f.real()
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, pe("write", f.name, os.ErrClosed)
	}
	if f.kind == 'f' && f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, pe("write", f.name, syscall.EBADF)
	}
	n := len(b)
	var err error
	ft := cur().fault("write", f.path+f.stdname())
	if ft != nil {
		if ft.Part < n {
			n = ft.Part
		} else {
			n = len(b) - 1
		}
		if n < 0 {
			n = 0
		}
		err = pe("write", f.name, errnos[ft.Err])
	}
	at := len(f.ino.data)
	if f.kind == 'f' && f.flag&os.O_APPEND == 0 {
		at = int(f.pos)
	}
	for i := range cur().faults {
		w := &cur().faults[i]
		if w.Op != "writeat" || !strings.HasSuffix(f.path+f.stdname(), w.Path) || (cur().hits[i] > 0 && !w.Keep) {
			continue
		}
		if at <= w.Off && at+n > w.Off {
			n = w.Off - at
			err = pe("write", f.name, errnos[w.Err])
			cur().hits[i]++
			cur().Fired["write:"+w.Err]++
			ft = w
		}
	}
	if f.kind == 'f' && cur().capacity >= 0 && n > cur().capacity {
		n = cur().capacity
		err = pe("write", f.name, syscall.ENOSPC)
		cur().Fired["disk-full"]++
	}
	if cur().exited {
		return len(b), nil
	}
	if f.kind == 'o' || f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.ino.data))
	}
	old := len(f.ino.data)
	for int64(len(f.ino.data)) < f.pos {
		f.ino.data = append(f.ino.data, 0)
	}
	k := copy(f.ino.data[f.pos:], b[:n])
	f.ino.data = append(f.ino.data, b[k:n]...)
	f.pos += int64(n)
	if f.kind == 'f' && cur().capacity >= 0 {
		cur().capacity -= len(f.ino.data) - old
	}
	cur().log("write", f.path+f.stdname(), f.id, n, err, ft != nil)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	f = f.real()
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	f = f.real()
	save := f.pos
	f.pos = off
	n, err := f.Write(b)
	f.pos = save
	return n, err
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	f = f.real()
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, pe("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}
func (f *File) Truncate(n int64) error {
	f = f.real()
	for int64(len(f.ino.data)) < n {
		f.ino.data = append(f.ino.data, 0)
	}
	f.ino.data = f.ino.data[:n]
	return nil
}
func (f *File) Sync() error {
	if ft := cur().fault("sync", f.path); ft != nil {
		return pe("sync", f.name, errnos[ft.Err])
	}
	return nil
}
func (f *File) Chmod(fs.FileMode) error          { return nil }
func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) Stat() (fs.FileInfo, error) {
	f = f.real()
	if f.closed {
		return nil, pe("stat", f.name, os.ErrClosed)
	}
	return info{path.Base(f.name), f.ino}, nil
}
func (f *File) Close() error {
	f = f.real()
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		err := pe("close", f.name, os.ErrClosed)
		cur().log("reclose", f.path, f.id, 0, err, false)
		return err
	}
	f.closed = true
	if ft := cur().fault("close", f.path); ft != nil {
		if n := len(f.ino.data); ft.Part > 0 && f.flag&(os.O_WRONLY|os.O_RDWR) != 0 { // delayed writing fails
			f.ino.data = f.ino.data[:n-min2(ft.Part, n)]
		}
		err := pe("close", f.name, errnos[ft.Err])
		cur().log("close", f.path, f.id, 0, err, true)
		return err
	}
	cur().log("close", f.path, f.id, 0, nil, false)
	return nil
}

type info struct {
	name string
	n    *inode
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.data)) + i.n.more }
func (i info) Mode() fs.FileMode {
	if i.n.link != "" {
		return fs.ModeSymlink | 0o777
	}
	if i.n.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time         { return time.Unix(0, i.n.mod) }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func Stat(name string) (fs.FileInfo, error)  { return stat("stat", name, true) }
func Lstat(name string) (fs.FileInfo, error) { return stat("lstat", name, false) }
func stat(op, name string, follow bool) (fs.FileInfo, error) {
	p, err := cur().walk(name, follow)
	if f := cur().fault("stat", p); f != nil {
		err := pe(op, name, errnos[f.Err])
		cur().log(op, p, 0, 0, err, true)
		return nil, err
	}
	if err != nil {
		return nil, pe(op, name, err)
	}
	n, ok := cur().nodes[p]
	if !ok {
		return nil, pe(op, name, syscall.ENOENT)
	}
	return info{path.Base(name), n}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func Remove(name string) error {
	p, err := cur().walk(name, false)
	if err != nil {
		return pe("remove", name, err)
	}
	if _, ok := cur().nodes[p]; !ok {
		return pe("remove", name, syscall.ENOENT)
	}
	delete(cur().nodes, p)
	return nil
}
func RemoveAll(name string) error {
	p := abs(name)
	for k := range cur().nodes {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(cur().nodes, k)
		}
	}
	return nil
}
func Rename(a, b string) error {
	n, ok := cur().nodes[abs(a)]
	if !ok {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(cur().nodes, abs(a))
	cur().nodes[abs(b)] = n
	return nil
}
func Mkdir(name string, perm fs.FileMode) error    { PutDir(name); return nil }
func MkdirAll(name string, perm fs.FileMode) error { PutDir(name); return nil }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	f.Truncate(n)
	return f.Close()
}
func ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := cur().walk(name, true)
	if err != nil {
		return nil, pe("open", name, err)
	}
	if n, ok := cur().nodes[p]; !ok {
		return nil, pe("open", name, syscall.ENOENT)
	} else if !n.dir {
		return nil, pe("readdirent", name, syscall.ENOTDIR)
	}
	var r []fs.DirEntry
	for k, n := range cur().nodes {
		if k != "/" && path.Dir(k) == p {
			r = append(r, info{path.Base(k), n})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r, nil
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	f = f.real()
	all, err := ReadDir(f.path)
	if err != nil {
		return nil, err
	}
	at := int(f.pos)
	if at > len(all) {
		at = len(all)
	}
	all = all[at:]
	if n > 0 && len(all) == 0 {
		return nil, io.EOF
	}
	if n > 0 && n < len(all) {
		all = all[:n]
	}
	f.pos += int64(len(all))
	return all, nil
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	var r []fs.FileInfo
	es, err := f.ReadDir(n)
	for _, e := range es {
		r = append(r, e.(info))
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	var r []string
	es, err := f.ReadDir(n)
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; ; i++ {
		name := fmt.Sprint(pattern, i)
		if k := strings.LastIndexByte(pattern, '*'); k >= 0 {
			name = fmt.Sprint(pattern[:k], i, pattern[k+1:])
		}
		name = path.Join(dir, name)
		if !Exists(name) {
			return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		}
	}
}
func Symlink(target, name string) error         { PutLink(name, target); return nil }
func Chmod(name string, perm fs.FileMode) error { return nil }
func Chtimes(name string, a, m time.Time) error { return nil }
func Chdir(name string) error                   { return pe("chdir", name, syscall.EACCES) }
func DirFS(dir string) fs.FS                    { return simFS(false) }
func Unsetenv(k string) error                   { delete(env, k); return nil }
func Clearenv()                                 { env = map[string]string{} }
func ExpandEnv(s string) string                 { return os.Expand(s, Getenv) }
func Hostname() (string, error)                 { return "sim", nil }
func UserHomeDir() (string, error)              { return Cwd, nil }
func Executable() (string, error)               { return "/bin/prog", nil }
func Getpid() int                               { return 7 }
func Environ() []string {
	var r []string
	for k, v := range env {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}
func Getwd() (string, error)   { return Cwd, nil }
func Getenv(k string) string   { return env[k] }
func Setenv(k, v string) error { env[k] = v; return nil }
func LookupEnv(k string) (string, bool) {
	v, ok := env[k]
	return v, ok
}
func TempDir() string { return "/w" }

// AsFS presents the simulated disk as an io/fs file system.
func AsFS(root bool) fs.FS { return simFS(root) }

type simFS bool

func (s simFS) full(name string) string {
	if s {
		return abs("/" + name)
	}
	return abs(name)
}

type fsFile struct{ *File }

func (s simFS) Open(name string) (fs.File, error) {
	n, ok := cur().nodes[s.full(name)]
	if !ok {
		return nil, pe("open", name, fs.ErrNotExist)
	}
	return fsFile{&File{name: name, path: s.full(name), kind: 'f', ino: n}}, nil
}
func (s simFS) Stat(name string) (fs.FileInfo, error)      { return Stat(s.full(name)) }
func (s simFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(s.full(name)) }

var ErrNotImplemented = errors.New("not simulated")

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}
