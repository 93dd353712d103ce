// Package simos stands in for package os in the table generator. All state
// lives in one in-memory file system with a fault plan; one goroutine uses it
// at a time.
package simos

import (
	"fmt"
	"io"
	"io/fs"
	realos "os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/rng"
)

// Fault is one planned fault. It fires once, unless Times says otherwise.
type Fault struct {
	Kind  string `json:"kind"`            // see the constants
	Path  string `json:"path,omitempty"`  // suffix of the file concerned
	Off   int    `json:"off,omitempty"`   // byte offset (read/write faults) or operation number (kill)
	Errno string `json:"errno,omitempty"` // the error, if not the usual one
	Times int    `json:"times,omitempty"` // how often it fires, if not once
}

// Errnos are the errors that real systems give, by name.
var Errnos = map[string]error{
	"EIO": syscall.EIO, "ESTALE": syscall.ESTALE, "ETIMEDOUT": syscall.ETIMEDOUT, "EAGAIN": syscall.EAGAIN, "EINTR": syscall.EINTR, "ENOMEM": syscall.ENOMEM,
	"ENXIO": syscall.ENXIO, "deadline": realos.ErrDeadlineExceeded, "EACCES": syscall.EACCES, "EPERM": syscall.EPERM, "EROFS": syscall.EROFS, "ENOSPC": syscall.ENOSPC,
	"EDQUOT": syscall.EDQUOT, "EFBIG": syscall.EFBIG, "EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EXDEV": syscall.EXDEV, "EBUSY": syscall.EBUSY, "EINVAL": syscall.EINVAL,
	"ENOTSUP": syscall.ENOTSUP, "ELOOP": syscall.ELOOP, "ENOENT": syscall.ENOENT, "EEXIST": syscall.EEXIST, "ENOTDIR": syscall.ENOTDIR, "EPIPE": syscall.EPIPE, "ENODEV": syscall.ENODEV,
}

func (f Fault) err(usual error) error {
	if e, ok := Errnos[f.Errno]; ok {
		return e
	}
	return usual
}

const (
	OpenENOENT  = "open-enoent"
	OpenEMFILE  = "open-emfile"
	OpenEACCES  = "open-eacces"
	ReadEIO     = "read-eio"      // fails at offset, delivering nothing of that read
	ReadPartEIO = "read-part-eio" // delivers the bytes before the offset together with the error
	CreateFail  = "create-fail"
	WriteENOSPC = "write-enospc" // bytes before the offset reach the disk
	WriteEIO    = "write-eio"    // nothing of that write reaches the disk
	CloseEIO    = "close-eio"    // of a file open for writing; the tail (from Off) of its data is lost
	SyncEIO     = "sync-eio"
	RenameFail  = "rename-fail"
	OpenFail    = "open-fail"
	StatFail    = "stat-fail"
	RemoveFail  = "remove-fail"
	MetaFail    = "meta-fail"  // chmod, mkdir, link, truncate
	KillOp      = "kill"       // before operation number Off
	KillMut     = "kill-mut"   // before operation number Off, not counting reads
	KillWrite   = "kill-write" // in the middle of a write, after Off bytes of the file
)

// End ends the simulated process: with an exit status, or killed. It does not
// return; no deferred function of the code under test runs.
var End func(code int, killed bool)

func (s *FS) kill() {
	s.dead = true
	End(137, true)
	panic("unreachable")
}

// FS is the simulated machine.
type FS struct {
	Files    map[string][]byte
	Faults   []Fault
	fired    []int
	ReadMode int // 0: as asked; 1: random short reads; 2: tiny reads
	Rng      *rng.R
	Ops      int
	OpCount  map[string]int
	FiredBy  map[string]int
	Open     int // handles not closed
	dead     bool
	Stderr   strings.Builder
	Stdout   strings.Builder
	tmp      int
	Digest   uint64
	handles  []*File
	muts     int
	dirs     map[string]bool
	Cwd      string
	Seed     uint64
	Pid      int // added to the usual process id
	mtimes   map[string]int64
}

// Finish is what the kernel does when the process has ended: it closes what
// is open, and nobody learns of errors.
func (s *FS) Finish() {
	for _, f := range s.handles {
		if !f.closed {
			s.closeFault(f)
		}
	}
}

// closeFault applies a planned close failure: the tail of the data is lost.
func (s *FS) closeFault(f *File) bool {
	if !f.write {
		return false
	}
	i := s.match(f.path, CloseEIO)
	if i < 0 {
		return false
	}
	s.fire(i)
	if b := s.Files[f.path]; s.Faults[i].Off < len(b) {
		s.Files[f.path] = append([]byte(nil), b[:s.Faults[i].Off]...)
	}
	return true
}

var Cur *FS

// mu lets code with goroutines of its own use the machine; one operation
// happens at a time. An ending process never releases it.
var mu sync.Mutex

func locked() func() { mu.Lock(); return mu.Unlock }

func NewFS() *FS {
	return &FS{dirs: map[string]bool{}, Files: map[string][]byte{}, OpCount: map[string]int{}, FiredBy: map[string]int{}, Rng: rng.New(1)}
}

func key(p string) string {
	if !filepath.IsAbs(p) && Cur != nil && Cur.Cwd != "" {
		p = filepath.Join(Cur.Cwd, p)
	}
	p = filepath.Clean(p)
	if p == "/sim" {
		return "."
	}
	return strings.TrimPrefix(p, "/sim/")
}

func (s *FS) cwd() string {
	if s.Cwd == "" {
		return "/sim"
	}
	return s.Cwd
}

// isDir knows the directories: those of files, those made, and a few.
func (s *FS) isDir(p string) bool {
	if p == "." || p == "/" || p == "/tmp" || p == "/dev" || s.dirs[p] {
		return true
	}
	for k := range s.Files {
		if strings.HasPrefix(k, p+"/") {
			return true
		}
	}
	return false
}

func (s *FS) log(op, path string, n int) {
	s.Digest = (s.Digest ^ rng.Str(op) ^ rng.Str(path) ^ uint64(n)) * 1099511628211
}

// op accounts for one operation and applies kill faults.
func (s *FS) op(kind, path string) {
	n := s.Ops
	s.Ops++
	s.OpCount[kind]++
	s.log(kind, path, n)
	m := -1
	if kind != "read" {
		m = s.muts
		s.muts++
	}
	for i, f := range s.Faults {
		if (f.Kind == KillOp && f.Off == n || f.Kind == KillMut && f.Off == m) && !s.isFired(i) {
			s.fire(i)
			s.kill()
		}
	}
}

func (s *FS) isFired(i int) bool { return i < len(s.fired) && s.fired[i] >= max(1, s.Faults[i].Times) }
func (s *FS) fire(i int) {
	for len(s.fired) < len(s.Faults) {
		s.fired = append(s.fired, 0)
	}
	s.fired[i]++
	s.FiredBy[s.Faults[i].Kind]++
}

// match finds an unfired fault of one of the kinds for the path.
func (s *FS) match(path string, kinds ...string) int {
	for i, f := range s.Faults {
		if s.isFired(i) || !strings.HasSuffix(path, f.Path) {
			continue
		}
		for _, k := range kinds {
			if f.Kind == k {
				return i
			}
		}
	}
	return -1
}

// mtime is when a file was last written: in some order for those that were
// there at the start, and after all of them for what the process writes.
func (s *FS) mtime(p string) int64 {
	if t, ok := s.mtimes[p]; ok {
		return t
	}
	return 1700000000 + int64((rng.Str(p)^s.Seed*0x9e3779b97f4a7c15)%10_000_000)
}

func (s *FS) touch(p string) {
	if s.mtimes == nil {
		s.mtimes = map[string]int64{}
	}
	s.mtimes[p] = 1720000000 + int64(s.Ops)
}

// refused applies a planned failure of an operation on a name.
func (s *FS) refused(kind, op, name string) error {
	i := s.match(key(name), kind)
	if i < 0 {
		return nil
	}
	s.fire(i)
	return perr(op, name, s.Faults[i].err(syscall.EIO))
}

func perr(op, path string, e error) error { return &fs.PathError{Op: op, Path: path, Err: e} }

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
	LinkError = realos.LinkError
)

var (
	ErrNotExist         = fs.ErrNotExist
	ErrExist            = fs.ErrExist
	ErrPermission       = fs.ErrPermission
	ErrClosed           = fs.ErrClosed
	ErrInvalid          = fs.ErrInvalid
	ErrDeadlineExceeded = realos.ErrDeadlineExceeded
	Args                = []string{"generate"}
	Stdin               = &File{s: nil, std: 3}
	Stdout              = &File{std: 1}
	Stderr              = &File{std: 2}
)

const (
	O_RDONLY = realos.O_RDONLY
	O_WRONLY = realos.O_WRONLY
	O_RDWR   = realos.O_RDWR
	O_APPEND = realos.O_APPEND
	O_CREATE = realos.O_CREATE
	O_EXCL   = realos.O_EXCL
	O_SYNC   = realos.O_SYNC
	O_TRUNC  = realos.O_TRUNC

	ModePerm          = fs.ModePerm
	PathSeparator     = '/'
	PathListSeparator = ':'
)

// File is an open handle.
type File struct {
	s      *FS
	name   string
	path   string
	off    int
	write  bool
	read   bool
	app    bool
	closed bool
	dir    bool
	std    int
}

func Exit(code int) {
	mu.Lock()
	End(code, false)
	panic("unreachable")
}
func Hostname() (string, error) { return "sim", nil }
func Getwd() (string, error)    { return Cur.cwd(), nil }
func Getpid() int               { return 4242 + Cur.Pid }
func IsNotExist(err error) bool { return realos.IsNotExist(err) }
func IsExist(err error) bool    { return realos.IsExist(err) }
func TempDir() string           { return "/tmp" }

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	defer locked()()
	s := Cur
	p := key(name)
	write := flag&(O_WRONLY|O_RDWR) != 0
	if write {
		s.op("create", p)
	} else {
		s.op("open", p)
	}
	if write {
		if i := s.match(p, CreateFail); i >= 0 {
			s.fire(i)
			return nil, perr("open", name, s.Faults[i].err(syscall.EACCES))
		}
	}
	if i := s.match(p, OpenENOENT, OpenEMFILE, OpenEACCES, OpenFail); i >= 0 && !write {
		s.fire(i)
		e := map[string]error{OpenENOENT: syscall.ENOENT, OpenEMFILE: syscall.EMFILE, OpenEACCES: syscall.EACCES, OpenFail: syscall.EIO}[s.Faults[i].Kind]
		return nil, perr("open", name, s.Faults[i].err(e))
	}
	if p == DevNull {
		f := &File{s: s, name: name, path: p, std: 4}
		return f, nil
	}
	_, ok := s.Files[p]
	if !ok && s.isDir(p) {
		if write {
			return nil, perr("open", name, syscall.EISDIR)
		}
		s.Open++
		f := &File{s: s, name: name, path: p, dir: true}
		s.handles = append(s.handles, f)
		return f, nil
	}
	if !ok && flag&O_CREATE != 0 && !s.isDir(filepath.Dir(p)) {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !ok && flag&O_CREATE == 0 {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if ok && flag&O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if !ok || flag&O_TRUNC != 0 {
		s.Files[p] = []byte{}
		s.touch(p)
	}
	s.Open++
	f := &File{s: s, name: name, path: p, write: write, read: flag&O_WRONLY == 0, app: flag&O_APPEND != 0}
	s.handles = append(s.handles, f)
	return f, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	s := Cur
	pre, suf, ok := strings.Cut(pattern, "*")
	if !ok {
		suf = ""
	}
	if dir == "" {
		dir = "/tmp"
	}
	for try := 0; ; try++ {
		s.tmp++
		name := filepath.Join(dir, fmt.Sprintf("%s%06d%s", pre, s.tmp, suf))
		if f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600); err == nil || !IsExist(err) || try > 9999 {
			return f, err
		}
	}
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 99 }

func (f *File) Read(b []byte) (int, error) {
	defer locked()()
	if f.std != 0 {
		return 0, io.EOF
	}
	if f.closed {
		return 0, perr("read", f.name, ErrClosed)
	}
	s := f.s
	s.op("read", f.path)
	if f.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if !f.read {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	data := s.Files[f.path]
	n := len(data) - f.off
	if n > len(b) {
		n = len(b)
	}
	if n > 1 {
		switch s.ReadMode {
		case 1:
			n = 1 + s.Rng.N(n)
		case 2:
			n = 1 + s.Rng.N(min(n, 7))
		}
	}
	if i := s.match(f.path, ReadEIO, ReadPartEIO); i >= 0 {
		flt := s.Faults[i]
		if flt.Off <= f.off+max(n, 0) {
			s.fire(i)
			k := 0
			if flt.Kind == ReadPartEIO && flt.Off > f.off {
				k = flt.Off - f.off
				copy(b, data[f.off:f.off+k])
				f.off += k
			}
			return k, perr("read", f.name, flt.err(syscall.EIO))
		}
	}
	if n <= 0 {
		return 0, io.EOF
	}
	copy(b, data[f.off:f.off+n])
	f.off += n
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	defer locked()()
	switch f.std {
	case 1:
		return Cur.Stdout.Write(b)
	case 2:
		return Cur.Stderr.Write(b)
	case 3:
		return 0, perr("write", f.name, syscall.EBADF)
	case 4:
		return len(b), nil
	}
	if f.closed {
		return 0, perr("write", f.name, ErrClosed)
	}
	s := f.s
	s.op("write", f.path)
	if !f.write {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if f.app {
		f.off = len(s.Files[f.path])
	}
	put := func(k int) {
		s.touch(f.path)
		old := s.Files[f.path]
		if f.off == len(old) {
			s.Files[f.path] = append(old, b[:k]...)
			f.off += k
			return
		}
		nb := append([]byte(nil), old...)
		if f.off > len(nb) {
			nb = append(nb, make([]byte, f.off-len(nb))...)
		}
		nb = append(nb[:f.off:f.off], b[:k]...)
		if f.off+k < len(old) {
			nb = append(nb, old[f.off+k:]...)
		}
		s.Files[f.path] = nb
		f.off += k
	}
	if i := s.match(f.path, WriteENOSPC, WriteEIO, KillWrite); i >= 0 {
		flt := s.Faults[i]
		if flt.Off <= f.off+len(b) {
			k := flt.Off - f.off
			if k < 0 {
				k = 0
			}
			s.fire(i)
			switch flt.Kind {
			case WriteENOSPC:
				put(k)
				return k, perr("write", f.name, flt.err(syscall.ENOSPC))
			case WriteEIO:
				return 0, perr("write", f.name, flt.err(syscall.EIO))
			case KillWrite:
				put(k)
				s.kill()
			}
		}
	}
	put(len(b))
	return len(b), nil
}

func (f *File) WriteString(x string) (int, error) { return f.Write([]byte(x)) }
func (f *File) Sync() error {
	defer locked()()
	if f.std != 0 {
		return nil
	}
	f.s.op("sync", f.path)
	if i := f.s.match(f.path, SyncEIO); i >= 0 {
		f.s.fire(i)
		return perr("sync", f.name, f.s.Faults[i].err(syscall.EIO))
	}
	return nil
}
func (f *File) Chmod(m FileMode) error {
	defer locked()()
	f.s.op("chmod", f.path)
	if e := f.s.refused(MetaFail, "chmod", f.name); e != nil {
		return e
	}
	return nil
}
func (f *File) Truncate(n int64) error {
	defer locked()()
	f.s.op("truncate", f.path)
	f.s.touch(f.path)
	b := f.s.Files[f.path]
	if int(n) <= len(b) {
		f.s.Files[f.path] = append([]byte(nil), b[:n]...)
	} else {
		f.s.Files[f.path] = append(append([]byte(nil), b...), make([]byte, int(n)-len(b))...)
	}
	return nil
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	n := 0
	for n < len(b) {
		g := *f
		g.off = int(off) + n
		k, err := g.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	g := *f
	g.off = int(off)
	return g.Write(b)
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	defer locked()()
	switch whence {
	case io.SeekStart:
		f.off = int(off)
	case io.SeekCurrent:
		f.off += int(off)
	case io.SeekEnd:
		f.off = len(f.s.Files[f.path]) + int(off)
	}
	return int64(f.off), nil
}
func (f *File) Close() error {
	defer locked()()
	if f.std != 0 {
		return nil
	}
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	f.s.op("close", f.path)
	f.closed = true
	f.s.Open--
	if f.s.closeFault(f) {
		return perr("close", f.name, syscall.EIO)
	}
	return nil
}
func (f *File) Stat() (FileInfo, error) { return Stat(f.name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 8192)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Rename(a, b string) error {
	defer locked()()
	s := Cur
	s.op("rename", key(b))
	if i := s.match(key(b), RenameFail); i >= 0 {
		s.fire(i)
		return &realos.LinkError{Op: "rename", Old: a, New: b, Err: s.Faults[i].err(syscall.EIO)}
	}
	d, ok := s.Files[key(a)]
	if !ok {
		return &realos.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(s.Files, key(a))
	s.Files[key(b)] = d
	t := s.mtime(key(a))
	s.touch(key(b))
	s.mtimes[key(b)] = t
	delete(s.mtimes, key(a))
	for _, f := range s.handles { // an open file goes with its name
		if f.path == key(b) {
			f.path = "\x00unlinked/" + f.path
		}
		if f.path == key(a) {
			f.path = key(b)
		}
	}
	return nil
}

func Link(a, b string) error {
	defer locked()()
	s := Cur
	s.op("link", key(b))
	if i := s.match(key(b), MetaFail); i >= 0 {
		s.fire(i)
		return &realos.LinkError{Op: "link", Old: a, New: b, Err: s.Faults[i].err(syscall.EPERM)}
	}
	d, ok := s.Files[key(a)]
	if !ok {
		return &realos.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	if _, ok := s.Files[key(b)]; ok {
		return &realos.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	s.Files[key(b)] = append([]byte(nil), d...)
	s.touch(key(b))
	return nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Remove(name string) error {
	defer locked()()
	s := Cur
	s.op("remove", key(name))
	if e := s.refused(RemoveFail, "remove", name); e != nil {
		return e
	}
	if _, ok := s.Files[key(name)]; !ok {
		if p := key(name); s.dirs[p] {
			delete(s.dirs, p)
			if s.isDir(p) {
				s.dirs[p] = true
				return perr("remove", name, syscall.ENOTEMPTY)
			}
			return nil
		}
		return perr("remove", name, syscall.ENOENT)
	}
	delete(s.Files, key(name))
	return nil
}
func RemoveAll(name string) error {
	defer locked()()
	Cur.op("remove", key(name))
	if e := Cur.refused(RemoveFail, "remove", name); e != nil {
		return e
	}
	delete(Cur.dirs, key(name))
	for k := range Cur.Files {
		if k == key(name) || strings.HasPrefix(k, key(name)+"/") {
			delete(Cur.Files, k)
		}
	}
	return nil
}
func MkdirAll(name string, perm FileMode) error {
	defer locked()()
	Cur.op("mkdir", key(name))
	if e := Cur.refused(MetaFail, "mkdir", name); e != nil {
		return e
	}
	for p := key(name); !Cur.isDir(p); p = filepath.Dir(p) {
		Cur.dirs[p] = true
	}
	return nil
}
func Mkdir(name string, perm FileMode) error {
	defer locked()()
	p := key(name)
	Cur.op("mkdir", p)
	if e := Cur.refused(MetaFail, "mkdir", name); e != nil {
		return e
	}
	if _, ok := Cur.Files[p]; ok || Cur.isDir(p) {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if !Cur.isDir(filepath.Dir(p)) {
		return perr("mkdir", name, syscall.ENOENT)
	}
	Cur.dirs[p] = true
	return nil
}
func Chmod(name string, perm FileMode) error {
	defer locked()()
	Cur.op("chmod", key(name))
	if e := Cur.refused(MetaFail, "chmod", name); e != nil {
		return e
	}
	return nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }
func Stat(name string) (FileInfo, error) {
	defer locked()()
	s := Cur
	p := key(name)
	s.op("stat", p)
	if e := s.refused(StatFail, "stat", name); e != nil {
		return nil, e
	}
	b, ok := s.Files[p]
	if !ok {
		if s.isDir(p) {
			return info{p, 0, true, 1700000000}, nil
		}
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{p, int64(len(b)), false, s.mtime(p)}, nil
}
func ReadDir(name string) ([]DirEntry, error) {
	defer locked()()
	var names []string
	for k := range Cur.Files {
		if filepath.Dir(k) == key(name) {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	var out []DirEntry
	for _, n := range names {
		out = append(out, fs.FileInfoToDirEntry(info{n, int64(len(Cur.Files[n])), false, Cur.mtime(n)}))
	}
	return out, nil
}

type info struct {
	p   string
	n   int64
	dir bool
	t   int64
}

func (i info) Name() string { return filepath.Base(i.p) }
func (i info) Size() int64  { return i.n }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Unix(i.t, 0) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() any           { return nil }

// DirFS serves code that reads through io/fs.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(filepath.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}
