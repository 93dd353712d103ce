package simos

// The rest of the surface of package os, so that whatever a file-to-file
// generator calls compiles and acts on the simulated machine only. What has no
// meaning there (processes, owners, links) is refused as a kernel would.

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	realos "os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

const (
	DevNull  = "/dev/null"
	SEEK_SET = io.SeekStart
	SEEK_CUR = io.SeekCurrent
	SEEK_END = io.SeekEnd

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
)

type (
	SyscallError = realos.SyscallError
	Signal       = realos.Signal
	Process      = realos.Process
	ProcessState = realos.ProcessState
	ProcAttr     = realos.ProcAttr
)

var (
	ErrNoDeadline  = realos.ErrNoDeadline
	ErrNoHandle    = errors.New("handle is not available")
	ErrProcessDone = realos.ErrProcessDone
	Interrupt      = realos.Interrupt
	Kill           = realos.Kill
)

func refuse(op, name string) error { return perr(op, name, syscall.EPERM) }

var environ = map[string]string{}

func Setenv(k, v string) error { environ[k] = v; return nil }
func Unsetenv(k string) error  { delete(environ, k); return nil }
func Clearenv()                { clear(environ) }
func Environ() []string        { return nil }
func Getenv(k string) string   { return environ[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := environ[k]
	return v, ok
}
func Expand(s string, m func(string) string) string { return realos.Expand(s, m) }
func ExpandEnv(s string) string                     { return realos.Expand(s, Getenv) }
func Executable() (string, error)                   { return "/bin/generate", nil }
func FindProcess(pid int) (*Process, error)         { return nil, syscall.ESRCH }
func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	return nil, refuse("fork/exec", name)
}
func Getuid() int                               { return 1000 }
func Geteuid() int                              { return 1000 }
func Getgid() int                               { return 1000 }
func Getegid() int                              { return 1000 }
func Getppid() int                              { return 1 }
func Getpagesize() int                          { return 4096 }
func Getgroups() ([]int, error)                 { return nil, nil }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func IsPermission(err error) bool               { return realos.IsPermission(err) }
func IsTimeout(err error) bool                  { return realos.IsTimeout(err) }
func NewSyscallError(s string, err error) error { return realos.NewSyscallError(s, err) }
func UserHomeDir() (string, error)              { return "/home/sim", nil }
func UserCacheDir() (string, error)             { return "/home/sim/.cache", nil }
func UserConfigDir() (string, error)            { return "/home/sim/.config", nil }
func Chown(name string, uid, gid int) error     { defer locked()(); Cur.op("chown", key(name)); return nil }
func Lchown(name string, uid, gid int) error {
	defer locked()()
	Cur.op("chown", key(name))
	return nil
}
func Chtimes(name string, a, m time.Time) error {
	defer locked()()
	Cur.op("chtimes", key(name))
	Cur.touch(key(name))
	Cur.mtimes[key(name)] = m.Unix()
	return nil
}
func Readlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }
func Symlink(a, b string) error {
	return &realos.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Pipe() (*File, *File, error) { return nil, nil, NewSyscallError("pipe2", syscall.EMFILE) }
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func Chdir(dir string) error {
	Cur.op("chdir", key(dir))
	if !filepath.IsAbs(dir) {
		dir = filepath.Join(Cur.cwd(), dir)
	}
	Cur.Cwd = filepath.Clean(dir)
	return nil
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf, _ := strings.Cut(pattern, "*")
	Cur.tmp++
	d := filepath.Join(dir, fmt.Sprintf("%s%06d%s", pre, Cur.tmp, suf))
	return d, Mkdir(d, 0o700)
}

func SameFile(a, b FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.p == y.p
}

func CopyFS(dir string, fsys fs.FS) error {
	return fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := fs.ReadFile(fsys, p)
		if err != nil {
			return err
		}
		return WriteFile(filepath.Join(dir, p), b, 0o666)
	})
}

func (f *File) Chdir() error                          { return Chdir(f.name) }
func (f *File) Chown(uid, gid int) error              { defer locked()(); f.s.op("chown", f.path); return nil }
func (f *File) SetDeadline(t time.Time) error         { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error     { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error    { return ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, ErrInvalid }
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	l, err := ReadDir(f.name)
	l = l[min(f.off, len(l)):]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		l = l[:min(n, len(l))]
	}
	f.off += len(l)
	return l, err
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var o []FileInfo
	for _, e := range l {
		i, _ := e.Info()
		o = append(o, i)
	}
	return o, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var o []string
	for _, e := range l {
		o = append(o, e.Name())
	}
	return o, err
}

// only hides other methods from package io.
type onlyW struct{ io.Writer }
type onlyR struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyW{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyR{f}) }

// Root is a directory handle.
type Root struct{ dir string }

func OpenRoot(name string) (*Root, error) {
	if fi, err := Stat(name); err != nil {
		return nil, err
	} else if !fi.IsDir() {
		return nil, perr("open", name, syscall.ENOTDIR)
	}
	return &Root{name}, nil
}
func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}
func (r *Root) at(name string) string { return filepath.Join(r.dir, filepath.Join("/", name)) }
func (r *Root) Name() string          { return r.dir }
func (r *Root) Close() error          { return nil }
func (r *Root) FS() fs.FS             { return DirFS(r.dir) }
func (r *Root) Open(name string) (*File, error) {
	return Open(r.at(name))
}
func (r *Root) Create(name string) (*File, error) { return Create(r.at(name)) }
func (r *Root) OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return OpenFile(r.at(name), flag, perm)
}
func (r *Root) OpenRoot(name string) (*Root, error)  { return OpenRoot(r.at(name)) }
func (r *Root) ReadFile(name string) ([]byte, error) { return ReadFile(r.at(name)) }
func (r *Root) WriteFile(name string, b []byte, perm FileMode) error {
	return WriteFile(r.at(name), b, perm)
}
func (r *Root) Rename(a, b string) error                  { return Rename(r.at(a), r.at(b)) }
func (r *Root) Link(a, b string) error                    { return Link(r.at(a), r.at(b)) }
func (r *Root) Symlink(a, b string) error                 { return Symlink(a, b) }
func (r *Root) Readlink(name string) (string, error)      { return Readlink(r.at(name)) }
func (r *Root) Remove(name string) error                  { return Remove(r.at(name)) }
func (r *Root) RemoveAll(name string) error               { return RemoveAll(r.at(name)) }
func (r *Root) Mkdir(name string, perm FileMode) error    { return Mkdir(r.at(name), perm) }
func (r *Root) MkdirAll(name string, perm FileMode) error { return MkdirAll(r.at(name), perm) }
func (r *Root) Stat(name string) (FileInfo, error)        { return Stat(r.at(name)) }
func (r *Root) Lstat(name string) (FileInfo, error)       { return Lstat(r.at(name)) }
func (r *Root) Chmod(name string, m FileMode) error       { return Chmod(r.at(name), m) }
func (r *Root) Chown(name string, u, g int) error         { return Chown(r.at(name), u, g) }
func (r *Root) Lchown(name string, u, g int) error        { return Chown(r.at(name), u, g) }
func (r *Root) Chtimes(name string, a, m time.Time) error { return Chtimes(r.at(name), a, m) }
