// Package os stands in for the standard package: a simulated file system,
// terminal, environment and process. Nothing here reaches the real ones.
package os

import (
	"errors"
	"helena/verifsim/rt"
	"io"
	"io/fs"
	real "os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Sim is the simulated machine. The harness replaces it for each run.
type Sim struct {
	Files map[string]*Node
	Dir   string
	Out   strings.Builder
	Err   strings.Builder
	// Fault may fail or shorten a read: it gives the data actually delivered
	Fault     func(op, path string, data []byte) ([]byte, error)
	Env       map[string]string
	Denied    []string // destructive calls refused
	OutBroken bool
}

// ReadError is a fault that strikes when part of the data has been read.
type ReadError struct{ syscall.Errno }
type Node struct {
	Data []byte
	Dir  bool
	Err  error // every access fails
}

var S = &Sim{Files: map[string]*Node{}, Dir: "/sim"}

var (
	Stdin  = &File{name: "/dev/stdin", std: 0}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
	Args   = []string{"helena"}
)

func abs(p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	return filepath.Join(S.Dir, p)
}

type File struct {
	name string
	data []byte
	pos  int
	std  int
	node *Node
	err  error // at the end of the data
}

func fail(op, path string, err error) error { return &real.PathError{Op: op, Path: path, Err: err} }

func (s *Sim) open(op, path string) ([]byte, error) {
	n := s.Files[abs(path)]
	if path == "" || n == nil {
		return nil, fail(op, path, syscall.ENOENT)
	}
	if n.Err != nil {
		return nil, fail(op, path, n.Err)
	}
	if n.Dir {
		return nil, fail("read", path, syscall.EISDIR)
	}
	data := append([]byte{}, n.Data...)
	if s.Fault != nil {
		d, err := s.Fault(op, abs(path), data)
		if err == syscall.EISDIR {
			return nil, fail("read", path, err)
		}
		if x, is := err.(ReadError); is {
			return d, fail("read", path, x.Errno)
		}
		if err != nil {
			// what was read before the failure
			return d, fail(op, path, err)
		}
		data = d
	}
	return data, nil
}

func ReadFile(path string) ([]byte, error) { return S.open("open", path) }
func Open(path string) (*File, error) {
	d, err := S.open("open", path)
	if x, is := err.(*real.PathError); is && x.Op == "read" {
		// opened, but not read to its end
		return &File{name: path, data: d, std: -1, err: err}, nil
	}
	if err != nil {
		return nil, err
	}
	return &File{name: path, data: d, std: -1, node: S.Files[abs(path)]}, nil
}
func OpenFile(path string, flag int, perm real.FileMode) (*File, error) {
	if flag&(real.O_WRONLY|real.O_RDWR|real.O_CREATE|real.O_TRUNC|real.O_APPEND) != 0 {
		return nil, deny("open", path)
	}
	return Open(path)
}

func (f *File) Name() string { return f.name }
func (f *File) Read(b []byte) (int, error) {
	if f.std >= 0 {
		return 0, io.EOF
	}
	if f.pos >= len(f.data) {
		if f.err != nil {
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := len(b)
	if n > len(f.data)-f.pos {
		n = len(f.data) - f.pos
	}
	// a short read is always allowed
	if n > 1 && rt.Cur().C.Is(rt.Fault, 3) {
		n = 1 + rt.Cur().C.N(rt.Fault, n)
	}
	copy(b[:n], f.data[f.pos:])
	f.pos += n
	return n, nil
}
func (f *File) Write(b []byte) (int, error) {
	switch f.std {
	case 1:
		if S.OutBroken {
			return 0, fail("write", f.name, syscall.EIO)
		}
		S.Out.Write(b)
	case 2:
		S.Err.Write(b)
	default:
		return 0, fail("write", f.name, syscall.EBADF)
	}
	return len(b), nil
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	end := io.EOF
	if f.err != nil {
		end = f.err
	}
	if off >= int64(len(f.data)) {
		return 0, end
	}
	n := copy(b, f.data[off:])
	if n < len(b) {
		return n, end
	}
	return n, nil
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, fail("seek", f.name, syscall.EINVAL)
	}
	f.pos = int(off)
	return off, nil
}
func (f *File) Close() error { return nil }
func (f *File) Sync() error  { return nil }
func (f *File) Fd() uintptr  { return uintptr(f.std + 1000) }
func (f *File) Stat() (real.FileInfo, error) {
	if f.std >= 0 {
		return info{f.name, &Node{}}, nil
	}
	return info{f.name, &Node{Data: f.data}}, nil
}
func (f *File) Truncate(int64) error { return deny("truncate", f.name) }

type info struct {
	name string
	n    *Node
}

func (i info) Name() string { return filepath.Base(i.name) }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode {
	if i.n.Dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Unix(1e9, 0) }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }

func Stat(path string) (real.FileInfo, error) {
	n := S.Files[abs(path)]
	if n == nil {
		for p := range S.Files {
			if strings.HasPrefix(p, abs(path)+"/") {
				return info{path, &Node{Dir: true}}, nil
			}
		}
		return nil, fail("stat", path, syscall.ENOENT)
	}
	return info{path, n}, nil
}
func Lstat(path string) (real.FileInfo, error) { return Stat(path) }

type entry struct{ info }

func (e entry) Type() fs.FileMode          { return e.Mode().Type() }
func (e entry) Info() (fs.FileInfo, error) { return e.info, nil }
func ReadDir(path string) ([]real.DirEntry, error) {
	out := []real.DirEntry{}
	ks := []string{}
	for p := range S.Files {
		if filepath.Dir(p) == abs(path) {
			ks = append(ks, p)
		}
	}
	sort.Strings(ks)
	for _, p := range ks {
		out = append(out, entry{info{p, S.Files[p]}})
	}
	if len(ks) == 0 {
		return nil, fail("open", path, syscall.ENOENT)
	}
	return out, nil
}

func Getwd() (string, error) { return S.Dir, nil }
func Exit(code int)          { panic(rt.Exit{Code: code}) }
func Getenv(k string) string { return S.Env[k] }
func LookupEnv(k string) (string, bool) {
	v, is := S.Env[k]
	return v, is
}
func Environ() []string              { return nil }
func Hostname() (string, error)      { return "sim", nil }
func Getpid() int                    { return 1000 }
func TempDir() string                { return "/tmp" }
func UserHomeDir() (string, error)   { return "/sim/home", nil }
func UserCacheDir() (string, error)  { return "/sim/home/.cache", nil }
func UserConfigDir() (string, error) { return "/sim/home/.config", nil }
func Executable() (string, error)    { return "/sim/bin/helena", nil }
func DirFS(dir string) fs.FS         { return dirFS(dir) }

type dirFS string
type fsFile struct{ *File }

func (f fsFile) Stat() (fs.FileInfo, error) { return f.File.Stat() }
func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(filepath.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return fsFile{f}, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error) {
	return ReadFile(filepath.Join(string(d), name))
}

// Calls that would change the machine are refused and recorded.
func deny(op, path string) error {
	S.Denied = append(S.Denied, op+" "+path)
	return fail(op, path, syscall.EROFS)
}

var errDenied = errors.New("refused by the simulator")

func WriteFile(path string, _ []byte, _ real.FileMode) error { return deny("open", path) }
func Create(path string) (*File, error)                      { return nil, deny("open", path) }
func Remove(path string) error                               { return deny("remove", path) }
func RemoveAll(path string) error                            { return deny("remove", path) }
func Rename(a, b string) error                               { return deny("rename", a) }
func Mkdir(p string, _ real.FileMode) error                  { return deny("mkdir", p) }
func MkdirAll(p string, _ real.FileMode) error               { return deny("mkdir", p) }
func MkdirTemp(d, p string) (string, error)                  { return "", deny("mkdir", d) }
func CreateTemp(d, p string) (*File, error)                  { return nil, deny("open", d) }
func Chmod(p string, _ real.FileMode) error                  { return deny("chmod", p) }
func Chown(p string, _, _ int) error                         { return deny("chown", p) }
func Lchown(p string, _, _ int) error                        { return deny("chown", p) }
func Chtimes(p string, _, _ time.Time) error                 { return deny("chtimes", p) }
func Chdir(p string) error                                   { return deny("chdir", p) }
func Link(a, b string) error                                 { return deny("link", a) }
func Symlink(a, b string) error                              { return deny("symlink", a) }
func Truncate(p string, _ int64) error                       { return deny("truncate", p) }
func Readlink(p string) (string, error)                      { return "", fail("readlink", p, syscall.EINVAL) }
func Setenv(k, v string) error                               { return errDenied }
func Unsetenv(k string) error                                { return errDenied }
func Clearenv()                                              {}
func Pipe() (*File, *File, error)                            { return nil, nil, errDenied }
func CopyFS(d string, _ fs.FS) error                         { return deny("copy", d) }
func FindProcess(int) (*real.Process, error)                 { return nil, errDenied }
func StartProcess(string, []string, *real.ProcAttr) (*real.Process, error) {
	return nil, errDenied
}
func NewFile(fd uintptr, name string) *File { return &File{name: name, std: int(fd)} }
