// Package os stands in for the standard os package under simulation: a
// simulated file system, standard streams and process identity.
package os

import (
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/vsim"
)

// Inode is one object of the simulated file system.
type Inode struct {
	Mode  FileMode
	Data  []byte
	Sock  any // the live socket bound here, if any
	Ino   int
	mtime time.Time
}

// FSys is the simulated file system: absolute or relative paths, compared
// after cleaning.
type FSys struct {
	M     map[string]*Inode
	next  int
	Fault func(op, path string) error // nil result: no fault
	Hook  func(op, path string)       // called before an operation takes effect
}

// FS returns the file system of the run in progress.
func FS() *FSys {
	s := vsim.Active()
	if s == nil {
		return &FSys{M: map[string]*Inode{}}
	}
	f, _ := s.Data["fs"].(*FSys)
	if f == nil {
		f = &FSys{M: map[string]*Inode{}}
		for _, d := range []string{"/", "/tmp", "/var", "/var/run", "/dev", "/run"} {
			f.Put(d, ModeDir|0o755, nil)
		}
		s.Data["fs"] = f
	}
	return f
}

func clean(p string) string { return path.Clean(p) }

func (f *FSys) Put(p string, m FileMode, data []byte) *Inode {
	f.next++
	n := &Inode{Mode: m, Data: data, Ino: f.next}
	f.M[clean(p)] = n
	return n
}

func (f *FSys) Get(p string) *Inode { return f.M[clean(p)] }
func (f *FSys) Del(p string)        { delete(f.M, clean(p)) }

// ParentOK tells whether the directory of p exists.
func (f *FSys) ParentOK(p string) bool {
	if !strings.Contains(p, "/") {
		return true
	}
	n := f.M[path.Dir(clean(p))]
	return n != nil && n.Mode.IsDir()
}

// Enter is called at the start of every file-system call: a scheduling point
// and a fault point.
func (f *FSys) Enter(op, p string) error {
	vsim.Y()
	s := vsim.Active()
	if f.Hook != nil {
		f.Hook(op, p)
	}
	if f.Fault != nil {
		if err := f.Fault(op, p); err != nil {
			s.Count("fault.fs_" + op)
			s.Ev("fs fault", op, p, err.Error())
			return err
		}
	}
	return nil
}

type info struct {
	name string
	n    *Inode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(len(i.n.Data)) }
func (i info) Mode() FileMode     { return i.n.Mode }
func (i info) ModTime() time.Time { return i.n.mtime }
func (i info) IsDir() bool        { return i.n.Mode.IsDir() }
func (i info) Sys() any           { return nil }

func stat(op, p string) (FileInfo, error) {
	f := FS()
	if err := f.Enter(op, p); err != nil {
		return nil, &fs.PathError{Op: op, Path: p, Err: err}
	}
	n := f.Get(p)
	if n == nil {
		return nil, &fs.PathError{Op: op, Path: p, Err: syscall.ENOENT}
	}
	return info{path.Base(p), n}, nil
}

func Stat(p string) (FileInfo, error)  { return stat("stat", p) }
func Lstat(p string) (FileInfo, error) { return stat("lstat", p) }

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

func Remove(p string) error {
	f := FS()
	if err := f.Enter("remove", p); err != nil {
		return &fs.PathError{Op: "remove", Path: p, Err: err}
	}
	n := f.Get(p)
	if n == nil {
		return &fs.PathError{Op: "remove", Path: p, Err: syscall.ENOENT}
	}
	if n.Mode.IsDir() {
		for k := range f.M {
			if path.Dir(k) == clean(p) && k != clean(p) {
				return &fs.PathError{Op: "remove", Path: p, Err: syscall.ENOTEMPTY}
			}
		}
	}
	f.Del(p)
	vsim.Active().Ev("fs remove", p)
	return nil
}

func RemoveAll(p string) error {
	f := FS()
	if err := f.Enter("remove", p); err != nil {
		return &fs.PathError{Op: "remove", Path: p, Err: err}
	}
	for k := range f.M {
		if k == clean(p) || strings.HasPrefix(k, clean(p)+"/") {
			delete(f.M, k)
		}
	}
	vsim.Active().Ev("fs removeall", p)
	return nil
}

func Rename(a, b string) error {
	f := FS()
	if err := f.Enter("rename", a); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	n := f.Get(a)
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	f.Del(a)
	f.M[clean(b)] = n
	vsim.Active().Ev("fs rename", a, b)
	return nil
}

func Chmod(p string, m FileMode) error {
	f := FS()
	if err := f.Enter("chmod", p); err != nil {
		return &fs.PathError{Op: "chmod", Path: p, Err: err}
	}
	if f.Get(p) == nil {
		return &fs.PathError{Op: "chmod", Path: p, Err: syscall.ENOENT}
	}
	return nil
}

// Paths lists the file system (for oracles).
func (f *FSys) Paths() []string {
	var l []string
	for k := range f.M {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Sink is where a simulated standard stream goes.
type Sink interface {
	Write(p []byte) (int, error)
}

// File is a simulated standard stream.
type File struct {
	name   string
	closed string // run identity in which it was closed
	Closed bool
	sim    *vsim.Sim
	Sink   Sink
}

func (f *File) state() {
	if s := vsim.Active(); f.sim != s {
		f.sim, f.Closed, f.Sink = s, false, nil
	}
}

// SetSink connects the stream for the run in progress.
func (f *File) SetSink(k Sink) { f.state(); f.Sink = k }

func (f *File) Write(p []byte) (int, error) {
	vsim.Y()
	f.state()
	if f.Closed {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: ErrClosed}
	}
	if f.Sink == nil {
		return len(p), nil
	}
	n, err := f.Sink.Write(p)
	if err != nil {
		err = &fs.PathError{Op: "write", Path: f.name, Err: err}
	}
	return n, err
}

func (f *File) WriteString(p string) (int, error) { return f.Write([]byte(p)) }

func (f *File) Close() error {
	vsim.Y()
	f.state()
	if f.Closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: ErrClosed}
	}
	f.Closed = true
	return nil
}

func (f *File) Read(p []byte) (int, error) { return 0, syscall.EINVAL }
func (f *File) Name() string               { return f.name }
func (f *File) Sync() error                { vsim.Y(); return nil }
func (f *File) Fd() uintptr                { return ^uintptr(0) }

var (
	Stdin  = &File{name: "/dev/stdin"}
	Stdout = &File{name: "/dev/stdout"}
	Stderr = &File{name: "/dev/stderr"}
)

// HostnameValue and HostnameErr are what Hostname returns.
var (
	HostnameValue = "simhost.example"
	HostnameErr   error
)

func Hostname() (string, error) { return HostnameValue, HostnameErr }
func Getpid() int               { return 4242 }
func Getppid() int              { return 1 }
func Getenv(string) string      { return "" }
func LookupEnv(string) (string, bool) {
	return "", false
}
func Exit(code int) { panic(vsim.CrashError("os.Exit called")) }
