// Package simos stands in for package os in the code under test. Reading goes
// to the simulated disk; everything that would change the real system is
// refused and recorded.
package simos

import (
	"io"
	"io/fs"
	real "os"
	"syscall"
	"time"

	"verif.local/simrt/disk"
)

// File is a file on the simulated disk.
type File struct {
	h    *disk.Handle
	name string
}

var (
	Stdin  = &File{name: "/dev/stdin"}
	Stdout = &File{name: "/dev/stdout"}
	Stderr = &File{name: "/dev/stderr"}
)

func Open(name string) (*File, error) {
	h, err := disk.Open(name)
	if err != nil {
		return nil, err
	}
	return &File{h: h, name: name}, nil
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if flag&(real.O_WRONLY|real.O_RDWR|real.O_CREATE|real.O_TRUNC|real.O_APPEND) != 0 {
		return nil, disk.Denied("open", name)
	}
	return Open(name)
}

func Create(name string) (*File, error)                    { return nil, disk.Denied("create", name) }
func CreateTemp(dir, pattern string) (*File, error)        { return nil, disk.Denied("create", pattern) }
func NewFile(fd uintptr, name string) *File                { return &File{name: name} }
func ReadFile(name string) ([]byte, error)                 { return disk.ReadFile(name) }
func Stat(name string) (fs.FileInfo, error)                { return disk.Stat(name) }
func Lstat(name string) (fs.FileInfo, error)               { return disk.Stat(name) }
func WriteFile(name string, _ []byte, _ fs.FileMode) error { return disk.Denied("write", name) }
func Remove(name string) error                             { return disk.Denied("remove", name) }
func RemoveAll(name string) error                          { return disk.Denied("remove", name) }
func Rename(a, b string) error                             { return disk.Denied("rename", a) }
func Truncate(name string, _ int64) error                  { return disk.Denied("truncate", name) }
func Mkdir(name string, _ fs.FileMode) error               { return disk.Denied("mkdir", name) }
func MkdirAll(name string, _ fs.FileMode) error            { return disk.Denied("mkdir", name) }
func MkdirTemp(dir, pattern string) (string, error)        { return "", disk.Denied("mkdir", pattern) }
func Link(a, b string) error                               { return disk.Denied("link", a) }
func Symlink(a, b string) error                            { return disk.Denied("symlink", a) }
func Chmod(name string, _ fs.FileMode) error               { return disk.Denied("chmod", name) }
func Chown(name string, _, _ int) error                    { return disk.Denied("chown", name) }
func Lchown(name string, _, _ int) error                   { return disk.Denied("chown", name) }
func Chtimes(name string, _, _ time.Time) error            { return disk.Denied("chtimes", name) }
func Chdir(name string) error                              { return disk.Denied("chdir", name) }
func CopyFS(dir string, _ fs.FS) error                     { return disk.Denied("copyfs", dir) }
func Exit(code int)                                        { panic("os.Exit called") }
func Pipe() (*File, *File, error)                          { return nil, nil, disk.Denied("pipe", "") }
func ReadDir(name string) ([]fs.DirEntry, error) {
	return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOTDIR}
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	h, err := disk.Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return h, nil
}

func DirFS(dir string) fs.FS { return dirFS(dir) }

func (f *File) bad(op string) error {
	if f == nil {
		return real.ErrInvalid
	}
	return &fs.PathError{Op: op, Path: f.name, Err: syscall.EBADF}
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil || f.h == nil {
		return 0, f.bad("read")
	}
	return f.h.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil || f.h == nil {
		return 0, f.bad("read")
	}
	return f.h.ReadAt(b, off)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil || f.h == nil {
		return 0, f.bad("seek")
	}
	return f.h.Seek(off, whence)
}

func (f *File) Close() error {
	if f == nil || f.h == nil {
		return f.bad("close")
	}
	return f.h.Close()
}

func (f *File) Stat() (fs.FileInfo, error) {
	if f == nil || f.h == nil {
		return nil, f.bad("stat")
	}
	return f.h.Stat()
}

func (f *File) Name() string                             { return f.name }
func (f *File) Fd() uintptr                              { return ^uintptr(0) }
func (f *File) Sync() error                              { return nil }
func (f *File) Chmod(fs.FileMode) error                  { return f.bad("chmod") }
func (f *File) Truncate(int64) error                     { return f.bad("truncate") }
func (f *File) WriteAt(b []byte, off int64) (int, error) { return 0, f.bad("write") }
func (f *File) WriteString(s string) (int, error)        { return f.Write([]byte(s)) }
func (f *File) SetDeadline(time.Time) error              { return f.bad("set deadline") }
func (f *File) SetReadDeadline(time.Time) error          { return f.bad("set deadline") }
func (f *File) ReadDir(int) ([]fs.DirEntry, error)       { return nil, f.bad("readdir") }
func (f *File) Readdir(int) ([]fs.FileInfo, error)       { return nil, f.bad("readdir") }
func (f *File) Readdirnames(int) ([]string, error)       { return nil, f.bad("readdir") }

// Write accepts output to the standard streams and drops it.
func (f *File) Write(b []byte) (int, error) {
	if f == Stdout || f == Stderr {
		return len(b), nil
	}
	return 0, f.bad("write")
}

var _ io.ReadWriteCloser = (*File)(nil)
