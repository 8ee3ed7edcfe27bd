// Package disk is the simulated disk: an in-memory file tree whose opens,
// reads, stats and closes fail as the run decides.
package disk

import (
	"hash/crc32"
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"

	"verif.local/simrt"
)

// Inode is one version of a file's content.
type Inode struct {
	Data []byte
	Ver  int
}

// Plan is what one open of a file will meet.
type Plan struct {
	OpenErr    error
	ReadErrAt  int   // -1: none; fails once that many bytes were delivered
	ReadErrors int   // how many reads fail at that point (0 = all)
	ReadErr    error // nil: EIO
	CloseErr   error
	Short      int // 0: full reads; n>0: reads deliver at most 1..n bytes
	SizeDelta  int // what Stat misreports
	NoSize     bool
	StatErr    bool
	Yield      bool
}

// Handle is one open file.
type Handle struct {
	Path           string
	Plan           Plan
	Node           *Inode
	Owner          int
	Off            int
	Closed         int
	Fired          []string // faults that actually happened
	EOF            bool
	errs           int
	UsedAfterClose int
}

// Disk is the whole device.
type Disk struct {
	Files       map[string]*Inode
	Handles     []*Handle
	OpenN       int
	MaxOpen     int // 0: unlimited
	PlanFor     func(path string) Plan
	FailedOpens map[int]int // per owner
	Mutations   int
}

// Cur is the device of the current run.
var Cur *Disk

// New makes an empty device and installs it.
func New() *Disk {
	d := &Disk{Files: map[string]*Inode{}, FailedOpens: map[int]int{}}
	Cur = d
	return d
}

// Put installs new content atomically (as a rename over the old file does).
func (d *Disk) Put(path string, data []byte) *Inode {
	n := &Inode{Data: append([]byte(nil), data...)}
	if o := d.Files[path]; o != nil {
		n.Ver = o.Ver + 1
	}
	d.Files[path] = n
	return n
}

func note(kind string) {
	if s := simrt.Active(); s != nil {
		s.Fault(kind)
	}
}

func owner() int {
	if s := simrt.Active(); s != nil {
		return s.Cur()
	}
	return -1
}

// Open opens a file for reading.
//
//go:noinline
func Open(path string) (*Handle, error) {
	simrt.Y(0)
	d := Cur
	if d == nil {
		return nil, &fs.PathError{Op: "open", Path: path, Err: syscall.ENOENT}
	}
	p := Plan{ReadErrAt: -1}
	if d.PlanFor != nil {
		p = d.PlanFor(path)
	}
	if p.OpenErr != nil {
		note("disk-open-error")
		d.FailedOpens[owner()]++
		return nil, &fs.PathError{Op: "open", Path: path, Err: p.OpenErr}
	}
	if d.MaxOpen > 0 && d.OpenN >= d.MaxOpen {
		note("disk-too-many-open-files")
		d.FailedOpens[owner()]++
		return nil, &fs.PathError{Op: "open", Path: path, Err: syscall.EMFILE}
	}
	n := d.Files[path]
	if n == nil {
		d.FailedOpens[owner()]++
		return nil, &fs.PathError{Op: "open", Path: path, Err: syscall.ENOENT}
	}
	h := &Handle{Path: path, Plan: p, Node: n, Owner: owner()}
	d.OpenN++
	d.Handles = append(d.Handles, h)
	return h, nil
}

func (h *Handle) fire(kind string) {
	h.Fired = append(h.Fired, kind)
	note(kind)
}

//go:noinline
func (h *Handle) Read(b []byte) (int, error) {
	simrt.Y(0)
	if h.Closed > 0 {
		h.UsedAfterClose++
		return 0, &fs.PathError{Op: "read", Path: h.Path, Err: os.ErrClosed}
	}
	if len(b) == 0 {
		return 0, nil
	}
	limit := len(h.Node.Data)
	if e := h.Plan.ReadErrAt; e >= 0 && e <= limit && (h.Plan.ReadErrors == 0 || h.errs < h.Plan.ReadErrors) {
		if h.Off >= e {
			h.errs++
			h.fire("disk-read-error")
			e := h.Plan.ReadErr
			if e == nil {
				e = syscall.EIO
			}
			return 0, &fs.PathError{Op: "read", Path: h.Path, Err: e}
		}
		limit = e
	}
	if h.Off >= len(h.Node.Data) {
		h.EOF = true
		return 0, io.EOF
	}
	n := len(b)
	if h.Plan.Short > 0 {
		m := 1
		if s := simrt.Active(); s != nil {
			m = 1 + s.C.N(simrt.SDisk, h.Plan.Short)
		}
		if m < n && h.Off+m < limit {
			n = m
			h.fire("disk-short-read")
		}
	}
	if h.Off+n > limit {
		n = limit - h.Off
	}
	copy(b[:n], h.Node.Data[h.Off:h.Off+n])
	h.Off += n
	return n, nil
}

// ReadAt follows the same fault plan.
//
//go:noinline
func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	save := h.Off
	h.Off = int(off)
	total := 0
	var err error
	for total < len(b) && err == nil {
		var n int
		n, err = h.Read(b[total:])
		total += n
	}
	h.Off = save
	return total, err
}

//go:noinline
func (h *Handle) Seek(offset int64, whence int) (int64, error) {
	simrt.Y(0)
	if h.Closed > 0 {
		return 0, &fs.PathError{Op: "seek", Path: h.Path, Err: os.ErrClosed}
	}
	switch whence {
	case 1:
		offset += int64(h.Off)
	case 2:
		offset += int64(len(h.Node.Data))
	}
	if offset < 0 {
		return 0, &fs.PathError{Op: "seek", Path: h.Path, Err: syscall.EINVAL}
	}
	h.Off = int(offset)
	return offset, nil
}

//go:noinline
func (h *Handle) Close() error {
	simrt.Y(0)
	h.Closed++
	if h.Closed > 1 {
		return &fs.PathError{Op: "close", Path: h.Path, Err: os.ErrClosed}
	}
	Cur.OpenN--
	if h.Plan.CloseErr != nil {
		h.fire("disk-close-error")
		return &fs.PathError{Op: "close", Path: h.Path, Err: h.Plan.CloseErr}
	}
	return nil
}

type info struct {
	name string
	size int64
	ver  int
	sum  uint32
}

func (i info) Name() string      { return i.name }
func (i info) Size() int64       { return i.size }
func (i info) Mode() fs.FileMode { return 0o644 }
func (i info) ModTime() time.Time {
	return time.Date(2001, 1, 1, 0, 0, i.ver, int(i.sum%1e9), time.UTC)
}
func (i info) IsDir() bool      { return false }
func (i info) Sys() interface{} { return nil }

//go:noinline
func (h *Handle) Stat() (fs.FileInfo, error) {
	simrt.Y(0)
	if h.Plan.StatErr {
		h.fire("disk-stat-error")
		return nil, &fs.PathError{Op: "stat", Path: h.Path, Err: syscall.EIO}
	}
	sz := int64(len(h.Node.Data))
	if h.Plan.NoSize {
		sz = 0
		h.fire("disk-size-unknown")
	} else if h.Plan.SizeDelta != 0 {
		sz += int64(h.Plan.SizeDelta)
		if sz < 0 {
			sz = 0
		}
		h.fire("disk-size-misreported")
	}
	return info{h.Path, sz, h.Node.Ver, crc32.ChecksumIEEE(h.Node.Data)}, nil
}

// Stat by path.
//
//go:noinline
func Stat(path string) (fs.FileInfo, error) {
	h, err := Open(path)
	if err != nil {
		return nil, err
	}
	fi, err := h.Stat()
	h.Closed++
	Cur.OpenN--
	return fi, err
}

// ReadFile does what os.ReadFile does, on this device.
//
//go:noinline
func ReadFile(path string) ([]byte, error) {
	h, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	size := 0
	if fi, err := h.Stat(); err == nil {
		size = int(fi.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	data := make([]byte, 0, size)
	for {
		n, err := h.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

// Denied records an attempt to change the file system and refuses it.
//
//go:noinline
func Denied(op, path string) error {
	if Cur != nil {
		Cur.Mutations++
	}
	return &fs.PathError{Op: op, Path: path, Err: syscall.EROFS}
}
