package verifsimrt

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"time"
)

// Simulated disk. Every call is one numbered disk operation; the scenario's fault plan is keyed by that number.

type Inode struct {
	Data []byte
	Mode os.FileMode
}

const (
	FaultNone  = 0
	FaultError = 1 // the call fails, nothing is transferred
	FaultShort = 2 // half of the bytes are transferred, then an error
	FaultFull  = 3 // no space from this operation on (partial transfer, then ENOSPC for ever)
	FaultCrash = 4 // the process dies inside this operation after a third of the transfer
)

var (
	Files     map[string]*Inode
	DiskOps   int
	DiskFault map[int]int
	DiskFull  bool
	DiskFired [5]int
	OpenCount int
	LastOpen  string
)

// CrashError is what a simulated process crash unwinds with.
type CrashError struct{}

func (CrashError) Error() string { return "simulated process crash" }

var ErrDisk = errors.New("simulated disk error")
var ErrFull = errors.New("simulated: no space left on device")

func ResetDisk() {
	Files = map[string]*Inode{}
	DiskOps, DiskFault, DiskFull, OpenCount, LastOpen = 0, nil, false, 0, ""
	DiskFired = [5]int{}
}

func diskOp() int {
	Y()
	DiskOps++
	f := DiskFault[DiskOps]
	if f == FaultFull {
		DiskFull = true
	}
	if f != 0 {
		DiskFired[f]++
	}
	return f
}

func diskFail() bool {
	k := diskOp()
	if k == FaultCrash {
		panic(CrashError{})
	}
	return k != 0
}

type File struct {
	name   string
	ino    *Inode
	flag   int
	off    int64
	closed bool
	std    bool
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	f := diskOp()
	if f == FaultCrash {
		panic(CrashError{})
	}
	if f == FaultError || f == FaultShort {
		return nil, &fs.PathError{Op: "open", Path: name, Err: ErrDisk}
	}
	if Files == nil {
		Files = map[string]*Inode{}
	}
	ino := Files[name]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
		}
		if DiskFull {
			return nil, &fs.PathError{Op: "open", Path: name, Err: ErrFull}
		}
		ino = &Inode{Mode: perm.Perm() &^ 022}
		Files[name] = ino
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrExist}
	}
	if flag&os.O_TRUNC != 0 {
		ino.Data = nil
	}
	OpenCount++
	LastOpen = name
	return &File{name: name, ino: ino, flag: flag}, nil
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Remove(name string) error {
	if diskFail() {
		return &fs.PathError{Op: "remove", Path: name, Err: ErrDisk}
	}
	if Files[name] == nil {
		return &fs.PathError{Op: "remove", Path: name, Err: fs.ErrNotExist}
	}
	delete(Files, name)
	return nil
}

func Truncate(name string, size int64) error {
	ino := Files[name]
	if ino == nil {
		return &fs.PathError{Op: "truncate", Path: name, Err: fs.ErrNotExist}
	}
	return (&File{name: name, ino: ino, flag: os.O_RDWR}).Truncate(size)
}

func (f *File) Name() string { return f.name }

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std {
		Printed++
		return len(p), nil
	}
	if f.closed {
		return 0, fs.ErrClosed
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: fs.ErrPermission}
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.ino.Data))
	}
	n, err := f.writeAt(p, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) writeAt(p []byte, off int64) (int, error) {
	k := diskOp()
	n := len(p)
	var err error
	switch {
	case k == FaultError:
		n, err = 0, ErrDisk
	case k == FaultShort:
		n, err = len(p)/2, ErrDisk
	case k == FaultCrash:
		n = len(p) / 3
	case k == FaultFull:
		n, err = len(p)/3, ErrFull
	case DiskFull:
		n, err = 0, ErrFull
	}
	if err != nil {
		err = &fs.PathError{Op: "write", Path: f.name, Err: err}
	}
	if end := off + int64(n); n > 0 {
		for old := int64(len(f.ino.Data)); old < end; old = int64(len(f.ino.Data)) {
			f.ino.Data = append(f.ino.Data, make([]byte, end-old)...)
		}
		copy(f.ino.Data[off:end], p[:n])
	}
	if k == FaultCrash {
		panic(CrashError{})
	}
	return n, err
}

func (f *File) WriteAt(p []byte, off int64) (int, error) { return f.writeAt(p, off) }
func (f *File) WriteString(s string) (int, error)        { return f.Write([]byte(s)) }

func (f *File) Read(p []byte) (int, error) {
	diskOp()
	if f.off >= int64(len(f.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(p, f.ino.Data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	case io.SeekEnd:
		f.off = int64(len(f.ino.Data)) + off
	}
	return f.off, nil
}

func (f *File) Truncate(size int64) error {
	if diskFail() {
		return &fs.PathError{Op: "truncate", Path: f.name, Err: ErrDisk}
	}
	d := make([]byte, size)
	copy(d, f.ino.Data)
	f.ino.Data = d
	return nil
}

func (f *File) Chmod(m os.FileMode) error { f.ino.Mode = m.Perm(); return nil }

func (f *File) Sync() error {
	if diskFail() {
		return &fs.PathError{Op: "sync", Path: f.name, Err: ErrDisk}
	}
	return nil
}

func (f *File) Close() error {
	if f.closed {
		return fs.ErrClosed
	}
	f.closed = true
	return nil
}

// FileNames lists the simulated files in a fixed order.
func FileNames() []string {
	var r []string
	for n := range Files {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err == nil {
		err = err1
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	return append([]byte(nil), f.ino.Data...), nil
}

func Rename(from, to string) error {
	if diskFail() {
		return &fs.PathError{Op: "rename", Path: from, Err: ErrDisk}
	}
	if Files[from] == nil {
		return &fs.PathError{Op: "rename", Path: from, Err: fs.ErrNotExist}
	}
	Files[to] = Files[from]
	delete(Files, from)
	return nil
}

func MkdirAll(string, os.FileMode) error { Y(); return nil }

func RemoveAll(name string) error {
	for _, n := range FileNames() {
		if n == name || strings.HasPrefix(n, name+"/") {
			delete(Files, n)
		}
	}
	return nil
}

type fileInfo struct {
	name string
	ino  *Inode
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return int64(len(i.ino.Data)) }
func (i fileInfo) Mode() os.FileMode  { return i.ino.Mode }
func (i fileInfo) ModTime() time.Time { return time.Unix(0, ClockNow) }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() any           { return nil }

func Stat(name string) (os.FileInfo, error) {
	if ino := Files[name]; ino != nil {
		return fileInfo{name, ino}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
}

func (f *File) Stat() (os.FileInfo, error) { return fileInfo{f.name, f.ino}, nil }
