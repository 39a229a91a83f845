// Package vos replaces package os in instrumented code: real files, plus scheduling points,
// fault injection and crash points.
package vos

import (
	"io"
	"io/fs"
	"os"
	"time"

	"github.com/donnie4w/gofer/zzv/vsched"
)

// Before, when set, is called before every file system operation. It may return handled=true
// to replace the operation (n, err are then its results; for writes n bytes are first written
// for real), or panic to model a crash.
var Before func(op, path string, b []byte, off int64) (n int, err error, handled bool)

// After, when set, is called after every mutating operation that took effect.
var After func(op, path string, b []byte, off int64, n int)

func hook(op, path string, b []byte, off int64) (int, error, bool) {
	vsched.Y()
	if Before != nil {
		return Before(op, path, b, off)
	}
	return 0, nil, false
}
func after(op, path string, b []byte, off int64, n int) {
	if After != nil {
		After(op, path, b, off, n)
	}
}

type File struct{ F *os.File }

func wrap(f *os.File, err error) (*File, error) {
	if f == nil {
		return nil, err
	}
	return &File{f}, err
}

func OpenFile(p string, flag int, m fs.FileMode) (*File, error) {
	if _, e, h := hook("open", p, nil, int64(flag)); h {
		return nil, e
	}
	f, err := wrap(os.OpenFile(p, flag, m))
	after("open", p, nil, int64(flag), 0)
	return f, err
}
func Open(p string) (*File, error)   { return OpenFile(p, os.O_RDONLY, 0) }
func Create(p string) (*File, error) { return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }
func CreateTemp(d, pat string) (*File, error) {
	if _, e, h := hook("createtemp", d, nil, 0); h {
		return nil, e
	}
	return wrap(os.CreateTemp(d, pat))
}
func (f *File) Name() string { return f.F.Name() }
func (f *File) Fd() uintptr  { return f.F.Fd() }
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	n, e, h := hook("write", f.F.Name(), b, -1)
	if h {
		if n > 0 {
			if k, e2 := f.F.Write(b[:n]); e2 != nil {
				return k, e2
			}
			after("write", f.F.Name(), b, -1, n)
		}
		return n, e
	}
	n, e = f.F.Write(b)
	after("write", f.F.Name(), b, -1, n)
	return n, e
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	n, e, h := hook("writeat", f.F.Name(), b, off)
	if h {
		if n > 0 {
			f.F.WriteAt(b[:n], off)
			after("writeat", f.F.Name(), b, off, n)
		}
		return n, e
	}
	n, e = f.F.WriteAt(b, off)
	after("writeat", f.F.Name(), b, off, n)
	return n, e
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	var t int64
	buf := make([]byte, 32<<10)
	for {
		k, e := r.Read(buf)
		if k > 0 {
			w, e2 := f.Write(buf[:k])
			t += int64(w)
			if e2 != nil {
				return t, e2
			}
		}
		if e == io.EOF {
			return t, nil
		}
		if e != nil {
			return t, e
		}
	}
}
func (f *File) Read(b []byte) (int, error)              { vsched.Y(); return f.F.Read(b) }
func (f *File) ReadAt(b []byte, off int64) (int, error) { vsched.Y(); return f.F.ReadAt(b, off) }
func (f *File) Seek(o int64, w int) (int64, error)      { vsched.Y(); return f.F.Seek(o, w) }
func (f *File) Stat() (fs.FileInfo, error)              { return f.F.Stat() }
func (f *File) Chmod(m fs.FileMode) error               { return f.F.Chmod(m) }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error)    { return f.F.ReadDir(n) }
func (f *File) Sync() error {
	if _, e, h := hook("sync", f.F.Name(), nil, 0); h {
		return e
	}
	return nil // a dying process does not lose what the system has taken
}
func (f *File) Truncate(n int64) error {
	if _, e, h := hook("truncate", f.F.Name(), nil, n); h {
		return e
	}
	e := f.F.Truncate(n)
	after("truncate", f.F.Name(), nil, n, 0)
	return e
}
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if _, e, h := hook("close", f.F.Name(), nil, 0); h {
		return e
	}
	e := f.F.Close()
	after("close", f.F.Name(), nil, 0, 0)
	return e
}

func ReadFile(p string) ([]byte, error) {
	if _, e, h := hook("readfile", p, nil, 0); h {
		return nil, e
	}
	return os.ReadFile(p)
}
func WriteFile(p string, b []byte, m fs.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func Rename(a, b string) error {
	if _, e, h := hook("rename", a, []byte(b), 0); h {
		return e
	}
	e := os.Rename(a, b)
	after("rename", a, []byte(b), 0, 0)
	return e
}
func Remove(p string) error {
	if _, e, h := hook("remove", p, nil, 0); h {
		return e
	}
	e := os.Remove(p)
	after("remove", p, nil, 0, 0)
	return e
}
func Truncate(p string, n int64) error {
	if _, e, h := hook("truncate", p, nil, n); h {
		return e
	}
	e := os.Truncate(p, n)
	after("truncate", p, nil, n, 0)
	return e
}
func Mkdir(p string, m fs.FileMode) error {
	if _, e, h := hook("mkdir", p, nil, 0); h {
		return e
	}
	return os.Mkdir(p, m)
}
func MkdirAll(p string, m fs.FileMode) error {
	if _, e, h := hook("mkdir", p, nil, 0); h {
		return e
	}
	return os.MkdirAll(p, m)
}
func Stat(p string) (fs.FileInfo, error)      { return os.Stat(p) }
func Lstat(p string) (fs.FileInfo, error)     { return os.Lstat(p) }
func ReadDir(p string) ([]fs.DirEntry, error) { return os.ReadDir(p) }
func Chmod(p string, m fs.FileMode) error     { return os.Chmod(p, m) }
func Chtimes(p string, a, b time.Time) error  { return os.Chtimes(p, a, b) }
