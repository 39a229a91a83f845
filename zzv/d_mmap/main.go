// Driver for package mmap (C20).
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync/atomic"

	"github.com/donnie4w/gofer/mmap"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vunix"
)

type obj struct {
	cfg  map[string]string
	path string
	m    *mmap.Mmap
	f    *os.File
	st   string
}

var dir, _ = os.MkdirTemp(os.Getenv("VSCRATCH"), "mmap")
var seq atomic.Int64

func num(s string) int {
	switch s {
	case "max":
		return math.MaxInt
	case "max7":
		return math.MaxInt - 7
	case "min":
		return math.MinInt
	}
	n, _ := strconv.Atoi(s)
	return n
}

// mark tells a tracer of system calls what is going on.
func mark(f string, a ...any) {
	if os.Getenv("MARK") != "" {
		os.Stderr.WriteString(fmt.Sprintf("MARK "+f+"\n", a...))
	}
}

func (x *obj) open(start string) string {
	var err error
	if x.f != nil {
		x.f.Close()
	}
	if x.f, err = os.OpenFile(x.path, os.O_RDWR, 0666); err != nil {
		panic(err)
	}
	x.m, err = mmap.NewMMAP(x.f, int64(num(start)))
	if err != nil {
		x.st = "failed"
		return "err"
	}
	x.st = "mapped"
	if x.cfg["syncs"] != "" {
		vunix.Base(x.m.Bytes())
	}
	return "ok"
}

func newObj(cfg map[string]string) any {
	x := &obj{cfg: cfg, path: fmt.Sprintf("%s/m%d", dir, seq.Add(1)%100000)}
	os.Remove(x.path)
	if err := os.WriteFile(x.path, bytes.Repeat([]byte{31}, num(cfg["size"])), 0666); err != nil {
		panic(err)
	}
	x.open(cfg["start"])
	return x
}

func runs(b []byte) []string {
	r := []string{}
	for p := 0; p < len(b); {
		n := 1
		for p+n < len(b) && b[p+n] == b[p] {
			n++
		}
		r = append(r, fmt.Sprintf("%d:%d", b[p], n))
		p += n
	}
	return r
}

func (x *obj) onDisk(b []byte, off int) []string {
	if x.cfg["syncs"] == "" {
		return nil
	}
	return []string{map[bool]string{false: "f", true: "t"}[vunix.OnDisk(off, b)]}
}

func (x *obj) there(b []byte, off int) string {
	m := x.m.Bytes()
	if off < 0 || off+len(b) > len(m) || !bytes.Equal(m[off:off+len(b)], b) {
		return "f"
	}
	c := make([]byte, len(b))
	if len(b) > 0 {
		h, err := os.Open(x.path)
		if err != nil {
			panic(err)
		}
		defer h.Close()
		if n, _ := h.ReadAt(c, int64(off)); n != len(b) || !bytes.Equal(c, b) {
			return "f"
		}
	}
	return "t"
}

func apply(o any, op []string) []string {
	x := o.(*obj)
	if x.st != "mapped" && op[0] != "file" && op[0] != "status" && op[0] != "reopen" {
		return []string{"not asked"}
	}
	ok := func(err error) []string {
		if err != nil {
			return []string{"err"}
		}
		return []string{"ok"}
	}
	switch op[0] {
	case "ap", "aps":
		b := bytes.Repeat([]byte{byte(num(op[1]))}, num(op[2]))
		c := append(make([]byte, 0, len(b)+[]int{8, 0, 1, 600, 70000}[seq.Add(1)%5]), b...)
		call := x.m.Append
		if op[0] == "aps" {
			call = x.m.AppendSync
		}
		mark("inv %s", op[0])
		off, err := call(c)
		if !bytes.Equal(b, c) {
			panic("argument changed")
		}
		for i := range c {
			c[i] = 0xfa
		}
		mark("ret %s %d %d %v", op[0], off, len(b), err == nil)
		if err != nil {
			return []string{"err"}
		}
		return append([]string{"ok", fmt.Sprint(off), x.there(b, int(off))}, x.onDisk(b, int(off))...)
	case "wa", "was":
		b := bytes.Repeat([]byte{byte(num(op[1]))}, num(op[2]))
		call := x.m.WriteAt
		if op[0] == "was" {
			call = x.m.WriteAtSync
		}
		mark("inv %s", op[0])
		err := call(b, num(op[3]))
		mark("ret %s %d %d %v", op[0], num(op[3]), len(b), err == nil)
		if err != nil {
			return []string{"err"}
		}
		return append([]string{"ok", x.there(b, num(op[3]))}, x.onDisk(b, num(op[3]))...)
	case "bytes":
		return runs(x.m.Bytes())
	case "size":
		return []string{fmt.Sprint(x.m.FileSize())}
	case "flush":
		mark("inv flush")
		err := x.m.Flush()
		mark("ret flush 0 %d %v", len(x.m.Bytes()), err == nil)
		return ok(err)
	case "close":
		n := len(x.m.Bytes())
		mark("inv close")
		err := x.m.Close()
		mark("ret close 0 %d %v", n, err == nil)
		x.st = "closed"
		return ok(err)
	case "unmap":
		x.st = "closed"
		return ok(x.m.Unmap())
	case "unmapclose":
		x.st = "closed"
		return ok(x.m.UnmapAndCloseFile())
	case "reopen":
		if x.st == "mapped" {
			return []string{"not asked"}
		}
		return []string{x.open(op[1])}
	case "status":
		return []string{x.st}
	case "file":
		b, err := os.ReadFile(x.path)
		if err != nil {
			panic(err)
		}
		return runs(b)
	}
	panic("op " + op[0])
}

func done(o any) {
	x := o.(*obj)
	if x.st == "mapped" {
		x.m.Unmap()
	}
	x.f.Close()
	os.Remove(x.path)
}

var sizes = []int{0, 1, 2, 3, 5, 100, 1000, 4095, 4096, 4097, 9000}

func gen(rng *rand.Rand, cfg map[string]string) []string {
	size := num(cfg["size"])
	tok := fmt.Sprint(1 + rng.Intn(30))
	n := sizes[rng.Intn(len(sizes))]
	if rng.Intn(2) == 0 {
		n = rng.Intn(size/20 + 4)
	}
	if rng.Intn(20) == 0 {
		n = size + rng.Intn(3) - 1
	}
	off := fmt.Sprint(rng.Intn(size + 4))
	switch rng.Intn(12) {
	case 0:
		off = fmt.Sprint(size - n)
	case 1:
		off = []string{"-1", "-5", "0", "4096", "8192", fmt.Sprint(size), fmt.Sprint(size + 1), "min", "max", "max7"}[rng.Intn(10)]
	}
	switch rng.Intn(20) {
	case 0:
		return []string{"bytes"}
	case 1:
		return []string{"file"}
	case 2:
		return []string{"size"}
	case 3:
		return []string{"flush"}
	case 4, 5, 6:
		return []string{"wa", tok, fmt.Sprint(n), off}
	case 7, 8:
		return []string{"was", tok, fmt.Sprint(n), off}
	case 9, 10, 11, 12:
		return []string{"aps", tok, fmt.Sprint(n)}
	case 13:
		if rng.Intn(4) == 0 {
			return []string{[]string{"close", "unmap", "unmapclose"}[rng.Intn(3)]}
		}
	case 14:
		return []string{"reopen", []string{"0", "1", off, "-1", fmt.Sprint(size), fmt.Sprint(size - 1)}[rng.Intn(6)]}
	}
	return []string{"ap", tok, fmt.Sprint(n)}
}

func main() {
	drv.Main(&drv.Component{New: newObj, Apply: apply, Close: done, Gen: gen})
}
