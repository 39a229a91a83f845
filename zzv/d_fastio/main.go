// Driver for package fastio (C18, C19).
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/donnie4w/gofer/fastio"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vos"
	"github.com/donnie4w/gofer/zzv/vsched"
)

// The data of a call is made from its token (a number) and its size. cfg fmt:
//
//	plain  the token's byte, repeated
//	pat    a byte sequence that tells the token (1..31) and, mostly, the place
//	rec    a header with token and size, then bytes made from both
func data(f string, tok, n int) []byte {
	b := make([]byte, n)
	switch f {
	case "plain":
		for i := range b {
			b[i] = byte(tok)
		}
	case "pat":
		for i := range b {
			b[i] = byte(tok<<3) | place(i)
		}
	case "rec":
		for i := range b {
			b[i] = byte(tok*31+n*7) ^ byte(i) ^ byte(i>>8)
		}
		binary.BigEndian.PutUint32(b, uint32(tok))
		binary.BigEndian.PutUint32(b[4:], uint32(n))
	}
	return b
}

func place(i int) byte { x := uint32(i) * 2654435761; return byte(x>>29) & 7 }

// runs describes b as the data of calls.
func runs(f string, b []byte) []string {
	r := []string{}
	for p := 0; p < len(b); {
		n, tok := 1, int(b[p])
		switch f {
		case "plain":
			for p+n < len(b) && b[p+n] == b[p] {
				n++
			}
		case "pat":
			tok >>= 3
			if b[p] != byte(tok<<3)|place(0) {
				return append(r, fmt.Sprintf("junk at %d", p))
			}
			for p+n < len(b) && b[p+n] == byte(tok<<3)|place(n) {
				n++
			}
		case "rec":
			if p+8 > len(b) {
				return append(r, fmt.Sprintf("junk at %d", p))
			}
			tok, n = int(binary.BigEndian.Uint32(b[p:])), int(binary.BigEndian.Uint32(b[p+4:]))
			if n < 8 || p+n > len(b) || !bytes.Equal(data(f, tok, n), b[p:p+n]) {
				return append(r, fmt.Sprintf("junk at %d", p))
			}
		}
		r = append(r, fmt.Sprintf("%d:%d", tok, n))
		p += n
	}
	return r
}

type file struct {
	cfg    map[string]string
	path   string
	f      fastio.File
	closed bool
}

var dir, _ = os.MkdirTemp(os.Getenv("VSCRATCH"), "fastio")

func (x *file) open() {
	var err error
	if x.cfg["ctor"] == "new" {
		var h *os.File
		if h, err = os.OpenFile(x.path, os.O_RDWR|os.O_CREATE, 0666); err != nil {
			panic(err)
		}
		fn := reflect.ValueOf(fastio.New)
		var a any = h
		if fn.Type().In(0) == reflect.TypeOf(&vos.File{}) {
			a = &vos.File{F: h}
		}
		out := fn.Call([]reflect.Value{reflect.ValueOf(a)})
		if e := out[1].Interface(); e != nil {
			panic(e)
		}
		x.f = out[0].Interface().(fastio.File)
		return
	}
	if x.f, err = fastio.Open(x.path); err != nil {
		panic(err)
	}
}

var seq atomic.Int64

func num(s string) int { n, _ := strconv.Atoi(s); return n }

func newFile(cfg map[string]string) any {
	x := &file{cfg: cfg}
	x.path = fmt.Sprintf("%s/f%d", dir, seq.Add(1)%100000)
	os.Remove(x.path)
	if n := num(cfg["orig"]); n > 0 {
		if err := os.WriteFile(x.path, data(cfg["fmt"], 31, n), 0666); err != nil {
			panic(err)
		}
	}
	vos.Before, vos.After = nil, nil
	if cfg["fault"] != "" {
		// "k:n": of the k-th write only n bytes reach the file (in permille when it ends in p)
		plan := map[int]string{}
		for _, s := range strings.Split(cfg["fault"], ",") {
			kn := strings.SplitN(s, ":", 2)
			plan[num(kn[0])] = kn[1]
		}
		k := 0
		vos.Before = func(op, path string, b []byte, off int64) (int, error, bool) {
			if op != "write" && op != "writeat" {
				return 0, nil, false
			}
			k++
			s, ok := plan[k]
			if !ok {
				return 0, nil, false
			}
			vsched.Log("fault", 0, []string{}, []string{})
			n := num(s)
			if strings.HasSuffix(s, "p") {
				n = len(b) * num(s[:len(s)-1]) / 1000
			}
			if n >= len(b) {
				n = len(b) - 1
			}
			if n < 0 {
				n = 0
			}
			return n, &os.PathError{Op: "write", Path: path, Err: syscall.ENOSPC}, true
		}
	}
	x.open()
	return x
}

var spares atomic.Int64

func apply(obj any, op []string) []string {
	x := obj.(*file)
	f := x.cfg["fmt"]
	write := func(call func(b []byte) (int64, error)) ([]byte, int64, bool) {
		b := data(f, num(op[1]), num(op[2]))
		// with capacity behind it
		c := append(make([]byte, 0, len(b)+[]int{16, 0, 1, 600, 70000}[spares.Add(1)%5]), b...)
		n, err := call(c)
		if !bytes.Equal(b, c) || bytes.ContainsFunc(c[len(c):cap(c)], func(r rune) bool { return r != 0 }) {
			panic("argument changed")
		}
		for i := range c { // the caller may reuse its slice
			c[i] = 0xfa
		}
		return b, n, err == nil
	}
	switch op[0] {
	case "w":
		_, n, ok := write(func(b []byte) (int64, error) { n, e := x.f.Write(b); return int64(n), e })
		if !ok {
			return []string{"err"}
		}
		return []string{"ok", fmt.Sprint(n)}
	case "ws":
		b, off, ok := write(x.f.WriteSync)
		if !ok {
			return []string{"err"}
		}
		c := make([]byte, len(b))
		n, _ := x.f.ReadAt(c, off)
		if x.closed { // another thread has closed the file meanwhile
			if h, e := os.Open(x.path); e == nil {
				n, _ = h.ReadAt(c, off)
				h.Close()
			}
		}
		there := "f"
		if n == len(b) && bytes.Equal(b, c) {
			there = "t"
		}
		return []string{"ok", fmt.Sprint(off), there}
	case "wa":
		_, n, ok := write(func(b []byte) (int64, error) { n, e := x.f.WriteAt(b, int64(num(op[3]))); return int64(n), e })
		if !ok {
			return []string{"err"}
		}
		return []string{"ok", fmt.Sprint(n)}
	case "ra":
		c := make([]byte, num(op[2]))
		n, err := x.f.ReadAt(c, int64(num(op[1])))
		if err != nil && err != io.EOF {
			return []string{"err"}
		}
		return append([]string{"ok"}, runs(f, c[:n])...)
	case "close":
		x.closed = true
		if x.f.Close() != nil {
			return []string{"err"}
		}
		return []string{"ok"}
	case "reopen":
		if x.closed {
			x.open()
			x.closed = false
		}
		return []string{}
	case "content":
		b, err := os.ReadFile(x.path)
		if err != nil {
			panic(err)
		}
		return runs(f, b)
	}
	panic("op " + op[0])
}

func done(obj any) {
	x := obj.(*file)
	func() {
		defer func() { recover() }()
		x.f.Close()
	}()
	os.Remove(x.path)
	vos.Before = nil
}

var sizes = []string{"0", "1", "2", "7", "64", "511", "512", "513", "4095", "4096", "5000", "65535", "65536", "70000", "140000"}
var last = map[string]int{}

func gen(rng *rand.Rand, cfg map[string]string) []string {
	size := sizes[rng.Intn(len(sizes))]
	if rng.Intn(3) > 0 {
		size = sizes[rng.Intn(6)]
	}
	if cfg["fmt"] == "rec" {
		size = fmt.Sprint(num(size) + 8)
	}
	tok := fmt.Sprint(1 + rng.Intn(30))
	if cfg["fmt"] == "rec" {
		last["n"]++
		tok = fmt.Sprint(last["n"])
	}
	off := fmt.Sprint(rng.Intn(20000))
	if cfg["fmt"] == "rec" {
		switch rng.Intn(12) {
		case 0:
			return []string{"content"}
		case 1, 2, 3, 4:
			return []string{"ws", tok, size}
		case 5:
			if rng.Intn(3) == 0 {
				return []string{"close"}
			}
			return []string{"reopen"}
		}
		return []string{"w", tok, size}
	}
	switch rng.Intn(16) {
	case 0:
		return []string{"content"}
	case 1, 2, 3:
		return []string{"ws", tok, size}
	case 4, 5, 6:
		return []string{"wa", tok, size, off}
	case 7, 8:
		return []string{"ra", off, size}
	case 9:
		if rng.Intn(3) == 0 {
			return []string{"close"}
		}
	case 10:
		return []string{"reopen"}
	}
	return []string{"w", tok, size}
}

func main() {
	drv.Main(&drv.Component{New: newFile, Apply: apply, Close: done, Gen: gen})
}
