// Driver for package buffer (C21).
package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"sync/atomic"

	"github.com/donnie4w/gofer/buffer"
	"github.com/donnie4w/gofer/zzv/drv"
)

func num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

var spares atomic.Int64

type obj struct{ b *buffer.Buffer }

func newObj(cfg map[string]string) any {
	if cfg["nil"] == "t" {
		return &obj{}
	}
	init := bytes.Repeat([]byte{9}, num(cfg["init"]))
	x := &obj{}
	switch cfg["ctor"] {
	case "new":
		x.b = buffer.NewBuffer()
	case "cap":
		x.b = buffer.NewBufferWithCapacity(num(cfg["cap"]))
	case "pool":
		x.b = buffer.NewBufferByPool()
	case "zero":
		x.b = new(buffer.Buffer)
	case "slice":
		s := make([]byte, len(init), len(init)+num(cfg["cap"]))
		copy(s, init)
		x.b = buffer.NewBufferBySlice(s)
		return x
	case "nilslice":
		x.b = buffer.NewBufferBySlice(nil)
	}
	if len(init) > 0 {
		x.b.Write(init)
	}
	return x
}

func runs(b []byte) []string {
	r := []string{}
	for p := 0; p < len(b); {
		n := 1
		for p+n < len(b) && b[p+n] == b[p] {
			n++
		}
		r = append(r, fmt.Sprintf("%d:%d", b[p], n))
		p += n
	}
	return r
}

func data(op []string) []byte {
	var d []byte
	for i := 1; i < len(op); i += 2 {
		d = append(d, bytes.Repeat([]byte{byte(num(op[i]))}, num(op[i+1]))...)
	}
	return d
}

func errs(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "eof"
	}
	return "err"
}

func apply(o any, op []string) []string {
	x := o.(*obj)
	switch op[0] {
	case "w":
		d := data(op)
		extra := []int{16, 0, 1, 100, 5000}[spares.Add(1)%5]
		c := make([]byte, len(d)+extra)
		for i := range c {
			c[i] = 0xee
		}
		copy(c, d)
		n, err := x.b.Write(c[:len(d)])
		same := "t"
		if !bytes.Equal(c[:len(d)], d) || !bytes.Equal(c[len(d):], bytes.Repeat([]byte{0xee}, extra)) {
			same = "f"
		}
		for i := range c {
			c[i] = 0xfa // the Buffer must have its own copy
		}
		return []string{fmt.Sprint(n), errs(err), same}
	case "ws":
		n, err := x.b.WriteString(string(data(op)))
		return []string{fmt.Sprint(n), errs(err), "t"}
	case "wb":
		return []string{errs(x.b.WriteByte(byte(num(op[1])))), "t"}
	case "wi":
		n, err := x.b.WriteInt32(num(op[1])*65536*65536 + num(op[2])*65536 + num(op[3]))
		return []string{fmt.Sprint(n), errs(err), "t"}
	case "read":
		p := bytes.Repeat([]byte{0xee}, num(op[1]))
		n, err := x.b.Read(p)
		if n < 0 || n > len(p) {
			return []string{fmt.Sprint(n), "out of range"}
		}
		r := append([]string{fmt.Sprint(n), errs(err)}, runs(p[:n])...)
		for i := range p {
			p[i] = 0xfa
		}
		return r
	case "bytes":
		return runs(x.b.Bytes())
	case "str":
		return runs([]byte(x.b.String()))
	case "len":
		return []string{fmt.Sprint(x.b.Len())}
	case "reset":
		x.b.Reset()
		return []string{"ok"}
	case "free":
		x.b.Free()
		return []string{"ok"}
	}
	panic("op " + op[0])
}

var sizes = []int{0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 500, 511, 512, 513, 1024, 4096, 20000}

func gen(rng *rand.Rand, cfg map[string]string) []string {
	n := func() string {
		if rng.Intn(2) == 0 {
			return fmt.Sprint(rng.Intn(12))
		}
		return fmt.Sprint(sizes[rng.Intn(len(sizes))])
	}
	tok := func() string { return fmt.Sprint(rng.Intn(256)) }
	switch rng.Intn(14) {
	case 0, 1, 2:
		op := []string{[]string{"w", "ws"}[rng.Intn(2)]}
		for i := rng.Intn(4); i >= 0; i-- {
			op = append(op, tok(), n())
		}
		return op
	case 3:
		return []string{"wb", tok()}
	case 4:
		return []string{"wi", fmt.Sprint(rng.Intn(5) - 2), fmt.Sprint(rng.Intn(65536)), fmt.Sprint(rng.Intn(65536))}
	case 5:
		return []string{"bytes"}
	case 6:
		return []string{"str"}
	case 7:
		if cfg["nil"] != "t" {
			return []string{"len"}
		}
		return []string{"free"}
	case 8:
		if cfg["nil"] != "t" && rng.Intn(5) == 0 {
			return []string{"reset"}
		}
	}
	return []string{"read", n()}
}

func main() {
	drv.Main(&drv.Component{New: newObj, Apply: apply, Gen: gen})
}
