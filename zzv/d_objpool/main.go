// Driver for the object pools (C22).
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strconv"

	"github.com/donnie4w/gofer/buffer"
	pool "github.com/donnie4w/gofer/pool/buffer"
	"github.com/donnie4w/gofer/zzv/drv"
)

type item struct {
	n   int
	pad [3]int
}

type obj struct {
	kind  string
	held  map[any]string // object -> number
	slots map[string]any
	get   func(n int) any
	put   func(x any) []string
	use   func(x any, n int) int
	size  func(x any) int
}

func num(s string) int {
	switch s {
	case "max":
		return math.MaxInt
	case "min":
		return math.MinInt
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

func b(x bool) string {
	if x {
		return "t"
	}
	return "f"
}

func isNil(x bool) string {
	if x {
		return "nil"
	}
	return "kept"
}

func newObj(cfg map[string]string) any {
	x := &obj{kind: cfg["kind"], held: map[any]string{}, slots: map[string]any{}}
	itemUse := func(y any, n int) int { y.(*item).n += n; return y.(*item).n }
	itemSize := func(y any) int { return y.(*item).n }
	bufUse := func(y any, n int) int {
		y.(*buffer.Buffer).Write(bytes.Repeat([]byte{7}, n))
		return y.(*buffer.Buffer).Len()
	}
	bufSize := func(y any) int { return y.(*buffer.Buffer).Len() }
	switch x.kind {
	case "T", "Tdefault", "Tplain", "Tnoreset":
		var mk func() *item
		if x.kind == "T" || x.kind == "Tnoreset" {
			mk = func() *item { return &item{} }
		}
		reset := func(i *item) { i.n = 0 }
		own := x.kind == "Tplain" || x.kind == "Tnoreset" // a pool without a reset function: its user resets
		if own {
			reset = nil
		}
		p := pool.NewPool[item](mk, reset)
		x.get = func(int) any {
			i := p.Get()
			if own && i != nil {
				i.n = 0
			}
			return i
		}
		x.put = func(y any) []string {
			i, _ := y.(*item)
			r := p.Put(&i)
			return []string{b(r), isNil(i == nil)}
		}
		x.use, x.size = itemUse, itemSize
	case "bytes":
		p := pool.NewBufferPool(num(cfg["size"]))
		x.get = func(n int) any { return p.Get(n) }
		x.put = func(y any) []string {
			i, _ := y.(*bytes.Buffer)
			return []string{b(p.Put(i)), "nil"}
		}
		x.use = func(y any, n int) int {
			y.(*bytes.Buffer).Write(bytes.Repeat([]byte{7}, n))
			return y.(*bytes.Buffer).Len()
		}
		x.size = func(y any) int { return y.(*bytes.Buffer).Len() }
	case "buffer":
		x.get = func(int) any { return buffer.NewBufferByPool() }
		x.put = func(y any) []string {
			i, _ := y.(*buffer.Buffer)
			i.Free()
			return []string{b(i != nil), "nil"}
		}
		x.use, x.size = bufUse, bufSize
	case "bufpool":
		x.get = func(int) any { return buffer.BufPool.Get() }
		x.put = func(y any) []string {
			i, _ := y.(*buffer.Buffer)
			r := buffer.BufPool.Put(&i)
			return []string{b(r), isNil(i == nil)}
		}
		x.use, x.size = bufUse, bufSize
	}
	return x
}

func null(y any) bool {
	switch i := y.(type) {
	case nil:
		return true
	case *item:
		return i == nil
	case *bytes.Buffer:
		return i == nil
	case *buffer.Buffer:
		return i == nil
	}
	return false
}

func apply(o any, op []string) []string {
	x := o.(*obj)
	y := x.slots[op[1]]
	switch op[0] {
	case "get":
		if y != nil {
			return []string{"taken"}
		}
		y = x.get(num(op[2]))
		if null(y) {
			return []string{"nothing"}
		}
		id, ok := x.held[y]
		if !ok {
			for i := 1; ; i++ {
				id = fmt.Sprint(i)
				used := false
				for _, j := range x.held {
					used = used || j == id
				}
				if !used {
					break
				}
			}
			x.held[y] = id
		}
		x.slots[op[1]] = y
		return []string{id, fmt.Sprint(x.size(y))}
	case "put":
		if y != nil {
			delete(x.held, y)
			delete(x.slots, op[1])
		}
		return x.put(y)
	case "use":
		if y == nil {
			return []string{"none"}
		}
		return []string{fmt.Sprint(x.use(y, num(op[2])))}
	case "has":
		if y == nil {
			return []string{"none"}
		}
		return []string{x.held[y], fmt.Sprint(x.size(y))}
	}
	panic("op " + op[0])
}

func done(o any) {
	x := o.(*obj)
	for _, y := range x.slots {
		x.put(y)
	}
}

func gen(rng *rand.Rand, cfg map[string]string) []string {
	s := fmt.Sprint(1 + rng.Intn(7))
	switch rng.Intn(6) {
	case 0, 1:
		n := []string{"0", "1", "-1", "7", "8", "9", "16", "1000", "max", "min", "64", "128"}
		return []string{"get", s, n[rng.Intn(len(n))]}
	case 2, 3:
		return []string{"put", s}
	case 4:
		return []string{"use", s, []string{"0", "1", "5", "8", "64", "900"}[rng.Intn(6)]}
	}
	return []string{"has", s}
}

func main() {
	drv.Main(&drv.Component{New: newObj, Apply: apply, Close: done, Gen: gen})
}
