// Driver for cache.BloomFilter (C17).
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vmaphash"
)

type obj struct {
	bf   *cache.BloomFilter
	conc string
	buf  []byte
}

func (o *obj) item(s string) []byte {
	n, _ := strconv.Atoi(s)
	switch o.conc {
	case "int":
		return binary.BigEndian.AppendUint64(nil, uint64(n))
	case "empty":
		if n == 1 {
			return []byte{}
		}
	case "nil":
		if n == 1 {
			return nil
		}
	case "long":
		return []byte(strings.Repeat("x", 4000) + s)
	case "vary": // all lengths
		b := bytes.Repeat([]byte{byte(n)}, []int{300, 5000, 7, 70000, 8, 1, 63}[n%7])
		return binary.BigEndian.AppendUint64(b, uint64(n))
	case "reuse": // the caller reuses its slice
		o.buf = append(o.buf[:0], s...)
		return o.buf
	}
	return []byte("item " + s)
}

func newObj(c map[string]string) any {
	vmaphash.Reset()
	n, _ := strconv.Atoi(c["n"])
	fp, _ := strconv.ParseFloat(c["fp"], 64)
	return &obj{bf: cache.NewBloomFilter(uint64(n), fp), conc: c["conc"]}
}

func apply(x any, op []string) []string {
	o := x.(*obj)
	switch op[0] {
	case "add":
		o.bf.Add(o.item(op[1]))
	case "has":
		if o.bf.Contains(o.item(op[1])) {
			return []string{"t"}
		}
		return []string{"f"}
	case "addmany": // addmany from to
		a, _ := strconv.Atoi(op[1])
		b, _ := strconv.Atoi(op[2])
		for i := a; i <= b; i++ {
			o.bf.Add(o.item(fmt.Sprint(i)))
		}
	case "most": // does it report more than half of the items from..to?
		a, _ := strconv.Atoi(op[1])
		b, _ := strconv.Atoi(op[2])
		c := 0
		for i := a; i <= b; i++ {
			if o.bf.Contains(o.item(fmt.Sprint(i))) {
				c++
			}
		}
		if 2*c > b-a+1 {
			return []string{"t"}
		}
		return []string{"f"}
	}
	return []string{}
}

// a random walk: mostly new items, and questions about recent ones
func gen(rng *rand.Rand, c map[string]string) []string {
	n, _ := strconv.Atoi(c["n"])
	span := 4*n + 4
	if rng.Intn(2) == 0 {
		return []string{"add", fmt.Sprint(1 + rng.Intn(span))}
	}
	return []string{"has", fmt.Sprint(1 + rng.Intn(span))}
}

func main() { drv.Main(&drv.Component{New: newObj, Apply: apply, Gen: gen}) }
