// Driver for the integer encodings of util and base58 (C31).
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"

	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/zzv/drv"
)

func num(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// number made of 16-bit limbs
func number(l []string) (n uint64) {
	for _, x := range l {
		n = n<<16 | num(x)
	}
	return
}

func limbs(n uint64, k int) (r []string) {
	for i := k - 1; i >= 0; i-- {
		r = append(r, fmt.Sprint(n>>(16*i)&0xFFFF))
	}
	return
}

func list(b []byte) []string {
	r := []string{}
	for _, c := range b {
		r = append(r, fmt.Sprint(c))
	}
	return r
}

func bytesOf(q []string) []byte {
	b := make([]byte, len(q), len(q)+8)
	for i, x := range q {
		b[i] = byte(num(x))
	}
	return b
}

func chars(b []byte) []string {
	r := []string{}
	for _, c := range b {
		r = append(r, string(rune(c)))
	}
	return r
}

func text(q []string) []byte {
	b := []byte{}
	for _, x := range q {
		for _, c := range x {
			b = append(b, byte(c))
		}
	}
	return b
}

func apply(o any, op []string) []string {
	a := op[1:]
	in := []byte(nil)
	r := func() []string {
		switch op[0] {
		case "i64":
			return list(util.Int64ToBytes(int64(number(a))))
		case "i32":
			return list(util.Int32ToBytes(int32(number(a))))
		case "i16":
			return list(util.Int16ToBytes(int16(number(a))))
		case "arr":
			n := []int64{}
			for i := 0; i+4 <= len(a); i += 4 {
				n = append(n, int64(number(a[i:i+4])))
			}
			return list(util.IntArrayToBytes(n))
		case "to64":
			in = bytesOf(a)
			return limbs(uint64(util.BytesToInt64(in)), 4)
		case "to32":
			in = bytesOf(a)
			return limbs(uint64(util.BytesToInt32(in)), 2)
		case "to16":
			in = bytesOf(a)
			return limbs(uint64(util.BytesToInt16(in)), 1)
		case "toarr":
			in = bytesOf(a)
			r := []string{}
			for _, n := range util.BytesToIntArray(in) {
				r = append(r, limbs(uint64(n), 4)...)
			}
			return r
		case "b58":
			return chars(base58.EncodeForInt64(number(a)))
		case "round58":
			n, ok := base58.DecodeForInt64(base58.EncodeForInt64(number(a)))
			if !ok {
				return []string{"no"}
			}
			return append([]string{"ok"}, limbs(n, 4)...)
		case "un58":
			n, ok := base58.DecodeForInt64(text(a))
			if !ok {
				return []string{"no"}
			}
			return append([]string{"ok"}, limbs(n, 4)...)
		}
		panic("op " + op[0])
	}()
	if in != nil && !bytes.Equal(in, bytesOf(a)) {
		return []string{"the input changed"}
	}
	return r
}

func limb(rng *rand.Rand) string {
	return fmt.Sprint([]int{0, 1, 0x7FFF, 0x8000, 0xFFFF, 0xFF, 0x100, 0x80, 0x7F80, 57, 58, 59, rng.Intn(65536), rng.Intn(65536), rng.Intn(65536), rng.Intn(65536)}[rng.Intn(16)])
}

const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func gen(rng *rand.Rand, cfg map[string]string) []string {
	op := []string{"i64", "i32", "i16", "arr", "to64", "to32", "to16", "toarr", "b58", "round58", "un58", "un58"}[rng.Intn(12)]
	r := []string{op}
	n := 0
	switch op {
	case "i64", "b58", "round58":
		n = 4
	case "i32":
		n = 2
	case "i16":
		n = 1
	case "arr":
		n = 4 * rng.Intn(5)
	case "un58":
		if rng.Intn(2) == 0 { // what encodes some number
			x := rng.Uint64() >> rng.Intn(64)
			q := []byte{}
			for ; x > 0; x /= 58 {
				q = append([]byte{alphabet[x%58]}, q...)
			}
			r = append(r, chars(q)...)
		} else {
			for i := rng.Intn(11); i > 0; i-- {
				r = append(r, string(alphabet[rng.Intn(58)]))
			}
		}
		if len(r) > 1 && rng.Intn(3) == 0 {
			bad := []string{"0", "O", "I", "l", " ", "-", "+", "/", "_", ".", "~", "\n", "é", "ÿ", ":", "@", "[", "`", "{", "\x01"}
			r[1+rng.Intn(len(r)-1)] = bad[rng.Intn(len(bad))]
		}
		if len(r) > 11 { // might not fit
			r = r[:11]
		}
		return r
	default:
		for i := rng.Intn(12) + 12*(rng.Intn(4)/3); i > 0; i-- {
			r = append(r, fmt.Sprint([]int{0, 1, 127, 128, 255, rng.Intn(256)}[rng.Intn(6)]))
		}
		return r
	}
	for i := 0; i < n; i++ {
		r = append(r, limb(rng))
	}
	return r
}

func main() {
	drv.Main(&drv.Component{New: func(map[string]string) any { return 0 }, Apply: apply, Gen: gen})
}
