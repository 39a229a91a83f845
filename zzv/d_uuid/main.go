// Driver for package uuid (C27).
package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/donnie4w/gofer/uuid"
	"github.com/donnie4w/gofer/zzv/drv"
)

const maxKeep = 12

type obj struct {
	max  int
	keep []*uuid.UUID
	ids  map[string]string
}

func newObj(cfg map[string]string) any {
	x := &obj{ids: map[string]string{}, max: maxKeep}
	if k := num(cfg["keep"]); k > 0 {
		x.max = k
	}
	return x
}

func num(s string) int { n, _ := strconv.Atoi(s); return n }

func b(x bool) string {
	if x {
		return "t"
	}
	return "f"
}

func bytesOf(u *uuid.UUID) []string {
	r := []string{}
	for _, c := range u.Bytes() {
		r = append(r, fmt.Sprint(c))
	}
	return r
}

var form = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)

func good(u *uuid.UUID) bool {
	return form.MatchString(u.String()) && u.Version() == 4 && u.Variant() == 1
}

func (x *obj) add(u *uuid.UUID) {
	if len(x.keep) < x.max {
		x.keep = append(x.keep, u)
	}
}

func apply(o any, op []string) []string {
	x := o.(*obj)
	get := func(i string) *uuid.UUID {
		if n := num(i); n >= 1 && n <= len(x.keep) {
			return x.keep[n-1]
		}
		return nil
	}
	switch op[0] {
	case "new":
		u := uuid.NewUUID()
		x.add(u)
		return strings.Split(u.String(), "")
	case "id":
		u := uuid.NewUUID()
		s := string(u.Bytes())
		if x.ids[s] == "" {
			x.ids[s] = fmt.Sprint(len(x.ids) + 1)
		}
		if good(u) {
			return []string{x.ids[s], "well formed"}
		}
		return []string{x.ids[s], u.String()}
	case "parse":
		u, err := uuid.Parse(strings.Join(op[1:], ""))
		if err != nil {
			return []string{"err"}
		}
		x.add(u)
		return append([]string{"ok"}, bytesOf(u)...)
	case "burst":
		g, n := num(op[1]), num(op[2])
		all := make([][]*uuid.UUID, g)
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range all {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < n; k++ {
					all[i] = append(all[i], uuid.NewUUID())
				}
			}()
		}
		close(start)
		wg.Wait()
		seen, bad := map[uuid.UUID]bool{}, 0
		for _, l := range all {
			for _, u := range l {
				seen[*u] = true
				if !good(u) {
					bad++
				}
			}
		}
		return []string{fmt.Sprint(len(seen)), fmt.Sprint(bad)}
	case "eq":
		u, v := get(op[1]), get(op[2])
		if u == nil || v == nil {
			return []string{"none"}
		}
		return []string{b(u.Equals(v))}
	}
	u := get(op[1])
	if u == nil {
		return []string{"none"}
	}
	switch op[0] {
	case "string":
		return strings.Split(u.String(), "")
	case "bytes":
		return bytesOf(u)
	case "ver":
		return []string{fmt.Sprint(u.Version()), fmt.Sprint(u.Variant())}
	case "int":
		r := []string{}
		for i, n := 0, uint64(u.Int64()); i < 8; i++ {
			r = append(r, fmt.Sprint(n>>(56-8*i)&255))
		}
		return r
	case "b58":
		r := []string{}
		for _, c := range string(u.Base58()) {
			r = append(r, string(c))
		}
		return r
	case "i32":
		v := *u
		return []string{b(u.Int32() == v.Int32())}
	case "near":
		v := *u
		n := num(op[2]) - 1
		v[n/8%16] ^= 1 << (n % 8)
		return []string{b(u.Equals(&v)), b(v.Equals(u))}
	case "round":
		v, err := uuid.Parse(u.String())
		if err != nil {
			return []string{"err"}
		}
		return []string{b(u.Equals(v)), b(v.Equals(u)), b(u.Equals(nil))}
	}
	panic("op " + op[0])
}

const hexs = "0123456789abcdefABCDEF"

func gen(rng *rand.Rand, cfg map[string]string) []string {
	i := fmt.Sprint(1 + rng.Intn(maxKeep))
	switch rng.Intn(16) {
	case 0, 1, 2:
		return []string{"new"}
	case 3:
		return []string{"string", i}
	case 4:
		return []string{"bytes", i}
	case 5:
		return []string{"ver", i}
	case 6:
		return []string{"round", i}
	case 9:
		return []string{[]string{"int", "b58", "i32"}[rng.Intn(3)], i}
	case 10:
		return []string{"near", i, fmt.Sprint(1 + rng.Intn(128))}
	case 7, 8:
		return []string{"eq", i, fmt.Sprint(1 + rng.Intn(maxKeep))}
	}
	q := []string{}
	for k := 0; k < 36; k++ {
		switch k {
		case 8, 13, 18, 23:
			q = append(q, "-")
		default:
			q = append(q, string(hexs[rng.Intn(len(hexs))]))
		}
	}
	if rng.Intn(4) == 0 { // near an earlier one
		q = strings.Split("00000000-0000-4000-8000-000000000000", "")
		q[[]int{0, 7, 9, 14, 19, 24, 35}[rng.Intn(7)]] = string(hexs[rng.Intn(len(hexs))])
	}
	junk := []string{"-", "g", "0", " ", "x", "A", "\n", "}", "{", ":", "G", "/", "@", "`", "a", "_", "\x00", "é"}
	switch rng.Intn(10) {
	case 5: // with something around it
		w := []string{" ", "\t", "\n", "\r\n", "\x00", "  ", "\u00a0", "0", "-", "\""}[rng.Intn(10)]
		switch rng.Intn(3) {
		case 0:
			q = append([]string{w}, q...)
		case 1:
			q = append(q, w)
		case 2:
			q = append(append([]string{w}, q...), w)
		}
	case 0:
		q[rng.Intn(36)] = junk[rng.Intn(len(junk))]
	case 1:
		q[[]int{8, 13, 18, 23}[rng.Intn(4)]] = junk[rng.Intn(len(junk))]
	case 2: // one more or less
		k := rng.Intn(36)
		if rng.Intn(2) == 0 {
			q = append(q[:k], q[k+1:]...)
		} else {
			q = append(q[:k], append([]string{junk[rng.Intn(len(junk))]}, q[k:]...)...)
		}
	case 3: // two characters change places
		k, l := rng.Intn(36), rng.Intn(36)
		q[k], q[l] = q[l], q[k]
	case 4:
		switch rng.Intn(4) {
		case 0:
			q = nil
		case 1:
			q = append([]string{"{"}, append(q, "}")...)
		case 2:
			q = strings.Split(strings.ReplaceAll(strings.Join(q, ""), "-", ""), "")
		case 3:
			q = strings.Split("urn:uuid:"+strings.Join(q, ""), "")
		}
	}
	return append([]string{"parse"}, q...)
}

func main() {
	drv.Main(&drv.Component{New: newObj, Apply: apply, Gen: gen})
}
