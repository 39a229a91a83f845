// Driver for lock.Numlock and lock.Strlock (C07, C08).
package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/donnie4w/gofer/lock"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vsched"
)

type unlocker interface{ Unlock() }
type runlocker interface{ RUnlock() }

type obj struct {
	num  *lock.Numlock
	str  *lock.Strlock
	keys map[string]int64
	sks  map[string]string
	ok   map[int]bool
	mu   map[string][]any // the mutexes returned for a key, not yet used
}

func newObj(cfg map[string]string) any {
	m, _ := strconv.Atoi(cfg["mux"])
	o := &obj{mu: map[string][]any{}, ok: map[int]bool{}}
	n := int64(m)
	var ks [3]int64
	switch cfg["keys"] {
	case "small":
		ks = [3]int64{0, 1, 2}
	case "neg":
		ks = [3]int64{-1, -2, -5}
	case "mod":
		ks = [3]int64{n - 1, n, -n}
	case "edge":
		ks = [3]int64{math.MinInt64, math.MaxInt64, 1 << 32}
	case "same":
		ks = [3]int64{5, 5 + n, 5 + 2*n}
	}
	o.keys = map[string]int64{"1": ks[0], "2": ks[1], "3": ks[2]}
	var ss [3]string
	switch cfg["keys"] {
	case "plain":
		ss = [3]string{"a", "b", "c"}
	case "empty":
		ss = [3]string{"", " ", "0"}
	case "long":
		ss = [3]string{strings.Repeat("k", 1000), strings.Repeat("k", 1001), "k"}
	case "bin":
		ss = [3]string{"\x00", "\xff\xfe", "日本"}
	}
	o.sks = map[string]string{"1": ss[0], "2": ss[1], "3": ss[2]}
	if cfg["kind"] == "num" {
		o.num = lock.NewNumLock(m)
	} else {
		o.str = lock.NewStrlock(m)
	}
	return o
}

func (o *obj) got(k string, m any) { o.mu[k] = append(o.mu[k], m) }
func (o *obj) pop(k string) any {
	q := o.mu[k]
	if len(q) == 0 {
		return nil
	}
	o.mu[k] = q[1:]
	return q[0]
}

func apply(x any, op []string) []string {
	o := x.(*obj)
	k := op[1]
	t := func(ok, nilm bool) []string {
		if ok == nilm {
			return []string{"mutex does not fit the result"}
		}
		if ok {
			return []string{"t"}
		}
		return []string{"f"}
	}
	if o.num != nil {
		n := o.keys[k]
		switch op[0] {
		case "lock":
			o.got(k, o.num.Lock(n))
		case "trylock":
			m, ok := o.num.TryLock(n)
			if ok {
				o.got(k, m)
			}
			return t(ok, m == nil)
		case "unlock":
			o.pop(k)
			o.num.Unlock(n)
		case "munlock":
			o.pop(k).(unlocker).Unlock()
		}
		return []string{}
	}
	s := o.sks[k]
	switch op[0] {
	case "lock":
		o.got(k, o.str.Lock(s))
	case "trylock":
		m, ok := o.str.TryLock(s)
		if ok {
			o.got(k, m)
		}
		return t(ok, m == nil)
	case "unlock":
		o.pop(k)
		o.str.Unlock(s)
	case "munlock":
		o.pop(k).(unlocker).Unlock()
	case "rlock":
		o.got(k, o.str.RLock(s))
	case "tryrlock":
		m, ok := o.str.TryRLock(s)
		if ok {
			o.got(k, m)
		}
		return t(ok, m == nil)
	case "runlock":
		o.pop(k)
		o.str.RUnlock(s)
	case "mrunlock":
		o.pop(k).(runlocker).RUnlock()
	}
	return []string{}
}

// raw makes "u? k" and "ru? k" unlock k if the thread's last try succeeded.
func raw(x any, t int, op []string) bool {
	o := x.(*obj)
	do := func(op []string) {
		vsched.Log("inv", t, op, []string{})
		r := comp.Safe(x, op)
		vsched.Log("ret", t, op, r)
		if strings.HasPrefix(op[0], "try") {
			o.ok[t] = r[0] == "t"
		}
	}
	switch op[0] {
	case "u?":
		if o.ok[t] {
			do([]string{"munlock", op[1]})
		}
	case "ru?":
		if o.ok[t] {
			do([]string{"runlock", op[1]})
		}
	default:
		do(op)
	}
	return true
}

var comp = &drv.Component{New: newObj, Apply: apply}

func main() {
	comp.Raw = raw
	drv.Main(comp)
}
