// Driver for lock.Await and lock.FastAwait (C04-C06), and lock.LimitLock (C09). Instrumented build only.
package main

import (
	"context"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/donnie4w/gofer/lock"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vctx"
	"github.com/donnie4w/gofer/zzv/vsched"
	"github.com/donnie4w/gofer/zzv/vsync"
	"github.com/donnie4w/gofer/zzv/vtime"
)

func atoi(s string) int64 { n, _ := strconv.ParseInt(s, 10, 64); return n }

func safe(f func() []string) (r []string) {
	defer func() {
		if e := recover(); e != nil {
			r = []string{"panic", fmt.Sprint(e)}
		}
	}()
	return f()
}

func phases(sc *drv.Scenario, pre func(), apply func(op []string) []string) []func() {
	do := func(t int, ops [][]string) {
		holds := true
		for _, op := range ops {
			vsched.Y()
			if op[0] == "unlock" && !holds { // its lock failed
				continue
			}
			vsched.Log("inv", t, op, []string{})
			r := safe(func() []string { return apply(op) })
			vsched.Log("ret", t, op, r)
			if op[0] == "lock" {
				holds = r[0] == "ok"
			}
		}
	}
	ph := []func(){func() {
		pre()
		do(1, sc.Pre)
	}, func() {
		for i, ops := range sc.Threads {
			i, ops := i, ops
			vsched.Client(fmt.Sprint(i+1), func() { do(i+1, ops) })
		}
	}}
	if len(sc.Post) > 0 {
		ph = append(ph, func() { do(len(sc.Threads)+1, sc.Post) })
	}
	return ph
}

type vctxKey int

type cx struct {
	context.Context
	cancel context.CancelFunc
}

func await(sc *drv.Scenario) []func() {
	var aw *lock.Await[string]
	var fa *lock.FastAwait[string]
	wg := &vsync.WaitGroup{}
	ctxs := map[string]cx{}
	// ids: the abstract numbers mapped to int64 keys
	id := func(s string) int64 {
		n := atoi(s)
		switch sc.Cfg["ids"] {
		case "neg":
			return -n
		case "big":
			return 1<<62 + n*64
		case "zero":
			return n - 1
		case "hi32":
			return n<<32 + 7
		case "hi8":
			return n << 8
		case "edge":
			return -1<<63 + n - 1
		}
		return n
	}
	get := func(c string) context.Context {
		if c == "bg" {
			return context.Background()
		}
		if p, ok := strings.CutPrefix(c, "k"); ok { // a child of c1, c2
			x, _ := context.WithCancel(context.WithValue(ctxs["c"+p], vctxKey(1), c))
			return x
		}
		return ctxs[c]
	}
	res := func(v string, cancel bool, err error) []string {
		switch {
		case cancel && err == nil:
			return []string{"cancel without error"}
		case err != nil && v != "":
			return []string{"error with value"}
		case cancel:
			return []string{"cancel"}
		case err != nil:
			return []string{"timeout"}
		case v == "":
			v = "-"
		}
		return []string{"ok", v}
	}
	sig := func(err error) []string {
		if err != nil {
			return []string{"err"}
		}
		return []string{"ok"}
	}
	apply := func(op []string) []string {
		switch op[0] {
		case "wait":
			T := dur(op[2])
			if fa != nil {
				v, err := fa.Wait(id(op[1]), T)
				return res(v, false, err)
			}
			v, err := aw.Wait(id(op[1]), T)
			return res(v, false, err)
		case "waitc":
			T := dur(op[2])
			if fa != nil {
				return res(fa.WaitWithCancel(get(op[3]), id(op[1]), T))
			}
			return res(aw.WaitWithCancel(get(op[3]), id(op[1]), T))
		case "swait":
			T := dur(op[2])
			w := wg
			if len(op) > 3 {
				w = nil
			}
			v, err := aw.SyncWait(w, id(op[1]), T)
			return res(v, false, err)
		case "put":
			if fa != nil {
				return sig(fa.CloseAndPut(id(op[1]), op[2]))
			}
			return sig(aw.CloseAndPut(id(op[1]), op[2]))
		case "close":
			if fa != nil {
				return sig(fa.Close(id(op[1])))
			}
			return sig(aw.Close(id(op[1])))
		case "has":
			if aw.Has(id(op[1])) {
				return []string{"t"}
			}
			return []string{"f"}
		case "cancel":
			ctxs[op[1]].cancel()
		case "deadline":
			x, f := vctx.WithTimeout(context.Background(), dur(op[2]))
			ctxs[op[1]] = cx{x, f}
		case "sleep":
			vtime.Sleep(dur(op[1]))
		case "wgwait":
			wg.Wait()
		}
		return []string{}
	}
	return phases(sc, func() {
		if sc.Cfg["kind"] == "fast" {
			if fa = nil; sc.Cfg["ctor"] == "1" {
				fa = lock.NewFastAwait[string]()
			} else {
				fa = lock.NewFastAwait2[string](64)
			}
		} else {
			aw = lock.NewAwait[string](int(atoi(sc.Cfg["mux"])))
		}
		for _, c := range []string{"c1", "c2"} {
			x, f := context.WithCancel(context.Background())
			ctxs[c] = cx{x, f}
		}
		for _, ops := range append([][][]string{sc.Pre, sc.Post}, sc.Threads...) {
			for _, op := range ops {
				if op[0] == "swait" && len(op) == 3 {
					wg.Add(1)
				}
			}
		}
	}, apply)
}

// dur is a duration in milliseconds, or in microseconds (450u).
func dur(s string) time.Duration {
	if u, ok := strings.CutSuffix(s, "u"); ok {
		return time.Duration(atoi(u)) * time.Microsecond
	}
	return time.Duration(atoi(s)) * time.Millisecond
}

func limit(sc *drv.Scenario) []func() {
	var ll *lock.LimitLock
	var held int
	return phases(sc, func() {
		held = 0
		ll = lock.NewLimitLock(int(atoi(sc.Cfg["limit"])), dur(sc.Cfg["timeout"]))
	}, func(op []string) []string {
		switch op[0] {
		case "lock":
			if ll.Lock() != nil {
				return []string{"err"}
			}
			held++
			return []string{"ok"}
		case "unlock":
			if held == 0 { // nothing to unlock: the lock timed out
				return []string{"not asked"}
			}
			held--
			ll.Unlock()
		case "cc":
			return []string{fmt.Sprint(ll.Cc())}
		case "count":
			return []string{fmt.Sprint(ll.LockCount())}
		case "sleep":
			vtime.Sleep(dur(op[1]))
		}
		return []string{}
	})
}

func main() {
	drv.Main(&drv.Component{Custom: map[string]func(*drv.Scenario) []func(){"await": await, "limit": limit}})
}
