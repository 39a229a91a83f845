// Driver for gosignal with real signals, sent to itself (C29). The scenarios run one after another;
// every signal used is also registered here, so none ends the process.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/donnie4w/gofer/gosignal"
	"github.com/donnie4w/gofer/zzv/drv"
)

type ev struct {
	E string   `json:"e"`
	T int      `json:"t"`
	O []string `json:"o"`
	R []string `json:"r"`
	C int64    `json:"c"`
}

var sigs = map[string]syscall.Signal{"USR1": syscall.SIGUSR1, "USR2": syscall.SIGUSR2, "HUP": syscall.SIGHUP, "TERM": syscall.SIGTERM,
	"INT": syscall.SIGINT, "WINCH": syscall.SIGWINCH, "CONT": syscall.SIGCONT, "ALRM": syscall.SIGALRM, "QUIT": syscall.SIGQUIT, "CHLD": syscall.SIGCHLD}

func name(s os.Signal) string {
	for n, x := range sigs {
		if x == s {
			return n
		}
	}
	return fmt.Sprint("no such signal: ", s)
}

var seen [65]int64

func main() {
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var in struct {
		Scenarios []*drv.Scenario `json:"scenarios"`
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	f, _ := os.Create(os.Args[3])
	enc := json.NewEncoder(f)
	for _, sc := range in.Scenarios {
		signal.Reset()
		own := make(chan os.Signal, 1000)
		for _, s := range sigs {
			signal.Notify(own, s)
		}
		go func() {
			for s := range own {
				atomic.AddInt64(&seen[s.(syscall.Signal)], 1)
			}
		}()
		h := run(sc)
		signal.Stop(own)
		close(own)
		enc.Encode(map[string]any{"name": sc.Name, "cfg": sc.Cfg, "ev": h})
	}
	signal.Reset()
	f.Close()
}

func run(sc *drv.Scenario) []ev {
	var mu sync.Mutex
	var evs []ev
	over := false
	log := func(e string, t int, o, r []string) {
		mu.Lock()
		if !over {
			evs = append(evs, ev{e, t, o, r, 0})
		}
		mu.Unlock()
	}
	var rm sync.Mutex
	var tn int32 = 100
	var do func(t int, ops [][]string)
	do = func(t int, ops [][]string) {
		for _, op := range ops {
			if op[0] == "wait" {
				n, _ := strconv.Atoi(op[1])
				time.Sleep(time.Duration(n) * time.Millisecond)
				continue
			}
			log("inv", t, op, []string{})
			switch op[0] {
			case "listen":
				var l []os.Signal
				for _, s := range op[2:] {
					l = append(l, sigs[s])
				}
				gosignal.ListenSignalEvent(func(s os.Signal) {
					log("cb", 0, []string{op[1], name(s)}, []string{})
					switch in := sc.Cfg["in_"+op[1]]; in {
					case "":
					case "block":
						select {}
					default:
						var ops [][]string
						for _, o := range strings.Split(in, ";") {
							ops = append(ops, strings.Fields(o))
						}
						do(int(atomic.AddInt32(&tn, 1)), ops)
					}
				}, l...)
			case "raise":
				// one at a time, so that none is merged with another; delivered once we have it as well
				rm.Lock()
				s := sigs[op[1]]
				n := atomic.LoadInt64(&seen[s])
				syscall.Kill(os.Getpid(), s)
				for i := 0; atomic.LoadInt64(&seen[s]) == n; i++ {
					if i > 50000 {
						fmt.Fprintln(os.Stderr, "a signal did not arrive", op)
						os.Exit(3)
					}
					time.Sleep(100 * time.Microsecond)
				}
				rm.Unlock()
			}
			log("ret", t, op, []string{"ok"})
		}
	}
	settle := func() {
		time.Sleep(40 * time.Millisecond)
		// what has to happen gets some seconds
		open := func() bool {
			mu.Lock()
			defer mu.Unlock()
			n := 0
			owed := map[string]bool{}
			wants := map[string][]string{}
			for _, e := range evs {
				switch {
				case e.E == "inv":
					n++
				case e.E == "ret" && e.O[0] == "listen":
					wants[e.O[1]] = e.O[2:]
				case e.E == "cb":
					delete(owed, e.O[0])
					delete(wants, e.O[0])
				}
				if e.E == "inv" && e.O[0] == "raise" {
					for id, l := range wants {
						for _, s := range l {
							if s == e.O[1] {
								owed[id] = true
							}
						}
					}
				}
				if e.E == "ret" {
					n--
				}
			}
			return n > 0 || len(owed) > 0
		}
		for i := 0; i < 400 && open(); i++ {
			time.Sleep(10 * time.Millisecond)
		}
		log("quiet", 0, []string{}, []string{})
	}
	do(1, sc.Pre)
	var wg sync.WaitGroup
	for i, ops := range sc.Threads {
		wg.Add(1)
		go func() { defer wg.Done(); do(i+2, ops) }()
	}
	end := make(chan bool)
	go func() { wg.Wait(); close(end) }()
	select {
	case <-end:
	case <-time.After(20 * time.Second):
	}
	settle()
	do(len(sc.Threads)+2, sc.Post)
	settle()
	mu.Lock()
	over = true
	mu.Unlock()
	return evs
}
