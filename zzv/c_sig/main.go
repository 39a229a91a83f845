// Driver for gosignal under the controlled scheduler (C29): the signals are raised here.
package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/donnie4w/gofer/gosignal"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vsched"
	"github.com/donnie4w/gofer/zzv/vsignal"
)

var sigs = map[string]os.Signal{"USR1": syscall.SIGUSR1, "USR2": syscall.SIGUSR2, "HUP": syscall.SIGHUP, "TERM": syscall.SIGTERM, "INT": os.Interrupt}

func name(s os.Signal) string {
	for n, x := range sigs {
		if x == s {
			return n
		}
	}
	return fmt.Sprint("no such signal: ", s)
}

// what the function of a listener does besides being counted: cfg "in_ID": "block", or operations
func scenario(sc *drv.Scenario) []func() {
	var do func(t int, ops [][]string)
	tn := 100
	do = func(t int, ops [][]string) {
		for _, op := range ops {
			vsched.Y()
			vsched.Log("inv", t, op, []string{})
			res := "ok"
			switch op[0] {
			case "listen":
				var l []os.Signal
				for _, s := range op[2:] {
					l = append(l, sigs[s])
				}
				gosignal.ListenSignalEvent(func(s os.Signal) {
					vsched.Log("cb", 0, []string{op[1], name(s)}, []string{})
					vsched.Y()
					switch in := sc.Cfg["in_"+op[1]]; in {
					case "":
					case "block":
						vsched.Block(func() bool { return false })
					default:
						tn++
						var ops [][]string
						for _, o := range strings.Split(in, ";") {
							ops = append(ops, strings.Fields(o))
						}
						do(tn, ops)
					}
				}, l...)
			case "raise":
				if !vsignal.Raise(sigs[op[1]]) {
					res = "default"
				}
			}
			vsched.Log("ret", t, op, []string{res})
		}
	}
	return []func(){
		func() {
			vsignal.Start()
			do(1, sc.Pre)
			for i, ops := range sc.Threads {
				i, ops := i, ops
				vsched.Client(fmt.Sprint(i+1), func() { do(i+2, ops) })
			}
		},
		func() { do(len(sc.Threads)+2, sc.Post) },
	}
}

func main() {
	drv.Main(&drv.Component{Custom: map[string]func(*drv.Scenario) []func(){"sig": scenario}})
}
