// Driver for package gopool (C01-C03).
package main

import (
	"fmt"
	"strconv"

	"github.com/donnie4w/gofer/pool/gopool"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vsched"
)

func scenario(sc *drv.Scenario) []func() {
	n := func(k string) int64 { x, _ := strconv.ParseInt(sc.Cfg[k], 10, 64); return x }
	var p *gopool.GoPool
	closing := false
	apply := func(op []string) (r []string) {
		defer func() {
			if e := recover(); e != nil {
				r = []string{"panic", fmt.Sprint(e)}
			}
		}()
		switch op[0] {
		case "go":
			id, kind := op[1], op[2]
			p.Go(func() {
				vsched.Log("start", 0, []string{id}, []string{})
				defer vsched.Log("end", 0, []string{id}, []string{})
				ended := closing // a plain goroutine may be running it: a panic would be the caller's
				vsched.Y()
				if kind == "q" && !ended {
					panic("function " + id)
				}
				if kind == "p" {
					panic("function " + id)
				}
				if kind == "e" {
					panic(fmt.Errorf("function %s", id))
				}
			})
		case "close":
			closing = true
			p.Close()
		case "off":
			closing = true
			p.TurnOff(op[1] == "t")
		case "num":
			return []string{fmt.Sprint(p.NumUnExecu())}
		}
		return []string{}
	}
	do := func(t int, ops [][]string) {
		for _, op := range ops {
			vsched.Y()
			vsched.Log("inv", t, op, []string{})
			vsched.Log("ret", t, op, apply(op))
		}
	}
	return []func(){
		func() {
			if sc.Cfg["ql"] == "" {
				p = gopool.NewPool(n("min"), n("max"))
			} else {
				p = gopool.NewPoolWithFuncLimit(n("min"), n("max"), int(n("ql")))
			}
			do(1, sc.Pre)
		},
		func() {
			for i, ops := range sc.Threads {
				i, ops := i, ops
				vsched.Client(fmt.Sprint(i+1), func() { do(i+1, ops) })
			}
		},
		func() { do(len(sc.Threads)+1, sc.Post) },
	}
}

func main() {
	drv.Main(&drv.Component{Custom: map[string]func(*drv.Scenario) []func(){"pool": scenario}})
}
