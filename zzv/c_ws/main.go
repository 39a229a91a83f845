// Driver for websocket.Handler under the controlled scheduler (C28): the peer is played here.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/donnie4w/gofer/websocket"
	"github.com/donnie4w/gofer/zzv/drv"
	"github.com/donnie4w/gofer/zzv/vsched"
	"github.com/donnie4w/gofer/zzv/vws"
)

func scenario(sc *drv.Scenario) []func() {
	var conn *vws.Conn
	var h *websocket.Handler
	tn := 100
	var do func(t int, ops [][]string, h *websocket.Handler)
	// what a callback does besides being counted: cfg in_open, in_msg, in_error, in_close
	inside := func(cb string, h *websocket.Handler) {
		if s := sc.Cfg["in_"+cb]; s != "" {
			tn++
			t := tn
			var ops [][]string
			for k, o := range strings.Split(s, ";") {
				op := strings.Fields(o)
				if op[0] == "send" {
					op = []string{"send", fmt.Sprint(cb, t, "-", k)}
				}
				ops = append(ops, op)
			}
			do(t, ops, h)
		}
	}
	apply := func(op []string, h *websocket.Handler) (r []string) {
		defer func() {
			if e := recover(); e != nil {
				r = []string{"panic", fmt.Sprint(e)}
			}
		}()
		ok := func(err error) []string {
			if err != nil {
				return []string{"err"}
			}
			return []string{"ok"}
		}
		switch op[0] {
		case "send":
			return ok(h.Send([]byte(op[1])))
		case "close":
			return ok(h.Close())
		case "error":
			if h.Error() != nil {
				return []string{"set"}
			}
			return []string{"nil"}
		}
		panic("op " + op[0])
	}
	do = func(t int, ops [][]string, h *websocket.Handler) {
		for _, op := range ops {
			vsched.Y()
			switch op[0] {
			case "peer":
				vsched.Log("peer", 0, op[1:], []string{})
				switch op[1] {
				case "send":
					conn.Push([]byte(op[2]), byte(1+len(op[2])%2))
				case "end":
					conn.End(io.EOF, false)
				case "cut":
					conn.End(errors.New("connection reset by peer"), true)
				}
				continue
			}
			vsched.Log("inv", t, op, []string{})
			vsched.Log("ret", t, op, apply(op, h))
		}
	}
	return []func(){
		func() {
			vws.Connect = func(c *vws.Config) (*vws.Conn, error) {
				if sc.Cfg["dial"] != "ok" {
					return nil, errors.New("connection refused")
				}
				conn = &vws.Conn{Arrive: func(b []byte) { vsched.Log("peer", 0, []string{"got", string(b)}, []string{}) },
					Freed: func() { vsched.Log("peer", 0, []string{"freed"}, []string{}) }}
				do(0, sc.Pre, nil) // what the peer sends at once
				return conn, nil
			}
			cfg := &websocket.Config{Url: "ws://127.0.0.1:1/x", Origin: "http://127.0.0.1"}
			if sc.Cfg["open"] == "t" {
				cfg.OnOpen = func(h *websocket.Handler) {
					vsched.Log("cb", 0, []string{"open"}, []string{})
					vsched.Y()
					inside("open", h)
				}
			}
			if sc.Cfg["msg"] == "t" {
				cfg.OnMessage = func(h *websocket.Handler, b []byte) {
					vsched.Log("cb", 0, []string{"msg", string(b)}, []string{})
					vsched.Y()
					inside("msg", h)
				}
			}
			if sc.Cfg["error"] == "t" {
				cfg.OnError = func(h *websocket.Handler, err error) {
					x := "t"
					if err == nil {
						x = "f"
					}
					vsched.Log("cb", 0, []string{"error", x}, []string{})
					vsched.Y()
					inside("error", h)
				}
			}
			if sc.Cfg["close"] == "t" {
				cfg.OnClose = func(h *websocket.Handler) {
					vsched.Log("cb", 0, []string{"close"}, []string{})
					vsched.Y()
					inside("close", h)
				}
			}
			vsched.Log("inv", 1, []string{"new"}, []string{})
			x, err := websocket.NewHandler(cfg)
			if err != nil || x == nil {
				vsched.Log("ret", 1, []string{"new"}, []string{"err"})
				return
			}
			h = x
			vsched.Log("ret", 1, []string{"new"}, []string{"ok"})
			for i, ops := range sc.Threads {
				i, ops := i, ops
				vsched.Client(fmt.Sprint(i+1), func() { do(i+2, ops, h) })
			}
		},
		func() {
			if h != nil {
				do(len(sc.Threads)+2, sc.Post, h)
			}
		},
	}
}

func main() {
	drv.Main(&drv.Component{Custom: map[string]func(*drv.Scenario) []func(){"ws": scenario}})
}
