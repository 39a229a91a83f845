// Package vsignal replaces os/signal in instrumented code: signals are raised by the driver and
// handed to the registered channels, as the runtime does it, without waiting for a receiver.
package vsignal

import (
	"os"

	"github.com/donnie4w/gofer/zzv/vsched"
)

type handler struct {
	c    chan<- os.Signal
	all  bool
	sigs map[os.Signal]bool
}

var handlers []*handler

func find(c chan<- os.Signal) *handler {
	for _, h := range handlers {
		if h.c == c {
			return h
		}
	}
	h := &handler{c: c, sigs: map[os.Signal]bool{}}
	handlers = append(handlers, h)
	return h
}

// Start forgets all registrations.
func Start() { handlers = nil }

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	vsched.Y()
	h := find(c)
	h.all = h.all || len(sigs) == 0
	for _, s := range sigs {
		h.sigs[s] = true
	}
	vsched.Progress()
}

func Stop(c chan<- os.Signal) {
	vsched.Y()
	for i, h := range handlers {
		if h.c == c {
			handlers = append(handlers[:i:i], handlers[i+1:]...)
			return
		}
	}
}

func Reset(sigs ...os.Signal) {
	vsched.Y()
	for _, h := range handlers {
		for _, s := range sigs {
			delete(h.sigs, s)
		}
		if len(sigs) == 0 {
			h.sigs = map[os.Signal]bool{}
		}
	}
}

func Ignore(sigs ...os.Signal)   { Reset(sigs...) }
func Ignored(sig os.Signal) bool { return false }

// Raise delivers a signal. When nothing is registered for it, it has its default effect on the process.
func Raise(s os.Signal) (handled bool) {
	vsched.Y()
	todo := append([]*handler{}, handlers...)
	for len(todo) > 0 {
		k := vsched.Choose(len(todo))
		h := todo[k]
		todo = append(todo[:k:k], todo[k+1:]...)
		if h.all || h.sigs[s] {
			handled = true
			vsched.Y()
			vsched.Select(true, vsched.CaseSend(h.c)(s))
		}
	}
	vsched.Progress()
	return
}
