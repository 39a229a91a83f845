// Package vtime replaces the clock functions of package time by the virtual clock.
package vtime

import (
	"time"

	"github.com/donnie4w/gofer/zzv/vsched"
)

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	stop func() bool
}

func now() time.Time { return time.Unix(1700000000, 0).Add(time.Duration(vsched.Now())) }

func Now() time.Time                         { vsched.Y(); return now() }
func Since(t time.Time) time.Duration        { return Now().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(Now()) }
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func (t *Timer) arm(d time.Duration) {
	t.stop = vsched.AddTimer(d, func() {
		if t.f != nil {
			vsched.Spawn(t.f)
			return
		}
		select {
		case t.c <- now():
		default:
		}
	})
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}
func (t *Timer) Stop() bool {
	vsched.Y()
	b := t.stop()
	t.drain() // go >= 1.23 semantics: no stale value after Stop
	return b
}
func (t *Timer) Reset(d time.Duration) bool {
	vsched.Y()
	b := t.stop()
	t.drain()
	t.arm(d)
	return b
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	stop func() bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	t.stop = vsched.AddTimer(t.d, func() {
		select {
		case t.c <- now():
		default:
		}
		t.arm()
	})
}
func (t *Ticker) Stop()                     { vsched.Y(); t.stop() }
func (t *Ticker) Reset(d time.Duration)     { vsched.Y(); t.stop(); t.d = d; t.arm() }
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

func Sleep(d time.Duration) {
	if !vsched.Active() {
		return
	}
	done := false
	vsched.AddTimer(d, func() { done = true })
	vsched.Block(func() bool { return done })
}
