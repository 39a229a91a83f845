// Package vctx replaces the deadline functions of package context by the virtual clock.
package vctx

import (
	"context"
	"time"

	"github.com/donnie4w/gofer/zzv/vsched"
)

type tctx struct {
	context.Context
	dl time.Time
}

func (c *tctx) Deadline() (time.Time, bool) { return c.dl, true }
func (c *tctx) Err() error {
	if e := c.Context.Err(); e != nil {
		if context.Cause(c.Context) == context.DeadlineExceeded {
			return context.DeadlineExceeded
		}
		return e
	}
	return nil
}

func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	in, cancel := context.WithCancelCause(p)
	c := &tctx{Context: in, dl: time.Unix(1700000000, 0).Add(time.Duration(vsched.Now()) + d)}
	stop := vsched.AddTimer(d, func() { cancel(context.DeadlineExceeded) })
	return c, func() { vsched.Y(); stop(); cancel(context.Canceled) }
}
func WithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithTimeout(p, t.Sub(time.Unix(1700000000, 0).Add(time.Duration(vsched.Now()))))
}
