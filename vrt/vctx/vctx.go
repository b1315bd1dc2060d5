// Package vctx replaces the cancellable contexts of package context in instrumented
// code; background and value contexts are the real ones.
package vctx

import (
	"context"
	"time"

	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

type vcancel struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*vcancel
	deadline time.Time
	hasDl    bool
	timer    *vrt.Timer
	vc       vrt.VC
}

type keyT int

var key keyT

func (c *vcancel) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *vcancel) Done() <-chan struct{} { return c.done }
func (c *vcancel) Err() error {
	if vrt.X != nil {
		vrt.Point("ctx.Err")
	}
	return c.err
}
func (c *vcancel) Value(k interface{}) interface{} {
	if k == interface{}(&key) {
		return c
	}
	return c.parent.Value(k)
}

func (c *vcancel) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.timer != nil {
		c.timer.Cancel()
	}
	vrt.CloseNow(c.done)
	for _, k := range c.children {
		k.cancel(err, cause)
	}
}

func newc(parent context.Context) *vcancel {
	c := &vcancel{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&key).(*vcancel); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if parent.Done() != nil {
		panic("vctx: foreign cancellable context")
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if vrt.X == nil {
		return context.WithCancel(parent)
	}
	c := newc(parent)
	return c, func() {
		vrt.Point("cancel")
		if !vrt.Aborting() {
			c.cancel(context.Canceled, nil)
		}
	}
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if vrt.X == nil {
		return context.WithCancelCause(parent)
	}
	c := newc(parent)
	return c, func(cause error) {
		vrt.Point("cancel")
		if !vrt.Aborting() {
			c.cancel(context.Canceled, cause)
		}
	}
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	if vrt.X == nil {
		return context.WithDeadline(parent, d)
	}
	return WithTimeout(parent, d.Sub(vtime.Base)-time.Duration(vrt.ClockNow()))
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if vrt.X == nil {
		return context.WithDeadlineCause(parent, d, cause)
	}
	return withTimeout(parent, d.Sub(vtime.Base)-time.Duration(vrt.ClockNow()), cause)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if vrt.X == nil {
		return context.WithTimeoutCause(parent, d, cause)
	}
	return withTimeout(parent, d, cause)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if vrt.X == nil {
		return context.WithTimeout(parent, d)
	}
	return withTimeout(parent, d, nil)
}

func withTimeout(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	c := newc(parent)
	c.deadline, c.hasDl = vtime.Base.Add(time.Duration(vrt.ClockNow())+d), true
	if pd, ok := parent.Deadline(); ok && pd.Before(c.deadline) {
		c.deadline = pd
	}
	if c.err == nil {
		if d <= 0 {
			c.cancel(context.DeadlineExceeded, cause)
		} else {
			c.timer = vrt.AddTimer(int64(d), func() { c.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return c, func() {
		vrt.Point("cancel")
		if !vrt.Aborting() {
			c.cancel(context.Canceled, nil)
		}
	}
}

func WithoutCancel(parent context.Context) context.Context { return noCancel{parent} }

type noCancel struct{ context.Context }

func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (n noCancel) Value(k interface{}) interface{} {
	if k == interface{}(&key) {
		return nil
	}
	return n.Context.Value(k)
}

func Cause(c context.Context) error {
	if vrt.X == nil {
		return context.Cause(c)
	}
	if p, ok := c.Value(&key).(*vcancel); ok {
		return p.cause
	}
	return c.Err()
}

func AfterFunc(c context.Context, f func()) func() bool {
	if vrt.X == nil {
		return context.AfterFunc(c, f)
	}
	stopped, ran := false, false
	vrt.GoNamed("ctx.AfterFunc", func() {
		vrt.Daemon()
		if c.Done() == nil {
			return
		}
		vrt.Recv(c.Done())
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		ok := !stopped && !ran
		stopped = true
		return ok
	}
}
