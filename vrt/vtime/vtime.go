// Package vtime gives instrumented code the virtual clock of the execution.
package vtime

import (
	"time"

	"github.com/tg123/phabrik/zzverif/vrt"
)

// Base is the instant of virtual time zero.
var Base = time.Unix(1700000000, 0)

func Now() time.Time {
	if vrt.X == nil {
		return time.Now()
	}
	return Base.Add(time.Duration(vrt.Clock()))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if vrt.X == nil {
		time.Sleep(d)
		return
	}
	vrt.Point("Sleep")
	if vrt.Aborting() {
		return
	}
	done := false
	vrt.AddTimer(int64(d), func() { done = true })
	vrt.Block("Sleep", func() bool { return done })
}

func stamp() time.Time { return Base.Add(time.Duration(vrt.ClockNow())) }

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	h    *vrt.Timer
	f    func()
	real *time.Timer
}

func NewTimer(d time.Duration) *Timer {
	if vrt.X == nil {
		t := time.NewTimer(d)
		return &Timer{C: t.C, real: t}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	if t.f != nil {
		t.h = vrt.AddTimer(int64(d), func() { vrt.SpawnNow("timerfunc", t.f) })
		return
	}
	t.h = vrt.AddTimer(int64(d), func() { vrt.TrySendNow(t.c, stamp()) })
}

func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	if vrt.X == nil {
		return false
	}
	ok := t.h.Cancel()
	if t.c != nil {
		vrt.DrainNow(t.c)
	}
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	ok := t.Stop()
	t.arm(d)
	return ok
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if vrt.X == nil {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d time.Duration) <-chan time.Time {
	if vrt.X == nil {
		return time.After(d)
	}
	return NewTimer(d).C
}

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	h    *vrt.Timer
	d    time.Duration
	off  bool
	real *time.Ticker
}

func NewTicker(d time.Duration) *Ticker {
	if vrt.X == nil {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, real: t}
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.h = vrt.AddTimer(int64(t.d), func() {
		if !t.off {
			vrt.TrySendNow(t.c, stamp())
			t.arm()
		}
	})
}

func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	t.off = true
	t.h.Cancel()
}

func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	t.h.Cancel()
	t.d, t.off = d, false
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
