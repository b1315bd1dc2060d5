package vrt

import (
	"reflect"
)

// Shadow channels: real channel values are only identities; their contents live here.
type chanState struct {
	cap    int
	buf    []item
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     VC
	keep   interface{}
}

type item struct {
	v  interface{}
	vc VC
}

type waiter struct {
	op   *selOp
	idx  int
	val  interface{} // value to send
	send bool
}

type selOp struct {
	fired  int
	val    interface{}
	ok     bool
	closed bool // a send case fired because the channel was closed
}

type scase struct {
	c    *chanState
	send bool
	val  interface{}
}

func (x *Exec) chanOf(ch interface{}) *chanState {
	v := reflect.ValueOf(ch)
	if !v.IsValid() || v.IsNil() {
		return nil
	}
	p := v.Pointer()
	c := x.chans[p]
	if c == nil {
		c = &chanState{cap: v.Cap(), keep: ch}
		x.chans[p] = c
	}
	return c
}

func firstLive(q *[]*waiter, self *selOp) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.op.fired >= 0 {
			*q = (*q)[1:]
			continue
		}
		return w
	}
	return nil
}

func (c *chanState) canRecv() bool {
	return c != nil && (len(c.buf) > 0 || c.closed || firstLive(&c.sendq, nil) != nil)
}

func (c *chanState) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || firstLive(&c.recvq, nil) != nil)
}

// selectOp performs one channel operation; index -1 means the default case.
func (x *Exec) selectOp(what string, cases []scase, hasDefault bool) (int, interface{}, bool) {
	Point(what)
	if x.aborting {
		if hasDefault {
			return -1, nil, false
		}
		Block(what, func() bool { return false })
	}
	var ready []int
	for i, sc := range cases {
		if (sc.send && sc.c.canSend()) || (!sc.send && sc.c.canRecv()) {
			ready = append(ready, i)
		}
	}
	t := x.cur
	if len(ready) > 0 {
		i := ready[x.choose(kSelect, len(ready), 0, what)]
		sc := cases[i]
		if sc.send {
			if sc.c.closed {
				panic("send on closed channel")
			}
			x.release(&sc.c.vc)
			if w := firstLive(&sc.c.recvq, nil); w != nil {
				sc.c.recvq = sc.c.recvq[1:]
				w.op.fired, w.op.val, w.op.ok = w.idx, sc.val, true
				if x.cfg.Races {
					x.acquire(&sc.c.vc)
				}
			} else {
				sc.c.buf = append(sc.c.buf, item{v: sc.val})
			}
			return i, nil, true
		}
		x.acquire(&sc.c.vc)
		if len(sc.c.buf) > 0 {
			it := sc.c.buf[0]
			sc.c.buf = sc.c.buf[1:]
			x.release(&sc.c.vc)
			if w := firstLive(&sc.c.sendq, nil); w != nil {
				sc.c.sendq = sc.c.sendq[1:]
				w.op.fired = w.idx
				sc.c.buf = append(sc.c.buf, item{v: w.val})
			}
			return i, it.v, true
		}
		if w := firstLive(&sc.c.sendq, nil); w != nil {
			sc.c.sendq = sc.c.sendq[1:]
			w.op.fired = w.idx
			x.release(&sc.c.vc)
			return i, w.val, true
		}
		return i, nil, false // closed
	}
	if hasDefault {
		return -1, nil, false
	}
	op := &selOp{fired: -1}
	for i, sc := range cases {
		if sc.c == nil {
			continue
		}
		w := &waiter{op: op, idx: i, val: sc.val, send: sc.send}
		if sc.send {
			x.release(&sc.c.vc)
			sc.c.sendq = append(sc.c.sendq, w)
		} else {
			sc.c.recvq = append(sc.c.recvq, w)
		}
	}
	Block(what, func() bool { return op.fired >= 0 })
	for _, sc := range cases {
		if sc.c != nil {
			sc.c.sendq = dropOp(sc.c.sendq, op)
			sc.c.recvq = dropOp(sc.c.recvq, op)
		}
	}
	_ = t
	x.acquire(&cases[op.fired].c.vc)
	if cases[op.fired].send && op.closed {
		panic("send on closed channel")
	}
	return op.fired, op.val, op.ok
}

func dropOp(q []*waiter, op *selOp) []*waiter {
	out := q[:0]
	for _, w := range q {
		if w.op != op {
			out = append(out, w)
		}
	}
	return out
}

func (x *Exec) closeChan(c *chanState) {
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	x.release(&c.vc)
	for w := firstLive(&c.recvq, nil); w != nil; w = firstLive(&c.recvq, nil) {
		c.recvq = c.recvq[1:]
		w.op.fired, w.op.val, w.op.ok = w.idx, nil, false
	}
	for w := firstLive(&c.sendq, nil); w != nil; w = firstLive(&c.sendq, nil) {
		c.sendq = c.sendq[1:]
		w.op.fired, w.op.closed = w.idx, true
	}
}

// TrySendNow sends without blocking and without a scheduling point (timers).
func TrySendNow(ch interface{}, v interface{}) bool {
	x := X
	c := x.chanOf(ch)
	if c.closed || !c.canSend() {
		return false
	}
	if x.timerVC != nil {
		c.vc = c.vc.join(x.timerVC)
	}
	if w := firstLive(&c.recvq, nil); w != nil {
		c.recvq = c.recvq[1:]
		w.op.fired, w.op.val, w.op.ok = w.idx, v, true
	} else {
		c.buf = append(c.buf, item{v: v})
	}
	return true
}

// CloseNow closes without a scheduling point.
func CloseNow(ch interface{}) { X.closeChan(X.chanOf(ch)) }

// IsClosed reports whether the shadow channel is closed.
func IsClosed(ch interface{}) bool { return X.chanOf(ch).closed }

func conv[T any](v interface{}) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// boxed keeps interface-typed nil values apart from "no value".
type boxed[T any] struct{ v T }

func Recv[T any](ch <-chan T) T {
	if X == nil {
		return <-ch
	}
	_, v, _ := X.selectOp("recv", []scase{{c: X.chanOf(ch)}}, false)
	return unbox[T](v)
}

func unbox[T any](v interface{}) T {
	if b, ok := v.(boxed[T]); ok {
		return b.v
	}
	return conv[T](v)
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if X == nil {
		v, ok := <-ch
		return v, ok
	}
	_, v, ok := X.selectOp("recv", []scase{{c: X.chanOf(ch)}}, false)
	return unbox[T](v), ok
}

// SendTo returns the function performing ch <- v (two steps so that v converts to T).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if X == nil {
			ch <- v
			return
		}
		X.selectOp("send", []scase{{c: X.chanOf(ch), send: true, val: boxed[T]{v}}}, false)
	}
}

func Close[T any](ch chan<- T) {
	if X == nil {
		close(ch)
		return
	}
	Point("close chan")
	if X.aborting {
		return
	}
	X.closeChan(X.chanOf(ch))
}

func Len[T any](ch <-chan T) int {
	if X == nil {
		return len(ch)
	}
	Point("len chan")
	c := X.chanOf(ch)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Select builds a select statement.
type Select struct {
	cases []scase
	real  []reflect.SelectCase
	def   bool
	val   interface{}
	rv    reflect.Value
	ok    bool
}

func NewSelect(hasDefault bool) *Select { return &Select{def: hasDefault} }

type RecvCase[T any] struct{ s *Select }

func SelRecv[T any](s *Select, ch <-chan T) *RecvCase[T] {
	if X == nil {
		s.real = append(s.real, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)})
	} else {
		s.cases = append(s.cases, scase{c: X.chanOf(ch)})
	}
	return &RecvCase[T]{s}
}

func (r *RecvCase[T]) Val() T {
	if r.s.rv.IsValid() {
		v, _ := r.s.rv.Interface().(T)
		return v
	}
	return unbox[T](r.s.val)
}

func (r *RecvCase[T]) Val2() (T, bool) { return r.Val(), r.s.ok }

func SelSend[T any](s *Select, ch chan<- T) func(T) {
	return func(v T) {
		if X == nil {
			s.real = append(s.real, reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()})
		} else {
			s.cases = append(s.cases, scase{c: X.chanOf(ch), send: true, val: boxed[T]{v}})
		}
	}
}

func (s *Select) Run() int {
	if X == nil {
		cs := s.real
		if s.def {
			cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(cs)
		if s.def && i == len(cs)-1 {
			return -1
		}
		s.rv, s.ok = v, ok
		return i
	}
	i, v, ok := X.selectOp("select", s.cases, s.def)
	s.val, s.ok = v, ok
	return i
}

// DrainNow empties a channel's buffer (stopped timers).
func DrainNow(ch interface{}) { X.chanOf(ch).buf = nil }
