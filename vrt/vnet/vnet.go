// Package vnet is an in-memory network whose operations are scheduling points and
// whose answers (how much a read returns, which operation fails) the harness owns.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type half struct {
	buf    []byte
	eof    bool // writer closed
	gone   bool // reader closed
	err    error
	vc     vrt.VC
	Log    []byte   // every byte ever written
	Writes [][]byte // every Write call
}

// Conn is one end of a connection.
type Conn struct {
	Name   string
	in     *half
	out    *half
	closed bool
	local  addr
	remote addr
	rdl    int64
	wdl    int64

	// harness controls
	NoPoint       bool                      // operations are not scheduling points (needed below real locks, e.g. TLS)
	Chunk         func(avail, want int) int // how many bytes a read returns (>=1)
	FailRead      int                       // the nth Read fails (1-based, 0 never)
	ReadErr       error                     // how it fails (nil: injected failure; io.EOF: the peer ended the stream)
	EOFAfter      int                       // the stream read from ends after that many bytes (0: never; 1 means at once, n+1 after n bytes)
	RBytes        int                       // bytes read so far
	FailWrite     int                       // the nth Write and all later ones fail
	PartialOnFail bool                      // the first failing write still delivers half of its bytes
	Stall         bool                      // writes wait until this is reset, the deadline passes or the connection is closed
	StallHalf     bool                      // a stalled write has put half of its bytes
	SplitWrites   bool                      // a scheduling point in the middle of every write
	Reads         int
	WritesN       int
	Closes        int
	OnClose       func()
}

var ErrInjected = errors.New("injected network failure")

func point(what string) { vrt.Point(what) }

// Pipe returns two connected ends.
func Pipe(a, b string) (*Conn, *Conn) {
	x, y := &half{}, &half{}
	return &Conn{Name: a, in: x, out: y, local: addr(a), remote: addr(b)},
		&Conn{Name: b, in: y, out: x, local: addr(b), remote: addr(a)}
}

func (c *Conn) pt(what string) {
	if vrt.X != nil && !c.NoPoint {
		vrt.Point(what + " " + c.Name)
	}
}

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

func (c *Conn) readable() bool {
	return len(c.in.buf) > 0 || c.in.eof || c.closed || c.in.err != nil ||
		(c.rdl != 0 && vrt.X != nil && vrt.ClockNow() >= c.rdl)
}

func (c *Conn) Read(b []byte) (int, error) {
	c.pt("read")
	c.Reads++
	if vrt.Aborting() {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	if c.FailRead > 0 && c.Reads >= c.FailRead {
		if c.ReadErr == io.EOF {
			return 0, io.EOF
		}
		return 0, opErr("read", ErrInjected)
	}
	if c.EOFAfter > 0 && c.RBytes >= c.EOFAfter-1 {
		return 0, io.EOF
	}
	if !c.readable() {
		if vrt.X == nil {
			return 0, io.ErrNoProgress
		}
		vrt.Block("read "+c.Name, c.readable)
	}
	vrt.Acquire(&c.in.vc)
	if c.closed {
		return 0, opErr("read", net.ErrClosed)
	}
	if c.rdl != 0 && vrt.X != nil && vrt.ClockNow() >= c.rdl {
		return 0, opErr("read", os.ErrDeadlineExceeded)
	}
	if len(c.in.buf) == 0 {
		if c.in.err != nil {
			return 0, opErr("read", c.in.err)
		}
		return 0, io.EOF
	}
	n := len(c.in.buf)
	if n > len(b) {
		n = len(b)
	}
	if c.Chunk != nil {
		if k := c.Chunk(len(c.in.buf), len(b)); k >= 1 && k < n {
			n = k
		}
	}
	if c.EOFAfter > 0 && c.RBytes+n > c.EOFAfter-1 {
		n = c.EOFAfter - 1 - c.RBytes
	}
	c.RBytes += n
	copy(b, c.in.buf[:n])
	c.in.buf = c.in.buf[n:]
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	c.pt("write")
	c.WritesN++
	if vrt.Aborting() {
		return 0, io.ErrClosedPipe
	}
	late := func() bool { return c.wdl != 0 && vrt.X != nil && vrt.ClockNow() >= c.wdl }
	if late() && !c.closed {
		return 0, opErr("write", os.ErrDeadlineExceeded)
	}
	if c.Stall && !c.closed && vrt.X != nil {
		k := 0
		if c.StallHalf {
			k = len(b) / 2
			c.put(b[:k])
		}
		vrt.Block("write "+c.Name, func() bool { return c.closed || !c.Stall || late() })
		if c.closed {
			return k, opErr("write", net.ErrClosed)
		}
		if c.Stall {
			return k, opErr("write", os.ErrDeadlineExceeded)
		}
		if k > 0 {
			c.out.Writes = append(c.out.Writes, append([]byte(nil), b...))
			c.put(b[k:])
			return len(b), nil
		}
	}
	if c.closed {
		return 0, opErr("write", net.ErrClosed)
	}
	if c.FailWrite > 0 && c.WritesN >= c.FailWrite {
		if c.PartialOnFail && c.WritesN == c.FailWrite { // a broken connection delivers nothing more
			k := len(b) / 2
			c.put(b[:k])
			return k, opErr("write", ErrInjected)
		}
		return 0, opErr("write", ErrInjected)
	}
	if c.out.gone {
		return 0, opErr("write", errors.New("broken pipe"))
	}
	c.out.Writes = append(c.out.Writes, append([]byte(nil), b...))
	if c.SplitWrites && len(b) > 1 {
		k := len(b) / 2
		c.put(b[:k])
		c.pt("write rest")
		c.put(b[k:])
		return len(b), nil
	}
	c.put(b)
	return len(b), nil
}

func (c *Conn) put(b []byte) {
	vrt.Release(&c.out.vc)
	c.out.buf = append(c.out.buf, b...)
	c.out.Log = append(c.out.Log, b...)
}

func (c *Conn) Close() error {
	c.pt("close")
	c.Closes++
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	vrt.Release(&c.out.vc)
	vrt.Release(&c.in.vc)
	c.closed = true
	c.out.eof = true
	c.in.gone = true
	if c.OnClose != nil {
		c.OnClose()
	}
	return nil
}

// Closed reports whether this end was closed by its owner.
func (c *Conn) Closed() bool { return c.closed }

// PeerClosed reports whether the other end was closed by its owner.
func (c *Conn) PeerClosed() bool { return c.out.gone }

// CloseWrite ends the outgoing stream only.
func (c *Conn) CloseWrite() { c.pt("closewrite"); c.out.eof = true }

// Reset makes the peer's reads fail after what was already sent.
func (c *Conn) Reset() { c.out.err = errors.New("connection reset"); c.in.gone = true }

// Sent returns everything written by this end.
func (c *Conn) Sent() []byte { return c.out.Log }

// SentWrites returns the individual writes of this end.
func (c *Conn) SentWrites() [][]byte { return c.out.Writes }

// Pending returns bytes sent to this end and not read yet.
func (c *Conn) Pending() []byte { return c.in.buf }

// Feed makes bytes arrive at this end.
func (c *Conn) Feed(b []byte) {
	vrt.Release(&c.in.vc)
	c.in.buf = append(c.in.buf, b...)
}

// ResetIn makes this end's reads fail once what was already received is consumed, and its writes too.
func (c *Conn) ResetIn() {
	vrt.Release(&c.in.vc)
	c.in.err = errors.New("connection reset by peer")
	c.out.gone = true
}

// FeedEOF ends the stream arriving at this end.
func (c *Conn) FeedEOF() { vrt.Release(&c.in.vc); c.in.eof = true }

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func dl(t time.Time) int64 {
	if t.IsZero() || vrt.X == nil {
		return 0
	}
	d := int64(t.Sub(vtime.Base))
	if d < 1 {
		d = 1
	}
	if d > vrt.ClockNow() {
		vrt.AddTimer(d-vrt.ClockNow(), func() {})
	}
	return d
}

func (c *Conn) SetDeadline(t time.Time) error      { c.rdl = dl(t); c.wdl = c.rdl; return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { c.rdl = dl(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.wdl = dl(t); return nil }

// ---------------------------------------------------------------- listeners

type tempErr struct {
	error
	timeout bool
}

func (e tempErr) Timeout() bool { return e.timeout }
func (tempErr) Temporary() bool { return true }

// Listener hands out queued connections.
type Listener struct {
	a       addr
	q       []acc
	closed  bool
	vc      vrt.VC
	Accepts int
	Closes  int
}

type acc struct {
	c   net.Conn
	err error
}

func NewListener(a string) *Listener { return &Listener{a: addr(a)} }

func (l *Listener) Accept() (net.Conn, error) {
	if vrt.X != nil {
		vrt.Point("accept")
	}
	l.Accepts++
	if vrt.Aborting() {
		return nil, net.ErrClosed
	}
	if vrt.X != nil {
		vrt.Block("accept", func() bool { return l.closed || len(l.q) > 0 })
	}
	vrt.Acquire(&l.vc)
	if l.closed || len(l.q) == 0 {
		return nil, opErr("accept", net.ErrClosed)
	}
	e := l.q[0]
	l.q = l.q[1:]
	return e.c, e.err
}

func (l *Listener) Close() error {
	if vrt.X != nil {
		vrt.Point("listener close")
	}
	l.Closes++
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	vrt.Release(&l.vc)
	l.closed = true
	for _, e := range l.q {
		if c, ok := e.c.(*Conn); ok && c != nil {
			c.closed, c.out.eof, c.in.gone = true, true, true
		}
	}
	return nil
}

func (l *Listener) Closed() bool     { return l.closed }
func (l *Listener) Addr() net.Addr   { return l.a }
func (l *Listener) Queue(c net.Conn) { vrt.Release(&l.vc); l.q = append(l.q, acc{c: c}) }

// QueueTemporary queues two temporary failures, an ordinary one and a time-out.
func (l *Listener) QueueTemporary() {
	l.q = append(l.q, acc{err: tempErr{errors.New("temporary accept failure"), false}}, acc{err: tempErr{errors.New("accept timed out"), true}})
}
func (l *Listener) QueueError() { l.q = append(l.q, acc{err: errors.New("permanent accept failure")}) }

// Dial connects to the listener.
func (l *Listener) Dial(from string) (*Conn, *Conn, error) {
	if vrt.X != nil {
		vrt.Point("dial " + string(l.a))
	}
	if l.closed {
		return nil, nil, opErr("dial", errors.New("connection refused"))
	}
	c, s := Pipe(from, string(l.a))
	l.Queue(s)
	return c, s, nil
}

// ---------------------------------------------------------------- net.Dial / net.Listen

type netKey struct{}

// Listen and Dial stand in for the functions of package net during executions.
func Listen(network, address string) (net.Listener, error) {
	if vrt.X == nil {
		return net.Listen(network, address)
	}
	m := table()
	if l := m[address]; l != nil && !l.closed {
		return nil, opErr("listen", errors.New("address already in use"))
	}
	l := NewListener(address)
	m[address] = l
	return l, nil
}

func table() map[string]*Listener {
	if vrt.X.Net == nil {
		vrt.X.Net = make(map[string]*Listener)
	}
	return vrt.X.Net.(map[string]*Listener)
}

func Dial(network, address string) (net.Conn, error) {
	if vrt.X == nil {
		return net.Dial(network, address)
	}
	l := table()[address]
	if l == nil {
		return nil, opErr("dial", fmt.Errorf("connection refused"))
	}
	c, _, err := l.Dial(fmt.Sprintf("client%d", len(l.q)))
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	if vrt.X == nil {
		return net.DialTimeout(network, address, d)
	}
	return Dial(network, address)
}

// Dialer and ListenConfig carry the settings of the real ones; during executions only the
// addresses and the context matter.
type Dialer net.Dialer

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	if vrt.X == nil {
		return (*net.Dialer)(d).Dial(network, address)
	}
	return Dial(network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if vrt.X == nil {
		return (*net.Dialer)(d).DialContext(ctx, network, address)
	}
	if err := ctx.Err(); err != nil {
		return nil, opErr("dial", err)
	}
	return Dial(network, address)
}

type ListenConfig net.ListenConfig

func (l *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	if vrt.X == nil {
		return (*net.ListenConfig)(l).Listen(ctx, network, address)
	}
	if err := ctx.Err(); err != nil {
		return nil, opErr("listen", err)
	}
	return Listen(network, address)
}

var _ = point
var _ = netKey{}
