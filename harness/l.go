package main

// Lease agents and sessions: L01-L04. The harness plays the remote agents.

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"runtime"
	"sort"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

const (
	ltPingReq  = int32(lease.LeaseMessageTypePingRequest)
	ltPingResp = int32(lease.LeaseMessageTypePingResponse)
)

// ---------------------------------------------------------------- reference codec

type lmsg struct {
	typ    int32
	ident  int64
	inst   int64
	remote int64
	dur    int32
	exp    int64
	susp   int32
	arb    int32
	twoWay byte
	host   string
	fam    uint16
	port   uint16
	// shape when building
	noNul   bool
	trail   int // bytes after the endpoint
	gap     int // bytes between the lists and the endpoint
	lists   int // 0 empty lists as agents write them, 1 absent lists, 2 lists with entries, 3 the endpoint before the lists
	off, sz int64
	useDesc bool // off and sz replace the endpoint descriptor
}

func leU16(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u), byte(u>>8))
	}
	return b
}

func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func (m *lmsg) body() []byte {
	h := make([]byte, 200)
	p32 := func(o int, v uint32) { binary.LittleEndian.PutUint32(h[o:], v) }
	p64 := func(o int, v int64) { binary.LittleEndian.PutUint64(h[o:], uint64(v)) }
	h[0], h[1] = 2, 1
	p32(4, 200)
	p64(16, m.ident)
	p32(24, uint32(m.typ))
	p64(32, m.inst)
	p64(40, m.remote)
	p32(48, uint32(m.dur))
	p64(56, m.exp)
	p32(64, uint32(m.susp))
	p32(68, uint32(m.arb))
	h[72] = m.twoWay
	ep := leU16(m.host)
	if !m.noNul {
		ep = append(ep, 0, 0)
	}
	ep = append(ep, byte(m.fam), byte(m.fam>>8), byte(m.port), byte(m.port>>8))
	var body []byte
	put := func() {
		body = append(body, make([]byte, m.gap)...)
		o, s := int64(200+len(body)), int64(len(ep))
		if m.useDesc {
			o, s = m.off, m.sz
		}
		p32(76+9*12+4, uint32(o))
		p32(76+9*12+8, uint32(s))
		body = append(body, ep...)
	}
	if m.lists == 3 {
		put()
	}
	if m.lists != 1 {
		for i := 0; i < 9; i++ {
			l := append(le32(4), le32(0)...)
			n := uint32(0)
			if m.lists == 2 {
				n = 1
				e := leU16("app")
				e2 := leU16("1.2.3.4:5")
				in := append(le32(1), le32(uint32(len(e)))...)
				in = append(in, e...)
				in = append(append(in, le32(uint32(len(e2)))...), e2...)
				l = append(le32(uint32(len(in))), in...)
			}
			p32(76+i*12, n)
			p32(80+i*12, uint32(200+len(body)))
			p32(84+i*12, uint32(len(l)))
			body = append(body, l...)
		}
	}
	if m.lists != 3 {
		put()
	}
	for i := 0; i < m.trail; i++ {
		body = append(body, byte(0xa0+i))
	}
	p32(8, uint32(200+len(body)))
	return append(h, body...)
}

func leaseFrame(typ byte, body []byte) []byte {
	b := make([]byte, 12)
	b[0] = typ
	binary.LittleEndian.PutUint32(b[4:], uint32(12+len(body)))
	return append(b, body...)
}

func (m *lmsg) frame() []byte { return leaseFrame(1, m.body()) }

var connectFrame = leaseFrame(2, nil)

// parseLease parses strictly what an agent wrote.
func parseLease(b []byte) (ms []*lmsg, connects int, err error) {
	for len(b) > 0 {
		if len(b) < 12 {
			return ms, connects, fmt.Errorf("%d bytes that are no whole frame: %x", len(b), b)
		}
		n := int(binary.LittleEndian.Uint32(b[4:]))
		if b[0] != 1 && b[0] != 2 || n < 12 || n > len(b) {
			return ms, connects, fmt.Errorf("no whole frame: type %d size %d of %d bytes: %x", b[0], n, len(b), clip(b))
		}
		if b[0] == 2 {
			if n != 12 {
				return ms, connects, fmt.Errorf("connect frame of %d bytes", n)
			}
			connects++
		} else {
			m, err := parseLeaseMsg(b[12:n])
			if err != nil {
				return ms, connects, fmt.Errorf("%v in %x", err, clip(b[:n]))
			}
			ms = append(ms, m)
		}
		b = b[n:]
	}
	return ms, connects, nil
}

func parseLeaseMsg(b []byte) (*lmsg, error) {
	if len(b) < 200 {
		return nil, fmt.Errorf("lease message of %d bytes", len(b))
	}
	g32 := func(o int) uint32 { return binary.LittleEndian.Uint32(b[o:]) }
	g64 := func(o int) int64 { return int64(binary.LittleEndian.Uint64(b[o:])) }
	if b[0] != 2 || b[1] != 1 || g32(4) != 200 || g32(8) != uint32(len(b)) {
		return nil, fmt.Errorf("version %d.%d header size %d message size %d of %d", b[0], b[1], g32(4), g32(8), len(b))
	}
	m := &lmsg{typ: int32(g32(24)), ident: g64(16), inst: g64(32), remote: g64(40), dur: int32(g32(48)), exp: g64(56), susp: int32(g32(64)), arb: int32(g32(68)), twoWay: b[72]}
	type part struct{ st, ed uint32 }
	var ps []part
	for i := 0; i < 10; i++ {
		n, st, sz := g32(76+i*12), g32(80+i*12), g32(84+i*12)
		if uint64(st)+uint64(sz) > uint64(len(b)) || st < 200 {
			return nil, fmt.Errorf("part %d at %d size %d outside the message of %d", i, st, sz, len(b))
		}
		ps = append(ps, part{st, st + sz})
		d := b[st : st+sz]
		if i < 9 {
			if n != 0 || !bytes.Equal(d, []byte{4, 0, 0, 0, 0, 0, 0, 0}) {
				return nil, fmt.Errorf("list %d has count %d and content %x", i, n, d)
			}
			continue
		}
		if len(d) < 6 || len(d)%2 != 0 || d[len(d)-6] != 0 || d[len(d)-5] != 0 {
			return nil, fmt.Errorf("endpoint %x", d)
		}
		var u []uint16
		for j := 0; j < len(d)-6; j += 2 {
			u = append(u, uint16(d[j])|uint16(d[j+1])<<8)
		}
		m.host = string(utf16.Decode(u))
		m.fam = uint16(d[len(d)-4]) | uint16(d[len(d)-3])<<8
		m.port = uint16(d[len(d)-2]) | uint16(d[len(d)-1])<<8
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].st < ps[j].st })
	at := uint32(200)
	for _, p := range ps {
		if p.st != at {
			return nil, fmt.Errorf("parts leave a gap or overlap at %d (part at %d)", at, p.st)
		}
		at = p.ed
	}
	if at != uint32(len(b)) {
		return nil, fmt.Errorf("%d bytes after the last part", uint32(len(b))-at)
	}
	return m, nil
}

// ---------------------------------------------------------------- world

type lconn struct {
	addr string
	c    *vnet.Conn // the agent's end
	tls  *peerTLS
}

type lw struct {
	x      *vrt.Exec
	l      *vnet.Listener
	ag     *lease.Agent
	out    []*lconn
	in     []*vnet.Conn
	wdone  bool
	werr   error
	onDial func(addr string) error
	closed bool // closing the agent returned
	evs    []string
	pings  []*lping
	point  bool
	srvTLS *tls.Config // the harness ends sessions with TLS
}

func newLW(x *vrt.Exec, addr string, cfg lease.AgentConfig) *lw {
	w := &lw{x: x, l: vnet.NewListener(addr)}
	if x != nil {
		x.Data = w
	}
	ag, err := lease.NewAgent(cfg, w.l, w.dial)
	if err != nil {
		vrt.Fail("creating the agent: %v", err)
		return w
	}
	w.ag = ag
	vrt.GoNamed("accept", func() {
		w.werr = ag.Wait()
		w.wdone = true
	})
	return w
}

func (w *lw) dial(addr string) (net.Conn, error) {
	vrt.Point("dial " + addr)
	if w.onDial != nil {
		if err := w.onDial(addr); err != nil {
			return nil, err
		}
	}
	a, b := vnet.Pipe("session"+fmt.Sprint(len(w.out)), addr)
	a.NoPoint = !w.point
	c := &lconn{addr: addr, c: a}
	if w.srvTLS != nil {
		c.tls = serveTLS(b, w.srvTLS)
	}
	w.out = append(w.out, c)
	return a, nil
}

// incoming connects a remote agent.
func (w *lw) incoming() *vnet.Conn {
	a, _ := vnet.Pipe("in"+fmt.Sprint(len(w.in)), "remote")
	w.in = append(w.in, a)
	w.l.Queue(a)
	return a
}

func ldefault() lease.AgentConfig {
	var c lease.AgentConfig
	c.SetDefault()
	return c
}

func pong(host string, port uint16, remote int64) *lmsg {
	return &lmsg{typ: ltPingResp, host: host, port: port, fam: 2, remote: remote, ident: 7}
}

// finish ends everything that is left.
func (w *lw) finish() {
	if w.closed { // closing once was enough
		idle()
		for i, c := range w.out {
			if !c.c.Closed() {
				vrt.Fail("connection %d (to %s) is still open although the agent was closed", i, c.addr)
			}
		}
		if !w.l.Closed() || !w.wdone {
			vrt.Fail("the agent was closed: listener closed %v, accept loop ended %v", w.l.Closed(), w.wdone)
		}
	}
	w.ag.Close()
	for _, c := range w.in {
		c.FeedEOF()
	}
}

// sent parses what a session wrote.
func (c *lconn) sent() []*lmsg {
	b := c.c.Sent()
	if c.tls != nil {
		b = c.tls.plain
	}
	ms, n, err := parseLease(b)
	if err != nil || n > 0 {
		vrt.Fail("a session wrote %d connect frames: %v", n, err)
	}
	return ms
}

type lping struct {
	n    int
	done bool
	err  error
}

func (w *lw) ping(s lease.Session, ctx context.Context) *lping {
	p := &lping{n: len(w.pings)}
	w.pings = append(w.pings, p)
	p.err = s.Ping(ctx)
	p.done = true
	return p
}

func (w *lw) pingGo(s lease.Session, ctx context.Context) *lping {
	var p *lping
	p = &lping{n: len(w.pings)}
	w.pings = append(w.pings, p)
	vrt.GoNamed("ping", func() {
		p.err = s.Ping(ctx)
		p.done = true
	})
	return p
}

// ---------------------------------------------------------------- L01

type lendpoint struct {
	listen string
	host   string
	port   uint16
}

func lendpoints() []lendpoint {
	var l []lendpoint
	hosts := []string{"1.2.3.4", "0.0.0.0", "::1", "fe80::1%eth0", "h", "node.example.org", "", "日本", "\U0001F600x", strings.Repeat("n", 300)}
	ports := []uint16{0, 1, 255, 256, 1025, 0x7fff, 0x8000, 0xfffe, 0xffff}
	for _, h := range hosts {
		for _, p := range ports {
			l = append(l, lendpoint{net.JoinHostPort(h, fmt.Sprint(p)), h, p})
		}
	}
	return l
}

func init() {
	add(&Scenario{Prop: "L01", Name: "pings", Shards: 8,
		Bounds: "10 hosts (IPv4, IPv6, names, empty, non-ASCII, surrogate pairs, long) x 9 ports x 11 lease durations; two sessions, three pings each with peer instances from 6 boundary values learned in between; plain and TLS",
		Enum:   enumL01a})
	add(&Scenario{Prop: "L01", Name: "answers", Shards: 8,
		Bounds: "every message type -1..9 and extremes, 10 hosts x 9 ports, with and without terminating zero, 0..3 and up to 300000 bytes before and after the endpoint, lists empty, absent, with entries or after the endpoint, all other fields at their extremes; the message names the session's endpoint or one differing in host or port",
		Enum:   enumL01b})
	add(&Scenario{Prop: "L01", Name: "fragmentation", Shards: 4,
		Bounds: "connect frame, a request of another agent of this library and two answers, cut at every position, and at every pair of positions (quick: pairs with one of 40 positions); reads of 1..13 bytes",
		Enum:   enumL01c})
}

var lDurations = []time.Duration{0, 1, time.Microsecond, 999 * time.Microsecond, time.Millisecond, 1999 * time.Microsecond, 30 * time.Second,
	time.Duration(1<<31-1) * time.Millisecond, time.Duration(1<<31) * time.Millisecond, 1<<63 - 1, time.Hour}

var lInstances = []int64{0, 1, -1, 1 << 62, -1 << 63, 1<<63 - 1}

func enumL01a(c *Ctx) {
	for _, e := range lendpoints() {
		for i, d := range lDurations {
			for secure := 0; secure < 2; secure++ {
				if secure == 1 && (i > 0 || e.port != 1025 && !c.Thorough) {
					continue
				}
				e, d, i, secure := e, d, i, secure
				if !c.Case(func() string {
					return fmt.Sprintf("listening on %s, lease duration %v, secure %v", e.listen, d, secure == 1)
				}, func() error {
					return l01pings(c, e, d, lInstances[i%len(lInstances)], lInstances[(i/2+1)%len(lInstances)], secure == 1)
				}) {
					return
				}
			}
		}
	}
}

func l01pings(c *Ctx, e lendpoint, d time.Duration, in1, in2 int64, secure bool) error {
	return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
		cfg := ldefault()
		cfg.LeaseDuration = d
		cfg.AppId = "app"
		var srvTLS, inTLS *tls.Config
		if secure {
			inTLS, srvTLS = tlsConf(tls.VersionTLS13, false)
			cfg.TLS = inTLS.Clone()
		}
		w := newLW(x, e.listen, cfg)
		if w.ag == nil {
			return nil
		}
		if w.ag.Addr().String() != e.listen {
			return fmt.Errorf("the agent's address is %v", w.ag.Addr())
		}
		w.srvTLS = srvTLS
		var ss []lease.Session
		for i, a := range []string{"peer:1", "other:2"} {
			vtime.Sleep(time.Microsecond)
			s, err := w.ag.Establish(a)
			if err != nil {
				return fmt.Errorf("establishing: %v", err)
			}
			if len(w.out) != i+1 || w.out[i].addr != a {
				return fmt.Errorf("establishing to %s did not dial it", a)
			}
			ss = append(ss, s)
		}
		var in lin
		var inDone *tlsIn
		if secure {
			inDone = newTLSIn(w, inTLS)
			in = inDone
		} else {
			in = w.incoming()
		}
		first := int64(0)
		for i, s := range ss {
			addr := []string{"peer", "other"}[i]
			want := int64(0)
			inst := int64(0)
			last := time.Time{}
			for k, ri := range []int64{in1, in2, in1} {
				c.Step(1)
				p := w.pingGo(s, context.Background())
				idle()
				if p.done {
					return fmt.Errorf("a ping nobody answered returned %v", p.err)
				}
				ms := w.out[i].sent()
				if len(ms) != k+1 {
					return fmt.Errorf("%d messages on the wire after %d pings", len(ms), k+1)
				}
				m := ms[k]
				fam := m.fam
				if !strings.Contains(e.host, ".") {
					fam = 2
				}
				if m.typ != ltPingReq || m.remote != want || m.exp != int64(d/time.Millisecond) || m.host != e.host || m.port != e.port || fam != 2 || m.ident == 0 {
					return fmt.Errorf("ping %d is %+v, want peer instance %d, lease of %d ms, endpoint %s", k, *m, want, d/time.Millisecond, e.listen)
				}
				if k == 0 {
					inst = m.inst
					if inst == 0 {
						return fmt.Errorf("the session has no instance")
					}
					if i > 0 && inst == first {
						return fmt.Errorf("two sessions have the same instance %d", inst)
					}
					first = inst
				} else if m.inst != inst {
					return fmt.Errorf("the instance of the session changed from %d to %d", inst, m.inst)
				}
				c.Obs(m.exp, m.host, m.port, m.remote)
				if !s.LastPongTime().Equal(last) {
					return fmt.Errorf("last answer at %v, none arrived since %v", s.LastPongTime(), last)
				}
				before := vtime.Now()
				in.Feed(pong(addr, uint16(i+1), ri).frame())
				idle()
				if !p.done || p.err != nil {
					return fmt.Errorf("the answer did not complete the ping: %v %v", p.done, p.err)
				}
				last = s.LastPongTime()
				if last.Before(before) || last.After(vtime.Now()) {
					return fmt.Errorf("last answer recorded as %v", last)
				}
				want = ri
			}
		}
		w.finish()
		if inDone != nil {
			inDone.stop()
			idle()
			if !bytes.Equal(inDone.got, connectFrame) {
				return fmt.Errorf("the agent greeted with %x", inDone.got)
			}
			if leaksLease(w) {
				return fmt.Errorf("lease messages travel in clear")
			}
		}
		return nil
	}, func(x *vrt.Exec) error {
		if b := x.Blocked(false); len(b) > 0 {
			return fmt.Errorf("blocked for ever: %v", b)
		}
		return nil
	})
}

func (w *lw) lastPong(s lease.Session) time.Time { return s.LastPongTime() }

// effect runs the agent with one session to host:port, feeds the bytes and reports whether the session saw answers.
type leffect struct {
	pongA, pongB bool // sessions A (peer:1) and B (other:2) saw an answer from the stream
	remA         int64
	closed       bool // the connection was closed by the agent
	after        bool // an answer on another connection took effect
	alloc        uint64
	stack        uint64
	panics       []string
	blocked      []string
}

type lfeed struct {
	listen  string
	a       string // session A's address
	data    []byte
	chunk   func(avail, want int) int
	eof     bool
	respond string
}

func runLease(k lfeed) (*leffect, error) {
	r := &leffect{}
	err := seqCfg(vrt.Config{MaxSteps: 3000000, MaxTimers: 50}, func(x *vrt.Exec) error {
		if k.listen == "" {
			k.listen = "9.9.9.9:99"
		}
		w := newLW(x, k.listen, ldefault())
		if w.ag == nil {
			return nil
		}
		sa, err := w.ag.Establish(k.a)
		if err != nil {
			return err
		}
		sb, err := w.ag.Establish("other:2")
		if err != nil {
			return err
		}
		in := w.incoming()
		in.NoPoint = true
		in.Chunk = k.chunk
		in.Feed(k.data)
		if k.eof {
			in.FeedEOF()
		}
		var m0, m1 runtime.MemStats
		big := len(k.data) > 1<<20
		if big {
			runtime.ReadMemStats(&m0)
		}
		before := allocated()
		idle()
		r.alloc = allocated() - before
		if big {
			runtime.ReadMemStats(&m1)
			if m1.StackInuse > m0.StackInuse {
				r.stack = m1.StackInuse - m0.StackInuse
			}
		}
		r.pongA, r.pongB = !sa.LastPongTime().IsZero(), !sb.LastPongTime().IsZero()
		r.closed = in.Closed()
		if got := in.Sent(); !bytes.Equal(got, connectFrame) {
			return fmt.Errorf("the agent greeted with %x", got)
		}
		// other connections are unaffected
		bb := sb.LastPongTime()
		in2 := w.incoming()
		in2.Feed(append(append([]byte(nil), connectFrame...), (&lmsg{typ: ltPingResp, host: "other", port: 2, fam: 2, trail: 2}).frame()...))
		idle()
		r.after = sb.LastPongTime().After(bb)
		p := w.pingGo(sa, context.Background())
		idle()
		if ms := w.out[0].sent(); len(ms) == 1 {
			r.remA = ms[0].remote
		} else {
			return fmt.Errorf("%d messages after one ping", len(ms))
		}
		w.finish()
		idle()
		if !p.done || p.err == nil {
			return fmt.Errorf("a waiting ping returned %v when the agent was closed (returned: %v)", p.err, p.done)
		}
		return nil
	}, func(x *vrt.Exec) error {
		r.blocked = x.Blocked(false)
		return nil
	})
	if err == nil && len(r.blocked) > 0 {
		err = fmt.Errorf("blocked for ever: %v", r.blocked)
	}
	return r, err
}

func enumL01b(c *Ctx) {
	one := func(what string, m *lmsg, a string, hit bool) bool {
		return c.Case(func() string {
			return fmt.Sprintf("%s: type %d endpoint %q:%d to session %s, shape %+v", what, m.typ, m.host, m.port, a, *m)
		}, func() error {
			c.Step(2)
			// the message, then an answer for the other session on the same connection
			data := append(append(append([]byte(nil), connectFrame...), m.frame()...), pong("other", 2, 5).frame()...)
			r, err := runLease(lfeed{a: a, data: data})
			if err != nil {
				return err
			}
			if r.pongA != hit {
				return fmt.Errorf("took effect: %v, want %v", r.pongA, hit)
			}
			if hit && r.remA != m.remote || !hit && r.remA != 0 {
				return fmt.Errorf("the next ping carries peer instance %d, message had %d and took effect %v", r.remA, m.remote, hit)
			}
			if !r.pongB {
				return fmt.Errorf("the message after it on the same connection did not take effect (connection closed by the agent: %v)", r.closed)
			}
			if !r.after {
				return fmt.Errorf("a message on another connection did not take effect")
			}
			if r.closed {
				return fmt.Errorf("the agent closed the connection")
			}
			c.Obs(hit, m.remote, m.host, m.port)
			return nil
		})
	}
	for _, t := range []int32{-1 << 31, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x103, 0x10003, 1<<31 - 1} {
		for _, ri := range lInstances {
			m := pong("peer", 1, ri)
			m.typ = t
			if !one("types", m, "peer:1", t == ltPingResp) {
				return
			}
		}
	}
	for _, e := range lendpoints() {
		for _, nn := range []bool{false, true} {
			if nn && e.host == "" {
				continue
			}
			for _, other := range []int{0, 1, 2, 3, 4, 5} {
				m := pong(e.host, e.port, 77)
				m.noNul = nn
				switch other {
				case 1:
					m.port ^= 0x100
				case 2:
					m.host += "x"
				case 3:
					m.host = strings.ToUpper(m.host)
				case 4:
					m.host += "."
				case 5:
					m.host = " " + m.host
				}
				if other > 0 && m.host == e.host && m.port == e.port {
					continue
				}
				if !one("endpoints", m, e.listen, other == 0) {
					return
				}
			}
		}
	}
	for _, n := range []int{1000, 4096, 5000, 65535, 65536, 300000} {
		for lists := 0; lists < 4; lists++ {
			for at := 0; at < 3; at++ {
				m := pong("peer", 1, 9)
				m.lists = lists
				switch at {
				case 0:
					m.gap = n
				case 1:
					m.trail = n
				default:
					m.gap, m.trail = n/2, n
				}
				if !one("large", m, "peer:1", true) {
					return
				}
			}
		}
	}
	for lists := 0; lists < 4; lists++ {
		for gap := 0; gap < 4; gap++ {
			for trail := 0; trail < 4; trail++ {
				for nn := 0; nn < 2; nn++ {
					for _, h := range []string{"p", "peer", "1.2.3.4"} {
						m := pong(h, 1, 9)
						m.lists, m.gap, m.trail, m.noNul = lists, gap, trail, nn == 1
						if !one("shapes", m, h+":1", true) {
							return
						}
					}
				}
			}
		}
	}
	for f := 0; f < 8; f++ {
		for _, v := range []int64{0, 1, -1, 1<<31 - 1, -1 << 31, 1<<63 - 1, -1 << 63} {
			m := pong("peer", 1, 9)
			switch f {
			case 0:
				m.ident = v
			case 1:
				m.inst = v
			case 2:
				m.dur = int32(v)
			case 3:
				m.exp = v
			case 4:
				m.susp = int32(v)
			case 5:
				m.arb = int32(v)
			case 6:
				m.twoWay = byte(v)
			case 7:
				m.fam = uint16(v)
			}
			if !one("fields", m, "peer:1", true) {
				return
			}
		}
	}
}

// otherAgentPing is a request as another agent of this library writes it.
func otherAgentPing() []byte {
	var b []byte
	seqCfg(vrt.Config{MaxSteps: 10000, MaxTimers: 50}, func(x *vrt.Exec) error {
		w := newLW(x, "7.7.7.7:77", ldefault())
		s, err := w.ag.Establish("peer:1")
		if err != nil {
			return err
		}
		w.pingGo(s, context.Background())
		idle()
		b = append([]byte(nil), w.out[0].c.Sent()...)
		w.finish()
		return nil
	}, nil)
	return b
}

func enumL01c(c *Ctx) {
	req := otherAgentPing()
	m1, m2 := pong("peer", 1, 31), pong("other", 2, 32)
	m2.trail = 3
	var data []byte
	for _, p := range [][]byte{connectFrame, req, m1.frame(), connectFrame, m2.frame()} {
		data = append(data, p...)
	}
	check := func(what func() string, ch func(n *int) func(int, int) int) bool {
		return c.Case(what, func() error {
			c.Step(3)
			n := 0
			r, err := runLease(lfeed{a: "peer:1", data: data, chunk: ch(&n)})
			if err != nil {
				return err
			}
			if !r.pongA || !r.pongB || r.remA != 31 || r.closed {
				return fmt.Errorf("answers took effect: %v %v, instance learned %d, connection closed %v", r.pongA, r.pongB, r.remA, r.closed)
			}
			return nil
		})
	}
	for k := 1; k <= 13; k++ {
		if !check(func() string { return fmt.Sprintf("reads of %d bytes", k) }, func(n *int) func(int, int) int {
			return func(a, w int) int { return k }
		}) {
			return
		}
	}
	cuts := func(p, q int) func(n *int) func(int, int) int {
		return func(n *int) func(int, int) int {
			return func(a, w int) int {
				k := a
				for _, x := range []int{p, q} {
					if *n < x && *n+k > x {
						k = x - *n
					}
				}
				if k > w {
					k = w
				}
				*n += k
				return k
			}
		}
	}
	for p := 1; p < len(data); p++ {
		for q := p; q < len(data); q++ {
			if q > p && !c.Thorough && p%37 != 0 {
				break
			}
			if !check(func() string { return fmt.Sprintf("cut at %d and %d of %d", p, q, len(data)) }, cuts(p, q)) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- L02

func init() {
	add(&Scenario{Prop: "L02", Name: "frames", Shards: 8,
		Bounds: "frame types 0..4, 127, 128, 255 x 40 frame sizes from 0 to 2^24 x 7 continuations (none, short, zeros, ones, a whole message), before and after valid messages, stream ended or left open",
		Enum:   enumL02a})
	add(&Scenario{Prop: "L02", Name: "descriptors", Shards: 8,
		Bounds: "60 endpoint offsets x 60 endpoint sizes around 0, the message end, 2^31 and 2^32, in messages with and without bytes after the endpoint",
		Enum:   enumL02b})
	add(&Scenario{Prop: "L02", Name: "mutations", Shards: 8,
		Bounds: "a valid stream truncated at every byte; every byte of a valid message replaced by every value (quick: 24 values)",
		Enum:   enumL02c})
	add(&Scenario{Prop: "L02", Name: "keep-alive", Shards: 1,
		Bounds: "200000 (thorough 2000000) consecutive connect frames, whole and in small reads, and 1 to 3 connect frames with every value of every reserved byte, then a valid answer",
		Enum:   enumL02d})
}

func lhostile(c *Ctx, data []byte, allow int, eof bool, exactA, want bool) error {
	c.Step(1)
	r, err := runLease(lfeed{a: "peer:1", data: data, eof: eof})
	if err != nil {
		return err
	}
	c.Obs(r.closed, r.pongA, r.pongB)
	if !r.pongB {
		return fmt.Errorf("the valid message before did not take effect")
	}
	if !r.after {
		return fmt.Errorf("a message on another connection did not take effect")
	}
	if eof && !r.closed {
		return fmt.Errorf("the stream ended but the connection was not closed")
	}
	if exactA && r.pongA != want {
		return fmt.Errorf("the message took effect: %v, want %v", r.pongA, want)
	}
	if r.alloc > uint64(1<<20+64*len(data)+2*allow) {
		return fmt.Errorf("%d bytes allocated for %d received, frame size %d", r.alloc, len(data), allow)
	}
	return nil
}

func enumL02a(c *Ctx) {
	pre := append(append([]byte(nil), connectFrame...), pong("other", 2, 1).frame()...)
	full := pong("peer", 1, 1)
	full.trail = 1
	fb := full.body()
	sizes := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24, 28, 100, 199, 200, 210, 211, 212, 213, 214, 220, 255, 256,
		uint32(len(fb)), uint32(len(fb) + 11), uint32(len(fb) + 12), uint32(len(fb) + 13), 1000, 65535, 65536, 1 << 20, 1 << 24}
	if c.Thorough {
		for i := uint32(17); i < 400; i++ {
			sizes = append(sizes, i)
		}
	}
	for _, typ := range []byte{0, 1, 2, 3, 4, 127, 128, 255} {
		for _, sz := range sizes {
			for cont := 0; cont < 7; cont++ {
				for _, eof := range []bool{false, true} {
					if !c.Case(func() string {
						return fmt.Sprintf("frame type %d size %d, continuation %d, ended %v", typ, sz, cont, eof)
					}, func() error {
						h := leaseFrame(typ, nil)
						binary.LittleEndian.PutUint32(h[4:], sz)
						switch cont {
						case 1:
							h = append(h, 1)
						case 2:
							h = append(h, make([]byte, 11)...)
						case 3:
							h = append(h, make([]byte, 300)...)
						case 4:
							h = append(h, bytes.Repeat([]byte{0xff}, 300)...)
						case 5:
							h = append(h, fb...)
						case 6:
							h = append(append(h, fb...), pong("peer", 1, 2).frame()...)
						}
						// the rest may itself claim a frame of gigabytes when read as frames: the peer commits to those too
						if lclaimed(h) > 1<<25 {
							return nil
						}
						return lhostile(c, append(append([]byte(nil), pre...), h...), lclaimed(h), eof, false, false)
					}) {
						return
					}
				}
			}
		}
	}
}

// lclaimed is the largest frame size in a stream read as frames.
func lclaimed(b []byte) int {
	max := 0
	for len(b) >= 12 && (b[0] == 1 || b[0] == 2) {
		n := int(binary.LittleEndian.Uint32(b[4:]))
		if b[0] == 1 && n > max {
			max = n
		}
		if b[0] == 2 {
			n = 12
		}
		if n < 12 || n > len(b) {
			break
		}
		b = b[n:]
	}
	return max
}

func enumL02b(c *Ctx) {
	for _, trail := range []int{0, 1, 2, 30} {
		base := pong("peer", 1, 1)
		base.trail = trail
		n := int64(len(base.body()))
		ep := int64(len(leU16("peer")) + 6)
		at := n - int64(trail) - ep
		var offs, sizes []int64
		for _, b := range []int64{0, 200, at, at + ep, n, 1 << 31, 1 << 32} {
			for d := int64(-4); d <= 4; d++ {
				offs = append(offs, b+d)
			}
		}
		for _, b := range []int64{0, 2, 4, ep, ep + int64(trail), n - at, n, 1 << 31, 1 << 32, 1<<32 - at, 1<<32 - at + ep} {
			for d := int64(-3); d <= 3; d++ {
				sizes = append(sizes, b+d)
			}
		}
		seen := map[[2]int64]bool{}
		for _, o := range offs {
			for _, s := range sizes {
				if o < 0 || s < 0 || o >= 1<<32 || s >= 1<<32 || seen[[2]int64{o, s}] {
					continue
				}
				seen[[2]int64{o, s}] = true
				o, s := o, s
				if !c.Case(func() string { return fmt.Sprintf("endpoint offset %d size %d in %d bytes", o, s, n) }, func() error {
					m := *base
					m.useDesc, m.off, m.sz = true, o, s
					data := append(append([]byte(nil), pong("other", 2, 1).frame()...), m.frame()...)
					outside := o+s > n
					exact := o == at && s == ep
					return lhostile(c, data, int(n)+12, false, outside || exact, exact)
				}) {
					return
				}
			}
		}
	}
}

func enumL02c(c *Ctx) {
	pre := pong("other", 2, 1).frame()
	m := pong("peer", 1, 1)
	m.trail = 1
	f := m.frame()
	for n := 0; n < len(f); n++ {
		for _, eof := range []bool{true, false} {
			if !c.Case(func() string { return fmt.Sprintf("truncated after %d of %d, ended %v", n, len(f), eof) }, func() error {
				return lhostile(c, append(append([]byte(nil), pre...), f[:n]...), len(f), eof, true, false)
			}) {
				return
			}
		}
	}
	for i := range f {
		for v := 0; v < 256; v++ {
			if !c.Thorough && v > 6 && v < 246 && v&0xf != 0xc {
				continue
			}
			g := append([]byte(nil), f...)
			g[i] = byte(v)
			if lclaimed(g) > 1<<25 {
				continue
			}
			if !c.Case(func() string { return fmt.Sprintf("byte %d = %#x", i, v) }, func() error {
				return lhostile(c, append(append([]byte(nil), pre...), g...), lclaimed(g), v&1 == 0, false, false)
			}) {
				return
			}
		}
	}
}

func enumL02d(c *Ctx) {
	n := 200000
	if c.Thorough {
		n = 2000000
	}
	for _, ch := range []int{0, 12, 5} {
		if !c.Case(func() string { return fmt.Sprintf("%d connect frames, reads of %d", n, ch) }, func() error {
			return lconnects(c, connectFrame, n, ch)
		}) {
			return
		}
	}
	// the reserved bytes of a connect frame mean nothing
	for _, i := range []int{1, 2, 3, 8, 9, 10, 11} {
		for v := 0; v < 256; v++ {
			f := append([]byte(nil), connectFrame...)
			f[i] = byte(v)
			if !c.Case(func() string { return fmt.Sprintf("connect frame with byte %d = %#x", i, v) }, func() error {
				return lconnects(c, f, 1+v%3, 0)
			}) {
				return
			}
		}
	}
}

func lconnects(c *Ctx, frame []byte, n, ch int) error {
	c.Step(n)
	data := append(bytes.Repeat(frame, n), pong("peer", 1, 3).frame()...)
	data = append(data, bytes.Repeat(frame, n)...)
	k := lfeed{a: "peer:1", data: data}
	if ch > 0 {
		k.chunk = func(int, int) int { return ch }
	}
	r, err := runLease(k)
	if err != nil {
		return err
	}
	if !r.pongA || r.closed || !r.after {
		return fmt.Errorf("the answer after the connect frames took effect: %v, connection closed: %v", r.pongA, r.closed)
	}
	if r.stack > 8<<20 {
		return fmt.Errorf("the stack grew by %d bytes", r.stack)
	}
	return nil
}

// ---------------------------------------------------------------- L03

type l03d struct {
	*lw
	s, s2 lease.Session
	in    *vnet.Conn
	must  map[int]string // ok, err, any, canceled, deadline
	inst  int
	cut   bool
	after bool // every answer is sent once the pings are written
}

func (d *l03d) go1(n int, s lease.Session, ctx context.Context, must string) *lping {
	p := &lping{n: n}
	d.pings = append(d.pings, p)
	d.must[n] = must
	before := vtime.Now()
	p.err = s.Ping(ctx)
	p.done = true
	// an answer being handled while a ping is issued may count for it: only
	// where all answers follow the pings is the recorded time determined
	if last := s.LastPongTime(); d.after && p.err == nil && last.Before(before) {
		vrt.Fail("a ping issued at %v was answered, but the last answer of the session is recorded as of %v", before, last)
	}
	return p
}

// wrote waits until n whole pings are on the wire of a session's connection.
func (d *l03d) wrote(i, n int) {
	vrt.Block(fmt.Sprintf("peer awaits %d pings", n), func() bool {
		ms, _, _ := parseLease(d.out[i].c.Sent())
		return len(ms) >= n
	})
}

func (d *l03d) answer(c *vnet.Conn, host string, port uint16) {
	vrt.Point("answer")
	d.inst++
	c.Feed(pong(host, port, []int64{5, 3, 9, 0}[d.inst%4]).frame())
}

const l03scripts = 23

func init() {
	add(&Scenario{Prop: "L03", Name: "pings", Shards: 8,
		Bounds: fmt.Sprintf("%d scripts of 1-2 pings on 1-2 sessions with answers (one, two, stale, for other endpoints, of other types, on two connections), cancellation, time-out, session close, agent close, failing and stalled writes, an answer to two pings of which the first to return closes the session or agent, and of three pings while the peer takes no data and then takes it again or the session or agent is closed; all schedules with at most 3 (thorough 4) deviations", l03scripts),
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body:   bodyL03, Judge: judgeL03})
	add(&Scenario{Prop: "L03", Name: "pings-memory", Shards: 8,
		Bounds: "the same scripts with every access to shared memory a scheduling point; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(vrt.Config{Bound: 2, NPCost: 1, Access: true, MaxSteps: 6000}, vrt.Config{Bound: 3, NPCost: 1, Access: true, MaxSteps: 6000}),
		Body:   bodyL03, Judge: judgeL03})
	add(&Scenario{Prop: "L03", Name: "types", Shards: 2,
		Bounds: "1-3 waiting pings on two sessions, pinging again once answered, every sequence of up to 2 (thorough 3) messages of the types -1..9 naming either session's endpoint or another one, on one or two connections",
		Enum:   enumL03t})
	add(&Scenario{Prop: "L03", Name: "loop", Shards: 2,
		Bounds: "the ping loop over a virtual clock of 2 to 9 intervals of 3 lengths: answered, unanswered, answered every other time, session closed, failing writes, a peer that takes no data; context cancelled or timed out",
		Enum:   enumL03})
}

func bodyL03(x *vrt.Exec) {
	vrt.Branch(true)
	script := vrt.Choose(l03scripts, 0, "script")
	vrt.Branch(false)
	w := newLW(x, "9.9.9.9:99", ldefault())
	w.point = true
	d := &l03d{lw: w, must: map[int]string{}}
	x.Data = d
	if w.ag == nil {
		return
	}
	var err error
	if d.s, err = w.ag.Establish("peer:1"); err != nil {
		vrt.Fail("establish: %v", err)
		return
	}
	if d.s2, err = w.ag.Establish("other:2"); err != nil {
		vrt.Fail("establish: %v", err)
		return
	}
	d.in = w.incoming()
	in2 := d.in
	if script == 9 {
		in2 = w.incoming()
	}
	idle()
	bg := context.Background()
	ctx, cancel := vctx.WithCancel(bg)
	th := map[string]func(){}
	switch script {
	case 2, 3, 6, 13, 14, 15, 16:
		d.cut = true
	case 0, 1, 12, 21, 22:
		d.after = true
	}
	vrt.Branch(true)
	switch script {
	case 0: // answered
		th["p"] = func() { d.go1(0, d.s, bg, "ok") }
		th["peer"] = func() { d.wrote(0, 1); d.answer(d.in, "peer", 1) }
	case 1: // one answer completes both
		th["p"] = func() { d.go1(0, d.s, bg, "ok") }
		th["q"] = func() { d.go1(1, d.s, bg, "ok") }
		th["peer"] = func() { d.wrote(0, 2); d.answer(d.in, "peer", 1) }
	case 2: // session closed
		th["p"] = func() { d.go1(0, d.s, bg, "err") }
		th["q"] = func() { d.go1(1, d.s, bg, "err") }
		th["x"] = func() { d.s.Close() }
	case 3: // agent closed
		th["p"] = func() { d.go1(0, d.s, bg, "err") }
		th["q"] = func() { d.go1(1, d.s2, bg, "err") }
		th["x"] = func() { d.ag.Close(); d.closed = true }
	case 4: // cancelled
		th["p"] = func() { d.go1(0, d.s, ctx, "canceled") }
		th["c"] = func() { cancel() }
	case 5: // answer against cancellation
		th["p"] = func() { d.go1(0, d.s, ctx, "ok/canceled") }
		th["peer"] = func() { d.answer(d.in, "peer", 1) }
		th["c"] = func() { cancel() }
	case 6: // answer against session close
		th["p"] = func() { d.go1(0, d.s, bg, "any") }
		th["peer"] = func() { d.wrote(0, 1); d.answer(d.in, "peer", 1) }
		th["x"] = func() { d.wrote(0, 1); d.s.Close() }
	case 7: // only a stale answer
		d.answer(d.in, "peer", 1)
		vrt.Branch(false)
		idle()
		vrt.Branch(true)
		th["p"] = func() { d.go1(0, d.s, ctx, "canceled") }
		th["c"] = func() {
			d.wrote(0, 1)
			idle()
			cancel()
		}
	case 8: // an answer after each
		th["p"] = func() { d.go1(0, d.s, bg, "ok") }
		th["q"] = func() { d.go1(1, d.s, bg, "ok") }
		th["peer"] = func() {
			d.wrote(0, 1)
			d.answer(d.in, "peer", 1)
			d.wrote(0, 2)
			d.answer(d.in, "peer", 1)
		}
	case 9: // answers on two connections
		th["p"] = func() { d.go1(0, d.s, bg, "ok"); d.go1(1, d.s, ctx, "ok/canceled") }
		th["peer"] = func() { d.wrote(0, 1); d.answer(d.in, "peer", 1) }
		th["peer2"] = func() { d.wrote(0, 1); d.answer(in2, "peer", 1); idle(); cancel() }
	case 10: // other endpoints and other types
		th["p"] = func() { d.go1(0, d.s, ctx, "canceled") }
		th["peer"] = func() {
			d.wrote(0, 1)
			d.answer(d.in, "other", 2)
			d.answer(d.in, "peer", 2)
			d.answer(d.in, "nobody", 1)
			m := pong("peer", 1, 1)
			m.typ = ltPingReq
			d.in.Feed(m.frame())
			idle()
			cancel()
		}
	case 11: // timed out
		th["p"] = func() {
			c2, stop := vctx.WithTimeout(bg, 1000000)
			d.go1(0, d.s, c2, "deadline")
			stop()
			d.go1(1, d.s, bg, "ok")
		}
		th["peer"] = func() { d.wrote(0, 2); d.answer(d.in, "peer", 1) }
	case 12: // two sessions, one answered
		th["p"] = func() { d.go1(0, d.s, bg, "ok") }
		th["q"] = func() { d.go1(1, d.s2, ctx, "canceled") }
		th["peer"] = func() {
			d.wrote(0, 1)
			d.wrote(1, 1)
			d.answer(d.in, "peer", 1)
			idle()
			cancel()
		}
	case 13: // after closing
		th["p"] = func() {
			d.s.Close()
			d.go1(0, d.s, bg, "err")
			d.ag.Close()
			d.go1(1, d.s2, bg, "err")
		}
	case 14: // failing write
		d.out[0].c.FailWrite = 1
		th["p"] = func() { d.go1(0, d.s, bg, "err"); d.go1(1, d.s2, bg, "ok") }
		th["peer"] = func() { d.wrote(1, 1); d.answer(d.in, "other", 2) }
	case 15: // stalled write, closed
		d.out[0].c.Stall = true
		th["p"] = func() { d.go1(0, d.s, bg, "err") }
		th["q"] = func() { d.go1(1, d.s, bg, "err") }
		th["x"] = func() { d.s.Close() }
	case 16: // closed from two sides while an answer arrives
		th["p"] = func() { d.go1(0, d.s, bg, "any") }
		th["x"] = func() { d.s.Close() }
		th["y"] = func() { d.ag.Close(); d.closed = true }
		th["peer"] = func() { d.answer(d.in, "peer", 1) }
	case 17: // already cancelled: nothing is waited for
		cancel()
		th["p"] = func() { d.go1(0, d.s, ctx, "canceled"); d.go1(1, d.s, bg, "ok") }
		th["peer"] = func() {
			vrt.Block("second ping", func() bool { return len(d.pings) > 1 })
			idle()
			d.answer(d.in, "peer", 1)
		}
	case 18, 19, 20: // the peer takes no data: the contexts end the pings
		d.out[0].c.Stall = true
		d.out[0].c.StallHalf = script == 19
		must, left := "ok", 2
		if script == 20 {
			must = "err"
		}
		th["p"] = func() { d.go1(0, d.s, ctx, "canceled"); left-- }
		th["q"] = func() {
			c2, stop := vctx.WithTimeout(bg, time.Second)
			d.go1(1, d.s, c2, "deadline")
			stop()
			left--
		}
		th["r"] = func() { d.go1(2, d.s, bg, must) }
		th["c"] = func() {
			cancel()
			vtime.Sleep(2 * time.Second)
			idle()
			if left > 0 {
				vrt.Fail("%d pings go on although their contexts are done, the peer takes no data", left)
			}
			if script == 20 {
				d.s.Close()
				return
			}
			d.out[0].c.Stall = false
			idle()
			d.wrote(0, 1)
			d.answer(d.in, "peer", 1)
		}
	case 21, 22: // the first to see the answer closes the session or the agent: the other was waiting, too
		first := func() {
			if script == 22 {
				d.ag.Close()
				d.closed = true
				return
			}
			d.s.Close()
		}
		th["p"] = func() { d.go1(0, d.s, bg, "ok"); first() }
		th["q"] = func() { d.go1(1, d.s, ctx, "ok"); first() }
		th["peer"] = func() { d.wrote(0, 2); d.answer(d.in, "peer", 1) }
	}
	par(th)
	cancel()
	vrt.Branch(false)
	idle() // a write whose ping was cancelled goes on
	d.finish()
}

func judgeL03(x *vrt.Exec) vrt.Outcome {
	var o vrt.Outcome
	fin(x, &o)
	d, ok := x.Data.(*l03d)
	if !ok || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	for _, p := range d.pings {
		o.Key += fmt.Sprintf("%d:%v ", p.n, p.err)
		bad := ""
		switch d.must[p.n] {
		case "ok":
			if p.err != nil {
				bad = "although it was answered"
			}
		case "err":
			if p.err == nil {
				bad = "although nothing answered it"
			}
		case "canceled":
			if !errors.Is(p.err, context.Canceled) {
				bad = "although it was not answered and its context was cancelled"
			}
		case "deadline":
			if !errors.Is(p.err, context.DeadlineExceeded) {
				bad = "although it was not answered before its deadline"
			}
		case "ok/canceled":
			if p.err != nil && !errors.Is(p.err, context.Canceled) {
				bad = "although only its context was cancelled"
			}
		}
		if !p.done {
			bad = "(never returned)"
		}
		if bad != "" {
			o.Viol = append(o.Viol, fmt.Sprintf("ping %d returned %v %s", p.n, p.err, bad))
		}
	}
	for i, c := range d.out {
		if c.c.Stall {
			continue
		}
		b := c.c.Sent()
		if d.cut { // closed in the middle of a ping: the last frame may be partial
			at := 0
			for len(b)-at >= 12 && int(binary.LittleEndian.Uint32(b[at+4:])) >= 12 && int(binary.LittleEndian.Uint32(b[at+4:])) <= len(b)-at {
				at += int(binary.LittleEndian.Uint32(b[at+4:]))
			}
			if rest := b[at:]; len(rest) < 12 || rest[0] == 1 {
				b = b[:at]
			}
		}
		if _, n, err := parseLease(b); err != nil || n > 0 {
			o.Viol = append(o.Viol, fmt.Sprintf("session %d wrote: %v", i, err))
		}
		if !c.c.Closed() {
			o.Viol = append(o.Viol, fmt.Sprintf("the connection of session %d was not closed", i))
		}
	}
	if !d.wdone {
		o.Viol = append(o.Viol, "the accept loop did not end")
	}
	return o
}

func enumL03t(c *Ctx) {
	type one struct{ typ, ep int }
	var alpha []one
	for t := -1; t <= 9; t++ {
		for ep := 0; ep < 3; ep++ {
			if ep > 0 && t != 2 && t != 3 && t != 5 && t != 0 {
				continue
			}
			alpha = append(alpha, one{t, ep})
		}
	}
	eps := []struct {
		h string
		p uint16
	}{{"peer", 1}, {"other", 2}, {"nobody", 1}}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	run := func(seq []int, n int) error {
		return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 200}, func(x *vrt.Exec) error {
			w := newLW(x, "9.9.9.9:99", ldefault())
			s, err := w.ag.Establish("peer:1")
			if err != nil {
				return err
			}
			s2, err := w.ag.Establish("other:2")
			if err != nil {
				return err
			}
			in := []*vnet.Conn{w.incoming(), w.incoming()}
			ended := make([]bool, 4)
			errs := make([]error, 4)
			on := []int{0, 1, 0, 0} // session of each ping
			start := func(i int) {
				ended[i] = false
				vrt.GoNamed("ping", func() {
					errs[i] = []lease.Session{s, s2}[on[i]].Ping(context.Background())
					ended[i] = true
				})
			}
			for i := 0; i < n; i++ {
				start(i)
			}
			idle()
			want := make([]bool, 4)
			for k, a := range seq {
				// instances of the peer go up, down and repeat
				m := pong(eps[alpha[a].ep].h, eps[alpha[a].ep].p, [][]int64{{7, 7, 7}, {9, 3, 0}, {5, 1 << 62, -1}}[n-1][k])
				m.typ = int32(alpha[a].typ)
				vtime.Sleep(time.Second)
				t0, ts := vtime.Now(), []time.Time{s.LastPongTime(), s2.LastPongTime()}
				in[k%2].Feed(m.frame())
				idle()
				for j, e := range []lease.Session{s, s2} {
					t := e.LastPongTime()
					if m.typ == ltPingResp && alpha[a].ep == j {
						if t.Before(t0) || t.After(vtime.Now()) {
							return fmt.Errorf("an answer arrived at %v, the last-answer time is %v", t0, t)
						}
					} else if !t.Equal(ts[j]) {
						return fmt.Errorf("a message of type %d to %s changed the last-answer time of session %d", m.typ, eps[alpha[a].ep].h, j)
					}
				}
				for i := 0; i < n; i++ {
					if m.typ == ltPingResp && alpha[a].ep == on[i] {
						want[i] = true
					}
					if want[i] && ended[i] && errs[i] == nil { // completed: ping again
						want[i] = false
						start(i)
						continue
					}
					if ended[i] != want[i] || (ended[i] && errs[i] != nil) {
						return fmt.Errorf("after message %d (type %d to %s) ping %d on session %d ended: %v %v, expected %v", k+1, m.typ, eps[alpha[a].ep].h, i, on[i], ended[i], errs[i], want[i])
					}
				}
				idle()
			}
			w.finish()
			return nil
		}, nil)
	}
	var rec func(p []int)
	rec = func(p []int) {
		if c.stop {
			return
		}
		if len(p) > 0 {
			for n := 1; n <= 3; n++ {
				p, n := append([]int(nil), p...), n
				if !c.Case(func() string {
					d := fmt.Sprintf("%d pings", n)
					for _, a := range p {
						d += fmt.Sprintf(", type %d to %s", alpha[a].typ, eps[alpha[a].ep].h)
					}
					return d
				}, func() error {
					c.Step(len(p))
					c.Obs(fmt.Sprint(p), n)
					return run(p, n)
				}) {
					return
				}
			}
		}
		if len(p) < depth {
			for i := range alpha {
				rec(append(append([]int(nil), p...), i))
			}
		}
	}
	rec(nil)
}

func enumL03(c *Ctx) {
	for _, iv := range []time.Duration{time.Millisecond, time.Second, time.Minute} {
		for n := 2; n <= 9; n++ {
			for kind := 0; kind < 6; kind++ {
				for _, timeout := range []bool{false, true} {
					if !c.Case(func() string {
						return fmt.Sprintf("interval %v, %d intervals, peer %d, by time-out %v", iv, n, kind, timeout)
					}, func() error { return l03loop(c, iv, n, kind, timeout) }) {
						return
					}
				}
			}
		}
	}
}

func l03loop(c *Ctx, iv time.Duration, n, kind int, timeout bool) error {
	return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 200}, func(x *vrt.Exec) error {
		w := newLW(x, "9.9.9.9:99", ldefault())
		s, err := w.ag.Establish("peer:1")
		if err != nil {
			return err
		}
		in := w.incoming()
		if kind == 3 {
			s.Close()
		}
		if kind == 4 {
			w.out[0].c.FailWrite = 1
		}
		w.out[0].c.Stall = kind == 5
		bg := context.Background()
		ctx, cancel := vctx.WithCancel(bg)
		total := time.Duration(n)*iv + iv/2
		want := error(context.Canceled)
		if timeout {
			ctx, cancel = vctx.WithTimeout(bg, total)
			want = context.DeadlineExceeded
		}
		start := vtime.Now()
		var rerr error
		ended := false
		var at time.Time
		vrt.GoNamed("loop", func() {
			rerr = lease.PingLoop(ctx, s, iv)
			at = vtime.Now()
			ended = true
		})
		stop := false
		answered := 0
		vrt.GoNamed("peer", func() {
			vrt.Daemon()
			for k := 1; ; k++ {
				vrt.Block("ping", func() bool { ms, _, _ := parseLease(w.out[0].c.Sent()); return len(ms) >= k || stop })
				if stop {
					return
				}
				if kind == 0 || kind == 2 && k%2 == 1 {
					in.Feed(pong("peer", 1, 1).frame())
					answered++
				}
			}
		})
		if timeout {
			vrt.Block("loop", func() bool { return ended })
		} else {
			vtime.Sleep(total)
			if ended {
				return fmt.Errorf("the loop ended with %v before its context", rerr)
			}
			cancel()
			vrt.Block("loop", func() bool { return ended })
		}
		stop = true
		if !errors.Is(rerr, want) {
			return fmt.Errorf("the loop returned %v, want %v", rerr, want)
		}
		if d := at.Sub(start); d < total || d > total+iv/4 {
			return fmt.Errorf("the loop ended after %v, its context after %v", d, total)
		}
		tries := w.out[0].c.WritesN
		ms := len(w.out[0].sent())
		c.Step(tries)
		c.Obs(kind, n, ms, answered)
		switch {
		case kind < 3 && (ms < (n+1)/2 || ms > n+1):
			return fmt.Errorf("%d pings in %d intervals", ms, n)
		case kind == 0 && ms < n:
			return fmt.Errorf("%d pings in %d intervals although all were answered", ms, n)
		case kind == 4 && (tries < (n+1)/2 || tries > 2*(n+1)):
			return fmt.Errorf("%d attempts in %d intervals", tries, n)
		}
		cancel()
		w.finish()
		return nil
	}, func(x *vrt.Exec) error {
		if b := x.Blocked(false); len(b) > 0 {
			return fmt.Errorf("blocked for ever: %v", b)
		}
		return nil
	})
}

// ---------------------------------------------------------------- L04

func init() {
	add(&Scenario{Prop: "L04", Name: "histories", Shards: 8,
		Bounds: "every sequence of up to 6 (thorough 7) operations over two endpoints: establish, dial failure, answer, answer on a second connection, close the newest or oldest session, temporary accept failure, a ping over a broken connection, close the agent; against a reference registry",
		Enum:   enumL04})
	add(&Scenario{Prop: "L04", Name: "concurrent", Shards: 8,
		Bounds: fmt.Sprintf("%d scripts of 2-3 concurrent establish, answer, session close and agent close (twice), also while dialling; all schedules with at most 3 (thorough 4) deviations", l04scripts),
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body:   bodyL04, Judge: judgeL04})
	add(&Scenario{Prop: "L04", Name: "concurrent-memory", Shards: 8,
		Bounds: "the same scripts with every access to shared memory a scheduling point; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(vrt.Config{Bound: 2, NPCost: 1, Access: true, MaxSteps: 6000}, vrt.Config{Bound: 3, NPCost: 1, Access: true, MaxSteps: 6000}),
		Body:   bodyL04, Judge: judgeL04})
}

var l04ends = []struct {
	addr, host string
	port       uint16
}{{"peer:1", "peer", 1}, {"other:2", "other", 2}}

func enumL04(c *Ctx) {
	max := 6
	if c.Thorough {
		max = 7
	}
	const nops = 12
	idx := make([]int, 0, max)
	for n := 1; n <= max; n++ {
		idx = make([]int, n)
		for {
			ops := append([]int(nil), idx...)
			// operations on a closed agent add little beyond two
			skip := false
			ag, br := 0, 0
			for i, o := range ops {
				if o == 11 {
					if br++; br > 1 || ops[0] != 0 {
						skip = true
					}
				}
				if o == 10 {
					if ag++; ag > 2 {
						skip = true
					}
				}
				if i > 0 && ops[i-1] == 9 && o == 9 {
					skip = true
				}
			}
			if n == max && !c.Thorough && (ops[0] != 0 && ops[0] != 1) {
				skip = true
			}
			if !skip {
				if !c.Case(func() string { return "operations " + lOps(ops) }, func() error { return historyL04(c, ops) }) {
					return
				}
			}
			if !inc(idx, nops) {
				break
			}
		}
	}
}

func lOps(ops []int) string {
	names := []string{"establish A", "establish B", "failing establish A", "answer A", "answer B", "answer A on a second connection", "close newest A", "close oldest A", "close newest B", "temporary accept failure", "close agent", "ping A over a broken connection"}
	var s []string
	for _, o := range ops {
		s = append(s, names[o])
	}
	return strings.Join(s, ", ")
}

type lsess struct {
	s      lease.Session
	c      *vnet.Conn
	end    int
	closed bool
	broken bool // its connection refuses to be written to
	last   time.Time
	loose  bool // replaced, and its successor is closed: either may hold
}

func historyL04(c *Ctx, ops []int) error {
	c.Step(len(ops))
	var w *lw
	return seqCfg(vrt.Config{MaxSteps: 20000, MaxTimers: 60}, func(x *vrt.Exec) error {
		w = newLW(x, "9.9.9.9:99", ldefault())
		if w.ag == nil {
			return nil
		}
		var ss []*lsess
		newest := []*lsess{nil, nil} // registered
		closed, ntemp := false, 0
		in := w.incoming()
		var in2 *vnet.Conn
		w.l.Addr()
		check := func(after string) error {
			idle()
			for i, s := range ss {
				if t := s.s.LastPongTime(); !t.Equal(s.last) {
					return fmt.Errorf("after %s session %d (to %s) saw an answer at %v that was not for it", after, i, l04ends[s.end].addr, t)
				}
				if s.c.Closed() != s.closed {
					return fmt.Errorf("after %s the connection of session %d (to %s) is closed: %v", after, i, l04ends[s.end].addr, s.c.Closed())
				}
			}
			if w.wdone != closed {
				return fmt.Errorf("after %s the accept loop ended: %v (%v)", after, w.wdone, w.werr)
			}
			if w.l.Closed() != closed {
				return fmt.Errorf("after %s the listener is closed: %v", after, w.l.Closed())
			}
			return nil
		}
		for _, o := range ops {
			what := lOps([]int{o})
			switch o {
			case 0, 1, 2:
				e := o % 2
				n := len(w.out)
				w.onDial = nil
				if o == 2 {
					w.onDial = func(string) error { return errors.New("unreachable") }
				}
				s, err := w.ag.Establish(l04ends[e].addr)
				switch {
				case closed && err == nil:
					return fmt.Errorf("a closed agent established a session")
				case closed && len(w.out) != n && !w.out[n].c.Closed():
					return fmt.Errorf("a closed agent opened a connection and left it open")
				case o == 2 && err == nil:
					return fmt.Errorf("establishing succeeded although dialling failed")
				case o != 2 && !closed && err != nil:
					return fmt.Errorf("establishing failed: %v", err)
				}
				if err != nil {
					break
				}
				if len(w.out) != n+1 || w.out[n].addr != l04ends[e].addr {
					return fmt.Errorf("establishing dialled %d times", len(w.out)-n)
				}
				if r := newest[e]; r != nil && r.c.Closed() {
					r.closed = true // replaced sessions may be closed at once
				}
				ns := &lsess{s: s, c: w.out[n].c, end: e}
				ss = append(ss, ns)
				newest[e] = ns
			case 3, 4, 5:
				e := o - 3
				cn := in
				if o == 5 {
					e = 0
					if in2 == nil {
						if closed {
							continue
						}
						in2 = w.incoming()
					}
					cn = in2
				}
				if cn.Closed() {
					continue
				}
				before := vtime.Now()
				cn.Feed(pong(l04ends[e].host, l04ends[e].port, 4).frame())
				idle()
				if r := newest[e]; r != nil {
					t := r.s.LastPongTime()
					if !t.After(r.last) || t.Before(before) {
						if !closed {
							return fmt.Errorf("the session to %s did not see the answer", l04ends[e].addr)
						}
					}
					r.last = t
				}
				for _, s := range ss {
					if s.loose && s.end == e {
						s.last = s.s.LastPongTime()
					}
				}
			case 6, 7, 8:
				e := o / 8
				var s *lsess
				for _, k := range ss {
					if k.end == e && (s == nil || o != 7) {
						s = k
					}
				}
				if s == nil {
					continue
				}
				s.s.Close()
				s.closed = true
				if newest[e] == s {
					newest[e] = nil
					for _, k := range ss {
						if k.end == e && !k.closed {
							k.loose = true
						}
					}
				}
			case 9:
				if ntemp++; ntemp%2 == 0 {
					w.l.QueueError()
				} else {
					w.l.QueueTemporary()
				}
			case 10:
				w.ag.Close()
				closed = true
				for _, s := range ss {
					s.closed = true
				}
				newest = []*lsess{nil, nil}
			case 11:
				r := newest[0]
				if r == nil {
					continue
				}
				r.c.FailWrite, r.broken = r.c.WritesN+1, true
				p := w.pingGo(r.s, context.Background())
				idle()
				if !p.done || p.err == nil {
					return fmt.Errorf("a ping over a broken connection: ended %v, error %v", p.done, p.err)
				}
			}
			if err := check(what); err != nil {
				return err
			}
		}
		n := 0
		for _, s := range ss {
			if s.closed {
				n++
			}
		}
		c.Obs(len(ss), n, closed)
		// every open session is usable, every closed one refuses
		for i, s := range ss {
			p := w.pingGo(s.s, context.Background())
			idle()
			if s.closed {
				if !p.done || p.err == nil {
					return fmt.Errorf("ping on closed session %d: returned %v, %v", i, p.done, p.err)
				}
			} else if p.done && (!s.broken || p.err == nil) {
				return fmt.Errorf("ping on open session %d returned %v", i, p.err)
			}
		}
		w.finish()
		idle()
		for i, p := range w.pings {
			if !p.done || p.err == nil {
				return fmt.Errorf("ping on session %d when the agent was closed: returned %v, %v", i, p.done, p.err)
			}
		}
		for i, s := range ss {
			s.s.Close()
			if !s.c.Closed() {
				return fmt.Errorf("closing the agent left the connection of session %d (to %s) open", i, l04ends[s.end].addr)
			}
		}
		w.ag.Close()
		return nil
	}, func(x *vrt.Exec) error {
		if b := x.Blocked(false); len(b) > 0 {
			return fmt.Errorf("blocked for ever: %v", b)
		}
		return nil
	})
}

const l04scripts = 11

type l04d struct {
	*lw
	est      []*lestab
	expect   []func() string
	closedAt bool
}

type lestab struct {
	s     lease.Session
	err   error
	after bool // started after closing the agent returned
	done  bool
	pong0 bool
}

func (d *l04d) establish(addr string) *lestab {
	e := &lestab{after: d.closed}
	d.est = append(d.est, e)
	e.s, e.err = d.ag.Establish(addr)
	e.done = true
	return e
}

func bodyL04(x *vrt.Exec) {
	vrt.Branch(true)
	script := vrt.Choose(l04scripts, 0, "script")
	vrt.Branch(false)
	w := newLW(x, "9.9.9.9:99", ldefault())
	w.point = true
	d := &l04d{lw: w}
	x.Data = d
	if w.ag == nil {
		return
	}
	in := w.incoming()
	answer := func() { vrt.Point("answer"); in.Feed(pong("peer", 1, 3).frame()) }
	closeAg := func() { d.ag.Close(); d.closed = true }
	th := map[string]func(){}
	need := func(what string, f func() bool) {
		d.expect = append(d.expect, func() string {
			if f() {
				return ""
			}
			return what
		})
	}
	switch script {
	case 0: // establish against agent close
		th["e"] = func() { d.establish("peer:1") }
		th["x"] = closeAg
	case 1: // two establish to one endpoint against agent close
		th["e"] = func() { d.establish("peer:1") }
		th["f"] = func() { d.establish("peer:1") }
		th["x"] = closeAg
	case 2: // establish, then answer, against agent close
		th["e"] = func() { d.establish("peer:1"); answer() }
		th["x"] = closeAg
	case 3: // close the old session while a new one is established
		old := d.establish("peer:1")
		th["c"] = func() { old.s.Close() }
		var e *lestab
		th["e"] = func() { e = d.establish("peer:1") }
		need("the newer session did not see the answer after the older was closed", func() bool { return !e.s.LastPongTime().IsZero() })
	case 4: // session close from two sides
		s := d.establish("peer:1")
		th["c"] = func() { s.s.Close() }
		th["d"] = func() { s.s.Close() }
		th["x"] = closeAg
	case 5: // agent closed twice, while accepting
		d.establish("peer:1")
		th["x"] = closeAg
		th["y"] = func() { d.ag.Close() }
		th["i"] = func() { w.incoming().FeedEOF() }
	case 6: // answers for two sessions on two connections
		s1, s2 := d.establish("peer:1"), d.establish("other:2")
		in2 := w.incoming()
		th["a"] = answer
		th["b"] = func() { vrt.Point("answer"); in2.Feed(pong("other", 2, 3).frame()) }
		th["c"] = func() { s2.s.Close() }
		need("session 0 did not see its answer", func() bool { return !s1.s.LastPongTime().IsZero() })
	case 7: // answer against close and re-establish
		s1 := d.establish("peer:1")
		th["a"] = answer
		th["c"] = func() { s1.s.Close(); d.establish("peer:1") }
		need("the newer session did not see the last answer", func() bool { return !d.est[1].s.LastPongTime().IsZero() })
	case 8: // slow dial while closing the agent
		closedFirst := false
		w.onDial = func(string) error {
			vrt.Block("slow dial", func() bool { return closedFirst })
			return nil
		}
		th["e"] = func() { d.establish("peer:1") }
		th["x"] = func() { closeAg(); closedFirst = true }
	case 9: // one endpoint slow to dial does not delay the other
		ok := false
		w.onDial = func(a string) error {
			if a == "other:2" {
				vrt.Block("slow dial", func() bool { return ok })
			}
			return nil
		}
		s1 := d.establish("peer:1")
		th["e"] = func() { d.establish("other:2") }
		th["a"] = func() {
			answer()
			e := d.establish("peer:1")
			e.s.Close()
			s1.s.Close()
			ok = true
		}
	case 10: // a closed agent stays closed
		d.establish("peer:1")
		th["x"] = func() { closeAg(); d.establish("peer:1"); d.establish("other:2") }
		th["y"] = func() { d.establish("other:2") }
	}
	vrt.Branch(true)
	par(th)
	vrt.Branch(false)
	idle()
	if len(d.expect) > 0 {
		in.Feed(pong("peer", 1, 3).frame())
		idle()
		for _, f := range d.expect {
			if s := f(); s != "" {
				vrt.Fail("%s", s)
			}
		}
	}
	d.finish()
	d.closed = true
}

func judgeL04(x *vrt.Exec) vrt.Outcome {
	var o vrt.Outcome
	fin(x, &o)
	d, ok := x.Data.(*l04d)
	if !ok || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	for i, e := range d.est {
		o.Key += fmt.Sprintf("%v ", e.err == nil)
		if e.after && e.err == nil {
			o.Viol = append(o.Viol, fmt.Sprintf("session %d was established although the agent was closed before", i))
		}
		if e.err == nil && e.s == nil || e.err != nil && e.s != nil {
			o.Viol = append(o.Viol, fmt.Sprintf("establishing returned %v and %v", e.s, e.err))
		}
	}
	for i, c := range d.out {
		if !c.c.Closed() {
			o.Viol = append(o.Viol, fmt.Sprintf("connection %d (to %s) is still open although the agent was closed", i, c.addr))
		}
	}
	if !d.wdone {
		o.Viol = append(o.Viol, "the accept loop did not end")
	}
	if !d.l.Closed() {
		o.Viol = append(o.Viol, "the listener is still open")
	}
	return o
}

// ---------------------------------------------------------------- TLS ends played by the harness

type lin interface{ Feed([]byte) }

// peerTLS terminates the TLS connection of a session.
type peerTLS struct{ plain []byte }

func serveTLS(end *vnet.Conn, cfg *tls.Config) *peerTLS {
	p := &peerTLS{}
	end.NoPoint = true
	vrt.GoNamed("tls peer", func() {
		vrt.Daemon()
		c := tls.Server(end, cfg)
		buf := make([]byte, 4096)
		for {
			n, err := c.Read(buf)
			p.plain = append(p.plain, buf[:n]...)
			if err != nil {
				end.Close()
				return
			}
		}
	})
	return p
}

// tlsIn is a remote agent connecting with TLS.
type tlsIn struct {
	q    [][]byte
	done bool
	got  []byte
}

func (t *tlsIn) Feed(b []byte) { t.q = append(t.q, b) }
func (t *tlsIn) stop()         { t.done = true }

func newTLSIn(w *lw, cfg *tls.Config) *tlsIn {
	t := &tlsIn{}
	a, b := vnet.Pipe("in-tls", "remote")
	a.NoPoint, b.NoPoint = true, true
	w.l.Queue(a)
	vrt.GoNamed("tls remote", func() {
		c := tls.Client(b, cfg)
		if err := c.Handshake(); err != nil {
			vrt.Fail("a remote agent cannot connect with TLS: %v", err)
			return
		}
		vrt.GoNamed("tls remote reader", func() {
			buf := make([]byte, 4096)
			for {
				n, err := c.Read(buf)
				t.got = append(t.got, buf[:n]...)
				if err != nil {
					return
				}
			}
		})
		for {
			vrt.Block("remote agent", func() bool { return t.done || len(t.q) > 0 })
			if len(t.q) == 0 {
				b.Close()
				return
			}
			c.Write(t.q[0])
			t.q = t.q[1:]
		}
	})
	return t
}

func leaksLease(w *lw) bool {
	for _, c := range w.out {
		if ms, _, err := parseLease(c.c.Sent()); err == nil && len(ms) > 0 {
			return true
		}
	}
	return false
}
