package main

// Schedule exploration of one transport connection: T04-T09.

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

const (
	actTransport  = int64(transport.MessageActorTypeTransport)
	actSendTarget = int64(transport.MessageActorTypeTransportSendTarget)
)

// tw is one connection under test; the harness plays the peer.
type tw struct {
	x        *vrt.Exec
	a        *vnet.Conn
	cl       transport.Conn
	wait     func() error
	got      []*rmsg // delivered to the message callback, in order
	events   []string
	werr     error
	wdone    bool
	srvDone  bool
	viaSrv   bool
	threads  int
	finished int
	hold     func(m *rmsg) // runs inside the callback
}

// newTW connects (as client, or as a server's accepted connection) deterministically.
func newTW(x *vrt.Exec, cfg transport.Config, server bool) *tw {
	w := &tw{x: x, viaSrv: server}
	x.Data = w
	cb := func(c transport.Conn, m *transport.ByteArrayMessage) {
		r := fromHeaders(&m.Headers, m.Body, hdrTypes)
		w.got = append(w.got, r)
		if w.hold != nil {
			w.hold(r)
		}
	}
	a, _ := vnet.Pipe("conn", "peer")
	w.a = a
	if !server {
		cl, err := transport.Connect(a, transport.ClientConfig{Config: cfg, MessageCallback: cb})
		if err != nil {
			vrt.Fail("connecting: %v", err)
			return w
		}
		w.cl, w.wait = cl, cl.Wait
		vrt.GoNamed("wait", func() {
			w.werr = cl.Wait()
			w.wdone = true
		})
		return w
	}
	// the server hands its connection to the callback of the first message
	l := vnet.NewListener("srv")
	first := true
	s, err := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		if first {
			first = false
			w.cl = c
			return
		}
		cb(c, m)
	}})
	if err != nil {
		vrt.Fail("listening: %v", err)
		return w
	}
	l.Queue(a)
	vrt.GoNamed("serve", func() { vrt.Daemon(); s.Serve() })
	a.Feed((&rmsg{id: mid(999), actor: 9, action: "hello"}).frame(plainOpt))
	vrt.Block("first message", func() bool { return w.cl != nil })
	return w
}

// wire parses what the connection under test sent, without its opening message.
func (w *tw) wire() ([]*rmsg, error) {
	ms, rest, err := parseStream(w.a.Sent(), plainOpt)
	if err != nil {
		return ms, err
	}
	if len(rest) > 0 {
		return ms, fmt.Errorf("%d bytes that are no whole frame at the end of the stream: %x", len(rest), clip(rest))
	}
	if len(ms) == 0 {
		return ms, nil
	}
	return ms[1:], nil
}

// seen waits (peer side) until a message satisfying f is on the wire and returns it.
func (w *tw) seen(what string, f func(m *rmsg) bool) *rmsg {
	var hit *rmsg
	last := -1
	vrt.Block("peer awaits "+what, func() bool {
		if hit != nil {
			return true
		}
		if n := len(w.a.Sent()); n == last {
			return false
		} else {
			last = n
		}
		ms, _, _ := parseStream(w.a.Sent(), plainOpt)
		for _, m := range ms {
			if f(m) {
				hit = m
				return true
			}
		}
		return false
	})
	return hit
}

func (w *tw) sawId(id transport.MessageId) *rmsg {
	return w.seen(fmt.Sprint(id), func(m *rmsg) bool { return m.id == id })
}

func (w *tw) feed(m *rmsg) {
	vrt.Point("peer sends " + m.action)
	w.a.Feed(m.frame(plainOpt))
}

// par runs threads and returns when all have ended.
func par(fs map[string]func()) {
	n := 0
	names := make([]string, 0, len(fs))
	for k := range fs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		f := fs[k]
		n++
		vrt.GoNamed(k, func() { f(); n-- })
	}
	vrt.Block("threads", func() bool { return n == 0 })
}

// idle returns when nothing else can run.
func idle() {
	done := false
	vrt.AddTimer(0, func() { done = true })
	vrt.Block("idle", func() bool { return done })
}

func toMsg(m *rmsg) *transport.Message {
	t := &transport.Message{}
	t.Headers.Id, t.Headers.RelatesTo = m.id, m.rel
	t.Headers.Actor, t.Headers.Action = transport.MessageActorType(m.actor), m.action
	t.Headers.ExpectsReply, t.Headers.HighPriority, t.Headers.Idempotent = m.expect, m.high, m.idemp
	t.Headers.ErrorCode, t.Headers.HasFaultBody, t.Headers.RetryCount = transport.FabricErrorCode(m.errc), m.fault, m.retry
	for _, c := range m.custom {
		t.Headers.AppendCustomHeader(transport.MessageHeaderIdType(c.typ), c.val)
	}
	if m.body != nil {
		t.Body = m.body
	}
	return t
}

func fromReply(m *transport.ByteArrayMessage) *rmsg { return fromHeaders(&m.Headers, m.Body, hdrTypes) }

func schedCfg(quick, thorough vrt.Config) func(bool) vrt.Config {
	return func(t bool) vrt.Config {
		c := quick
		if t {
			c = thorough
		}
		if c.MaxSteps == 0 {
			c.MaxSteps = 4000
		}
		if c.MaxTimers == 0 {
			c.MaxTimers = 8
		}
		return c
	}
}

func bnd(b, np int) vrt.Config { return vrt.Config{Bound: b, NPCost: np} }

// fin is the common part of judging: panics are added by the explorer, threads must have ended.
func fin(x *vrt.Exec, o *vrt.Outcome) {
	if len(x.Panics) > 0 {
		return
	}
	if x.Livelock {
		o.Viol = append(o.Viol, "no end within the step limit: "+strings.Join(x.Blocked(false), "; "))
		return
	}
	if b := x.Blocked(false); len(b) > 0 {
		o.Viol = append(o.Viol, "blocked for ever: "+strings.Join(b, "; "))
	}
}

func (w *tw) judge(x *vrt.Exec, f func(w *tw) (string, []string)) vrt.Outcome {
	var o vrt.Outcome
	fin(x, &o)
	if len(x.Panics) == 0 && len(o.Viol) == 0 && len(x.Fails) == 0 {
		o.Key, o.Viol = f(w)
	}
	return o
}

// ---------------------------------------------------------------- T04

type sendRec struct {
	m   *rmsg
	err error
}

func init() {
	for _, server := range []bool{false, true} {
		server := server
		side := "client"
		if server {
			side = "server"
		}
		add(&Scenario{Prop: "T04", Name: "senders-" + side, Shards: 8,
			Bounds: "three goroutines: two one-way messages, one one-way message and a ping, one request, while the peer sends two heartbeat requests; " + side + " connection; all schedules with at most 2 (thorough 3) deviations",
			Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
			Body:   func(x *vrt.Exec) { t04(x, server, 0) },
			Judge:  judgeT04(false)})
	}
	add(&Scenario{Prop: "T04", Name: "failing-writes", Shards: 4,
		Bounds: "two goroutines with two messages each; the 1st to 9th network write fails, with or without half of its bytes written; all schedules with at most 3 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body:   func(x *vrt.Exec) { t04f(x) },
		Judge:  judgeT04(true)})
	add(&Scenario{Prop: "T04", Name: "request-storm", Shards: 4,
		Bounds: "two goroutines with two requests each, answered by the peer; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body:   func(x *vrt.Exec) { t04(x, false, 1) },
		Judge:  judgeT04(false)})
}

type t04d struct {
	*tw
	sent  [][]sendRec // per goroutine
	hb    [][]byte
	pings int
}

func t04(x *vrt.Exec, server bool, kind int) {
	w := newTW(x, transport.Config{}, server)
	d := &t04d{tw: w}
	x.Data = d
	if w.cl == nil {
		return
	}
	vrt.Branch(true)
	mk := func(n int) *rmsg {
		m := &rmsg{id: mid(n), actor: 7, action: fmt.Sprintf("m%d", n)}
		m.body = []byte(strings.Repeat(string(rune('a'+n)), n%3*5))
		return m
	}
	send := func(g, n int) {
		m := mk(n)
		err := w.cl.SendOneWay(toMsg(m))
		d.sent[g] = append(d.sent[g], sendRec{m, err})
	}
	req := func(g, n int) {
		m := mk(n)
		m.expect = true
		ctx := context.Background()
		if n%2 == 0 || n == 5 { // one that could be cancelled
			ctx, _ = vctx.WithCancel(ctx)
		}
		r, err := w.cl.RequestReply(ctx, toMsg(m))
		d.sent[g] = append(d.sent[g], sendRec{m, err})
		if err == nil && r.Headers.RelatesTo != m.id {
			vrt.Fail("request %v returned a reply to %v", m.id, r.Headers.RelatesTo)
		}
	}
	d.sent = make([][]sendRec, 3)
	if kind == 1 {
		par(map[string]func(){
			"s0": func() { req(0, 1); req(0, 2) },
			"s1": func() { req(1, 3); req(1, 4) },
			"peer": func() {
				for i := 1; i <= 4; i++ {
					i := i
					vrt.GoNamed("peer", func() {
						w.sawId(mid(i))
						w.feed(&rmsg{id: mid(10 + i), rel: mid(i), actor: 5, action: "r"})
					})
				}
			},
		})
	} else {
		par(map[string]func(){
			"s0": func() { send(0, 1); send(0, 2) },
			"s1": func() {
				send(1, 3)
				if _, err := w.cl.Ping(context.Background()); err != nil {
					vrt.Fail("ping: %v", err)
				}
			},
			"s2": func() { req(2, 5) },
			"peer": func() {
				for _, p := range []string{"tick one", "tick two"} {
					d.hb = append(d.hb, []byte(p))
					w.feed(&rmsg{id: mid(50), actor: actTransport, action: "HeartbeatRequest", high: true, body: []byte(p)})
				}
				w.sawId(mid(5))
				w.feed(&rmsg{id: mid(60), rel: mid(5), actor: 5, action: "r"})
			},
			"peer2": func() {
				h := w.seen("ping", func(m *rmsg) bool { return m.action == "HeartbeatRequest" })
				d.pings++
				w.feed(&rmsg{id: mid(61), actor: actTransport, action: "HeartbeatResponse", body: h.body})
			},
		})
	}
	idle()
	vrt.Branch(false)
	w.a.FeedEOF()
}

func t04f(x *vrt.Exec) {
	vrt.Branch(true)
	fail := vrt.Choose(9, 0, "failing write") + 1
	part := vrt.Choose(2, 0, "partial") == 1
	vrt.Branch(false)
	w := newTW(x, transport.Config{}, false)
	d := &t04d{tw: w, sent: make([][]sendRec, 2)}
	x.Data = d
	if w.cl == nil {
		return
	}
	w.a.FailWrite, w.a.PartialOnFail = w.a.WritesN+fail, part
	vrt.Branch(true)
	send := func(g, n int) {
		m := &rmsg{id: mid(n), actor: 7, action: "m", body: []byte("0123456789")}
		err := w.cl.SendOneWay(toMsg(m))
		d.sent[g] = append(d.sent[g], sendRec{m, err})
	}
	par(map[string]func(){
		"s0": func() { send(0, 1); send(0, 2) },
		"s1": func() { send(1, 3); send(1, 4) },
	})
	vrt.Branch(false)
	w.a.FeedEOF()
}

// judgeT04: the stream is whole frames, every successful send is there once, in order.
func judgeT04(mayFail bool) vrt.Judge {
	return func(x *vrt.Exec) vrt.Outcome {
		d, ok := x.Data.(*t04d)
		if !ok {
			return vrt.Outcome{Viol: []string{"set-up failed"}}
		}
		return d.judge(x, func(w *tw) (string, []string) {
			ms, rest, err := parseStream(w.a.Sent(), plainOpt)
			if err != nil {
				return "", []string{fmt.Sprintf("the bytes on the wire are no sequence of whole frames: %v", err)}
			}
			if len(rest) > 0 && !mayFail {
				return "", []string{fmt.Sprintf("%d bytes at the end are no whole frame", len(rest))}
			}
			var v []string
			pos := map[string]int{}
			left := map[string]bool{}
			hb := map[string]int{}
			key := ""
			for i, m := range ms {
				if i == 0 {
					continue // the opening message
				}
				switch m.action {
				case "HeartbeatRequest":
					key += "p"
					continue
				case "HeartbeatResponse":
					hb[string(m.body)]++
					key += "h"
					continue
				}
				k := m.key()
				if left[k] {
					v = append(v, "on the wire twice: "+k)
				}
				left[k] = true
				pos[k] = i
				key += fmt.Sprint(m.id.Index)
			}
			for g, l := range d.sent {
				last := -1
				for _, s := range l {
					k := s.m.key()
					p, on := pos[k]
					delete(left, k)
					if s.err != nil {
						key += "E"
						if !mayFail {
							v = append(v, fmt.Sprintf("sending %s failed: %v", k, s.err))
						}
						continue
					}
					if !on {
						v = append(v, fmt.Sprintf("goroutine %d: sent successfully but not on the wire: %s", g, k))
						continue
					}
					if p < last {
						v = append(v, fmt.Sprintf("goroutine %d: message overtaken by a later one: %s", g, k))
					}
					last = p
				}
			}
			for k := range left {
				v = append(v, "on the wire but never sent: "+k)
			}
			for _, b := range d.hb {
				if hb[string(b)] != 1 {
					v = append(v, fmt.Sprintf("heartbeat request %q answered %d times", b, hb[string(b)]))
				}
			}
			return key, v
		})
	}
}

// ---------------------------------------------------------------- T05

type t05d struct {
	*tw
	fed    []*rmsg
	result map[int]*rmsg // request number -> returned reply
	errs   map[int]error
	order  []int
	must   map[int]bool // replied to after the request was on the wire
}

func (d *t05d) request(n int) {
	m := &rmsg{id: mid(n), actor: 7, action: "req"}
	r, err := d.cl.RequestReply(context.Background(), toMsg(m))
	if err != nil {
		d.errs[n] = err
		return
	}
	d.result[n] = fromReply(r)
	d.order = append(d.order, n)
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func init() {
	p3 := perms(3)
	for _, server := range []bool{false, true} {
		server := server
		side := map[bool]string{false: "client", true: "server"}[server]
		add(&Scenario{Prop: "T05", Name: "replies-" + side, Shards: 8,
			Bounds: "three concurrent requests whose replies arrive in each of the 6 orders, each duplicated (thorough: or not), with an unsolicited message related to nothing and one without relation; " + side + " connection; all schedules with at most 2 (thorough 3) deviations",
			Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
			Body: func(x *vrt.Exec) {
				vrt.Branch(true)
				pi := vrt.Choose(len(p3), 0, "order of replies")
				dup := !deep || vrt.Choose(2, 0, "duplicates") == 0
				vrt.Branch(false)
				w := newTW(x, transport.Config{}, server)
				d := &t05d{tw: w, result: map[int]*rmsg{}, errs: map[int]error{}, must: map[int]bool{}}
				x.Data = d
				if w.cl == nil {
					return
				}
				vrt.Branch(true)
				feed := func(m *rmsg) {
					d.fed = append(d.fed, m)
					w.feed(m)
				}
				par(map[string]func(){
					"r1": func() { d.request(1) },
					"r2": func() { d.request(2) },
					"r3": func() { d.request(3) },
					"peer": func() {
						w.sawId(mid(1))
						w.sawId(mid(2))
						w.sawId(mid(3))
						for _, i := range p3[pi] {
							d.must[i+1] = true
							feed(&rmsg{id: mid(20 + i), rel: mid(i + 1), actor: 5, action: "reply", body: []byte{byte(i)}})
							if dup {
								feed(&rmsg{id: mid(30 + i), rel: mid(i + 1), actor: 5, action: "again", body: []byte{byte(i)}})
							}
						}
						feed(&rmsg{id: mid(40), rel: mid(77), actor: 5, action: "unknown"})
						feed(&rmsg{id: mid(41), actor: 5, action: "plain"})
					},
				})
				vrt.Branch(false)
				w.a.FeedEOF()
			},
			Judge: judgeT05})
	}
	add(&Scenario{Prop: "T05", Name: "early-and-repeated", Shards: 8,
		Bounds: "two requests in sequence on one goroutine and one on another, against a peer that sends replies at any moment, before or after the request was sent, in 8 scripts; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body: func(x *vrt.Exec) {
			vrt.Branch(true)
			script := vrt.Choose(8, 0, "script")
			vrt.Branch(false)
			w := newTW(x, transport.Config{}, false)
			d := &t05d{tw: w, result: map[int]*rmsg{}, errs: map[int]error{}, must: map[int]bool{}}
			x.Data = d
			vrt.Branch(true)
			k := 20
			feed := func(rel int, action string) {
				m := &rmsg{id: mid(k), actor: 5, action: action, body: []byte{byte(k)}}
				k++
				if rel > 0 {
					m.rel = mid(rel)
				}
				if a := int(m.rel.Index); rel > 0 {
					// a reply fed after the request is on the wire has to reach it
					if ms, _ := w.wire(); true {
						for _, q := range ms {
							if q.id == mid(a) {
								d.must[a] = true
							}
						}
					}
				}
				d.fed = append(d.fed, m)
				w.a.Feed(m.frame(plainOpt))
				vrt.Point("peer sent")
			}
			par(map[string]func(){
				"r1": func() { d.request(1); d.request(2) },
				"r3": func() { d.request(3) },
				"peer": func() {
					switch script {
					case 0:
						feed(1, "x")
						w.sawId(mid(1))
						feed(1, "x")
					case 1:
						feed(3, "x")
						feed(1, "x")
						feed(3, "x")
						feed(1, "x")
					case 2:
						w.sawId(mid(1))
						feed(3, "x")
						feed(1, "x")
						feed(2, "x")
					case 3:
						feed(2, "x")
						w.sawId(mid(1))
						feed(1, "x")
						feed(1, "x")
						w.sawId(mid(2))
						feed(1, "x")
						feed(2, "x")
					case 4:
						w.sawId(mid(3))
						feed(0, "plain")
						feed(3, "x")
						feed(0, "plain")
						feed(3, "x")
					case 5:
						w.sawId(mid(1))
						w.sawId(mid(3))
						feed(3, "x")
						feed(1, "x")
						w.sawId(mid(2))
						feed(2, "x")
					case 6:
						feed(99, "unknown")
						w.sawId(mid(1))
						// related to the wrong half of the identity
						m := &rmsg{id: mid(60), rel: mid(1), actor: 5, action: "other index"}
						m.rel.Index = 77
						d.fed = append(d.fed, m)
						w.feed(m)
						m = &rmsg{id: mid(61), rel: mid(1), actor: 5, action: "other prefix"}
						m.rel.Id.Data1++
						d.fed = append(d.fed, m)
						w.feed(m)
						feed(1, "x")
					case 7:
						// the reply itself asks for a reply and carries a fault
						w.sawId(mid(1))
						m := &rmsg{id: mid(1), rel: mid(1), actor: 5, action: "fault", errc: -17, fault: true, expect: true, custom: []rhdr{{0x8036, []byte{9}}}}
						d.fed = append(d.fed, m)
						d.must[1] = true
						w.feed(m)
					}
				},
				"end": func() {
					// requests never answered end with the connection
					idle()
					w.a.FeedEOF()
				},
			})
		},
		Judge: judgeT05})
}

func judgeT05(x *vrt.Exec) vrt.Outcome {
	d, ok := x.Data.(*t05d)
	if !ok {
		return vrt.Outcome{Viol: []string{"set-up failed"}}
	}
	return d.judge(x, func(w *tw) (string, []string) {
		var v []string
		key := fmt.Sprint("order", d.order)
		count := map[string]int{}
		var cb []string
		for _, m := range w.got {
			count[m.key()]++
			cb = append(cb, m.key())
		}
		for n, r := range d.result {
			if r.rel != mid(n) {
				v = append(v, fmt.Sprintf("request %d returned %s", n, r.key()))
			}
			count[r.key()]++
		}
		var want []string
		firstFor := map[transport.MessageId]bool{}
		for _, m := range d.fed {
			k := m.key()
			if count[k] != 1 {
				v = append(v, fmt.Sprintf("received once but delivered %d times: %s", count[k], k))
			}
			delete(count, k)
			taken := false
			for _, r := range d.result {
				if r.key() == k {
					taken = true
				}
			}
			if taken {
				key += "r"
				if firstFor[m.rel] {
					v = append(v, "request completed twice: "+k)
				}
				firstFor[m.rel] = true
			} else {
				key += "c"
				want = append(want, k)
			}
		}
		for k := range count {
			v = append(v, "delivered but never received: "+k)
		}
		if !w.viaSrv && !sameList(cb, want) {
			v = append(v, fmt.Sprintf("callback order\n %s\nwant\n %s", strings.Join(cb, "\n "), strings.Join(want, "\n ")))
		}
		for n := range d.must {
			if d.result[n] == nil {
				v = append(v, fmt.Sprintf("request %d was answered after it was sent but returned %v", n, d.errs[n]))
			}
		}
		return key, v
	})
}

// ---------------------------------------------------------------- T06

type t06d struct {
	*tw
	res    map[string]*rmsg
	errs   map[string]error
	ctxs   map[string]context.Context
	must   map[string]string // "reply", "error", "any"
	fed    []*rmsg           // application messages that must reach the callback
	maybe  map[string]bool   // messages that may be in the callback
	ended  bool
	closed bool
}

func newT06(x *vrt.Exec, server bool) *t06d {
	w := newTW(x, transport.Config{}, server)
	d := &t06d{tw: w, res: map[string]*rmsg{}, errs: map[string]error{}, ctxs: map[string]context.Context{}, must: map[string]string{}, maybe: map[string]bool{}}
	x.Data = d
	return d
}

func (d *t06d) request(name string, ctx context.Context, n int, must string) {
	d.must[name] = must
	d.ctxs[name] = ctx
	m := toMsg(&rmsg{id: mid(n), actor: 7, action: name})
	r, err := d.cl.RequestReply(ctx, m)
	m.Headers.Action, m.Body = "changed after the call", []byte{1, 2, 3} // the message is the caller's again
	if r == nil && err == nil {
		vrt.Fail("request %s returned neither a reply nor an error", name)
		return
	}
	if r != nil && err != nil {
		vrt.Fail("request %s returned both a reply and %v", name, err)
		return
	}
	if err == nil {
		d.res[name] = fromReply(r)
		if d.res[name].rel != mid(n) {
			vrt.Fail("request %s returned %s", name, d.res[name].key())
		}
	} else {
		d.errs[name] = err
	}
}

// finish ends the connection in one of the ways and waits for the receive loop.
func (d *t06d) finish(how int) {
	switch how {
	case 0:
		d.cl.Close()
	case 1:
		vrt.Point("peer closes")
		d.a.FeedEOF()
	case 2:
		vrt.Point("peer resets")
		d.a.ResetIn()
	case 3:
		vrt.Point("peer sends garbage")
		d.a.Feed([]byte("this is no frame at all, is it?"))
	}
	d.ended = true
}

var endings = []string{"local close", "peer end of stream", "peer reset", "malformed data"}

func judgeT06(x *vrt.Exec) vrt.Outcome {
	d, ok := x.Data.(*t06d)
	if !ok {
		return vrt.Outcome{Viol: []string{"set-up failed"}}
	}
	return d.judge(x, func(w *tw) (string, []string) {
		var v []string
		key := ""
		var names []string
		for n := range d.must {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			_, r := d.res[n]
			err := d.errs[n]
			if r {
				key += n + "=reply "
			} else {
				key += n + "=err "
			}
			switch d.must[n] {
			case "reply":
				if !r {
					v = append(v, fmt.Sprintf("request %s failed with %v although its reply arrived", n, err))
				}
			case "error":
				if r {
					v = append(v, fmt.Sprintf("request %s returned a reply nobody sent", n))
				}
			case "cancel":
				if !r && err != context.Canceled && err != context.DeadlineExceeded {
					v = append(v, fmt.Sprintf("request %s returned %v instead of the context's error", n, err))
				}
			}
		}
		cnt := map[string]int{}
		for _, m := range w.got {
			cnt[m.key()]++
		}
		for _, m := range d.fed {
			if cnt[m.key()] != 1 {
				v = append(v, fmt.Sprintf("message after a cancelled request delivered %d times: %s", cnt[m.key()], m.key()))
			}
			delete(cnt, m.key())
		}
		for k, n := range cnt {
			if !d.maybe[k] || n > 1 {
				v = append(v, fmt.Sprintf("delivered %d times to the callback: %s", n, k))
			}
			key += "late "
			for rn, r := range d.res {
				if r.key() == k {
					v = append(v, fmt.Sprintf("reply returned by request %s and delivered to the callback too", rn))
				}
			}
		}
		if d.ended && !w.a.Closed() {
			v = append(v, "the connection ended but was not closed")
		}
		return key, v
	})
}

func init() {
	for _, server := range []bool{false, true} {
		server := server
		side := map[bool]string{false: "client", true: "server"}[server]
		add(&Scenario{Prop: "T06", Name: "cancel-" + side, Shards: 8,
			Bounds: "a request cancelled at any moment while its reply is on the way, a concurrent request that must succeed, a message after both, then each of 4 endings; " + side + " connection; all schedules with at most 2 (thorough 3) deviations",
			Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
			Body: func(x *vrt.Exec) {
				vrt.Branch(true)
				how := vrt.Choose(4, 0, "ending")
				vrt.Branch(false)
				d := newT06(x, server)
				if d.cl == nil {
					return
				}
				ctx, cancel := vctx.WithCancel(context.Background())
				late := &rmsg{id: mid(21), rel: mid(1), actor: 5, action: "r1"}
				d.maybe[late.key()] = true
				vrt.Branch(true)
				par(map[string]func(){
					"r1":     func() { d.request("r1", ctx, 1, "cancel") },
					"r2":     func() { d.request("r2", context.Background(), 2, "reply") },
					"cancel": func() { cancel() },
					"peer": func() {
						// the first request may never be sent
						d.seen("requests", func(m *rmsg) bool { return m.id == mid(2) })
						d.feed(late)
						d.feed(&rmsg{id: mid(22), rel: mid(2), actor: 5, action: "r2"})
						m := &rmsg{id: mid(30), actor: 5, action: "after"}
						d.fed = append(d.fed, m)
						d.feed(m)
						idle()
						if len(d.got) == 0 || d.got[len(d.got)-1].action != "after" && !server {
							vrt.Fail("a message sent after the reply to a cancelled request is not delivered")
						}
						d.finish(how)
					},
				})
				idle()
			},
			Judge: judgeT06})
	}
	add(&Scenario{Prop: "T06", Name: "ending", Shards: 8,
		Bounds: "two requests, one cancellable, issued at any moment relative to one of 4 endings of the connection, then one more request; all schedules with at most 3 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body: func(x *vrt.Exec) {
			vrt.Branch(true)
			how := vrt.Choose(4, 0, "ending")
			vrt.Branch(false)
			d := newT06(x, false)
			ctx, cancel := vctx.WithCancel(context.Background())
			vrt.Branch(true)
			par(map[string]func(){
				"r1":     func() { d.request("r1", ctx, 1, "error") },
				"r2":     func() { d.request("r2", context.Background(), 2, "error") },
				"cancel": func() { cancel() },
				"end":    func() { d.finish(how) },
			})
			idle()
			d.request("r3", context.Background(), 3, "error")
			d.cl.Close()
			d.request("r4", context.Background(), 4, "error")
		},
		Judge: judgeT06})
	add(&Scenario{Prop: "T06", Name: "reply-then-end", Shards: 8,
		Bounds: "a reply immediately followed by each of 4 endings (local close only after the reply was returned), with a second request left unanswered; all schedules with at most 3 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body: func(x *vrt.Exec) {
			vrt.Branch(true)
			how := 1 + vrt.Choose(3, 0, "ending")
			vrt.Branch(false)
			d := newT06(x, false)
			vrt.Branch(true)
			par(map[string]func(){
				"r1": func() { d.request("r1", context.Background(), 1, "reply") },
				"r2": func() { d.request("r2", context.Background(), 2, "error") },
				"peer": func() {
					d.sawId(mid(1))
					d.sawId(mid(2))
					d.feed(&rmsg{id: mid(21), rel: mid(1), actor: 5, action: "r1"})
					d.finish(how)
				},
			})
			idle()
			d.request("r3", context.Background(), 3, "error")
		},
		Judge: judgeT06})
	add(&Scenario{Prop: "T06", Name: "send-failure", Shards: 4,
		Bounds: "two requests of which the network write fails at the 1st to 6th write, then the end of the connection; all schedules with at most 3 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body: func(x *vrt.Exec) {
			vrt.Branch(true)
			n := vrt.Choose(6, 0, "failing write")
			vrt.Branch(false)
			d := newT06(x, false)
			d.a.FailWrite = d.a.WritesN + 1 + n
			vrt.Branch(true)
			par(map[string]func(){
				"r1": func() { d.request("r1", context.Background(), 1, "error") },
				"r2": func() { d.request("r2", context.Background(), 2, "error") },
				"peer": func() {
					idle() // requests whose send failed have returned by now
					if n < 2 && len(d.errs) == 0 {
						vrt.Fail("no request reports that it could not be sent")
					}
					d.finish(1)
				},
			})
			idle()
		},
		Judge: judgeT06})
	add(&Scenario{Prop: "T06", Name: "stalled", Shards: 8,
		Bounds: "three requests (cancellable, with a deadline, neither) while the peer takes no more data, at once or in the middle of a message; the first two must end on their contexts, then the peer takes data again and answers, or the connection ends in each of 4 ways; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(vrt.Config{Bound: 2, NPCost: 1, MaxTimers: 20}, vrt.Config{Bound: 3, NPCost: 1, MaxTimers: 20}),
		Body: func(x *vrt.Exec) {
			how := script(5, "continuation")
			half := script(2, "stalled in the middle")
			d := newT06(x, false)
			idle()
			d.a.Stall, d.a.StallHalf = true, half == 1
			ctx, cancel := vctx.WithCancel(context.Background())
			ctx2, cancel2 := vctx.WithTimeout(context.Background(), time.Second)
			defer cancel2()
			left := 2
			must := "reply"
			if how > 0 {
				must = "error"
			}
			vrt.Branch(true)
			par(map[string]func(){
				"r1":     func() { d.request("r1", ctx, 1, "cancel"); left-- },
				"r2":     func() { d.request("r2", ctx2, 2, "cancel"); left-- },
				"r3":     func() { d.request("r3", context.Background(), 3, must) },
				"cancel": func() { cancel() },
				"peer": func() {
					vtime.Sleep(2 * time.Second)
					idle()
					if left > 0 {
						vrt.Fail("%d requests go on although their contexts are done, the peer takes no data", left)
					}
					if d.res["r1"] != nil || d.res["r2"] != nil {
						vrt.Fail("a request returned a reply nobody sent")
					}
					if how > 0 {
						d.finish(how - 1)
						return
					}
					d.a.Stall = false
					d.sawId(mid(3))
					ms, rest, err := parseStream(d.a.Sent(), plainOpt)
					if err != nil || len(rest) > 0 {
						vrt.Fail("after cancelled requests the stream is broken: %v, %d bytes left", err, len(rest))
					}
					for _, m := range ms {
						for n := 1; n <= 3; n++ {
							if m.id == mid(n) && (m.action != fmt.Sprint("r", n) || len(m.body) > 0) {
								vrt.Fail("request %d was sent as %s", n, m.key())
							}
						}
					}
					d.feed(&rmsg{id: mid(23), rel: mid(3), actor: 5, action: "r3"})
				},
			})
			idle()
			if how == 0 {
				d.finish(1)
			}
			idle()
		},
		Judge: judgeT06})
	add(&Scenario{Prop: "T06", Name: "timeout", Shards: 8,
		Bounds: "a request with a deadline and no reply, then its late reply, a second request and a message; all schedules with at most 3 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body: func(x *vrt.Exec) {
			d := newT06(x, false)
			vrt.Branch(true)
			late := &rmsg{id: mid(21), rel: mid(1), actor: 5, action: "late"}
			par(map[string]func(){
				"r1": func() {
					ctx, cancel := vctx.WithTimeout(context.Background(), 1000000000)
					defer cancel()
					d.request("r1", ctx, 1, "cancel")
					if d.res["r1"] != nil {
						vrt.Fail("request returned a reply nobody sent")
					}
					d.fed = append(d.fed, late)
					d.feed(late)
					d.request("r2", context.Background(), 2, "reply")
				},
				"r3": func() { d.request("r3", context.Background(), 3, "reply") },
				"peer": func() {
					d.sawId(mid(2))
					d.feed(&rmsg{id: mid(22), rel: mid(2), actor: 5, action: "r2"})
				},
				"peer3": func() {
					d.sawId(mid(3))
					d.feed(&rmsg{id: mid(23), rel: mid(3), actor: 5, action: "r3"})
				},
			})
			idle()
			d.finish(1)
			idle()
		},
		Judge: judgeT06})
	add(&Scenario{Prop: "T06", Name: "request-table", Shards: 8,
		Bounds: "the exported request table: two pending requests, one waiting with a cancellable context, replies fed to both in either order and one twice, cancellation, and closing the table or one request; all schedules with at most 3 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body: func(x *vrt.Exec) {
			vrt.Branch(true)
			script := vrt.Choose(6, 0, "script")
			var t transport.RequestTable
			ctx, cancel := vctx.WithCancel(context.Background())
			put := func(n int) *transport.PendingRequest {
				return t.Put(toMsg(&rmsg{id: mid(n)}))
			}
			p1, p2 := put(1), put(2)
			var outs [3]string
			fedOK := map[int]int{}
			doneAt := map[int]bool{}
			wait := func(i int, p *transport.PendingRequest, c context.Context) {
				r, err := p.Wait(c)
				switch {
				case r == nil && err == nil:
					vrt.Fail("wait %d returned neither", i)
				case r != nil && err != nil:
					vrt.Fail("wait %d returned both", i)
				case r != nil && r.Headers.RelatesTo != mid(i):
					vrt.Fail("wait %d returned the reply to %v", i, r.Headers.RelatesTo)
				case r != nil:
					outs[i] = "reply"
				default:
					outs[i] = err.Error()
				}
				doneAt[i] = true
			}
			feed := func(n int) {
				r := &transport.ByteArrayMessage{}
				r.Headers.RelatesTo = mid(n)
				if t.Feed(r) {
					fedOK[n]++
				} else if !doneAt[n] && fedOK[n] == 0 && script == 0 {
					vrt.Fail("a reply to pending request %d was not taken", n)
				}
			}
			th := map[string]func(){
				"w1": func() { wait(1, p1, ctx) },
				"w2": func() { wait(2, p2, context.Background()) },
				"f1": func() { feed(1); feed(1) },
				"f2": func() { feed(2) },
			}
			switch script {
			case 1:
				th["x"] = func() { cancel() }
			case 2:
				th["x"] = func() { t.Close() }
			case 3:
				th["x"] = func() { p1.Close(); p1.Close() }
			case 4:
				th["x"] = func() { t.Close() }
				th["y"] = func() { p2.Close(); cancel() }
			case 5:
				delete(th, "f2")
				th["f1"] = func() { feed(2); feed(1); feed(3) }
			}
			x.Data = func() (string, []string) {
				var v []string
				for i := 1; i <= 2; i++ {
					if fedOK[i] > 1 {
						v = append(v, fmt.Sprintf("two replies taken for request %d", i))
					}
					if outs[i] == "reply" && fedOK[i] == 0 {
						v = append(v, fmt.Sprintf("request %d got a reply that was refused", i))
					}
					if (script == 0 || script == 5) && outs[i] != "reply" {
						v = append(v, fmt.Sprintf("request %d returned %q", i, outs[i]))
					}
					if script == 1 && i == 1 && outs[1] != "reply" && outs[1] != context.Canceled.Error() {
						v = append(v, fmt.Sprintf("cancelled request returned %q", outs[1]))
					}
				}
				if fedOK[3] != 0 {
					v = append(v, "a reply to an unknown request was taken")
				}
				return fmt.Sprint(script, outs, fedOK), v
			}
			par(th)
		},
		Judge: func(x *vrt.Exec) vrt.Outcome {
			var o vrt.Outcome
			fin(x, &o)
			if f, ok := x.Data.(func() (string, []string)); ok && len(o.Viol) == 0 && len(x.Panics) == 0 {
				o.Key, o.Viol = f()
			}
			return o
		}})
}

// ---------------------------------------------------------------- T07

type pingRes struct {
	n    int
	done bool
	err  error
	d    int64
}

type t07d struct {
	*tw
	pings  []*pingRes
	must   map[int]string // ping number -> "ok", "err", "cancel"
	echoed map[string]bool
	hb     [][]byte // heartbeat requests received
	fed    []*rmsg
}

func (d *t07d) ping(n int, ctx context.Context, must string) *pingRes {
	r := &pingRes{n: n}
	d.pings = append(d.pings, r)
	d.must[n] = must
	t, err := d.cl.Ping(ctx)
	r.done, r.err, r.d = true, err, int64(t)
	if err == nil && t < 0 {
		vrt.Fail("ping %d measured %v", n, t)
	}
	return r
}

// nth waits for the nth heartbeat request on the wire and returns its payload.
func (d *t07d) nth(n int) []byte {
	c := 0
	var b []byte
	vrt.Block(fmt.Sprintf("peer awaits ping %d", n), func() bool {
		c = 0
		ms, _, _ := parseStream(d.a.Sent(), plainOpt)
		for _, m := range ms {
			if m.action == "HeartbeatRequest" && m.actor == actTransport {
				if c++; c == n {
					b = m.body
					return true
				}
			}
		}
		return false
	})
	return b
}

func (d *t07d) echo(b []byte) {
	d.feed(&rmsg{id: mid(70), actor: actTransport, action: "HeartbeatResponse", high: true, body: b})
}

func tick(v int64) []byte { return refMarshal(&wI64{v}) }

func init() {
	add(&Scenario{Prop: "T07", Name: "stalled", Shards: 8,
		Bounds: "three pings (cancellable, with a deadline, neither) while the peer takes no more data, at once or in the middle of a message; the first two must end on their contexts, then the peer takes data again and echoes, or the connection is closed; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(vrt.Config{Bound: 2, NPCost: 1, MaxTimers: 20}, vrt.Config{Bound: 3, NPCost: 1, MaxTimers: 20}),
		Body: func(x *vrt.Exec) {
			goes := script(2, "continuation") == 0
			half := script(2, "stalled in the middle")
			w := newTW(x, transport.Config{}, false)
			d := &t07d{tw: w, must: map[int]string{}}
			x.Data = d
			idle()
			d.a.Stall, d.a.StallHalf = true, half == 1
			ctx, cancel := vctx.WithCancel(context.Background())
			ctx2, cancel2 := vctx.WithTimeout(context.Background(), time.Second)
			defer cancel2()
			left := 2
			vrt.Branch(true)
			par(map[string]func(){
				"p1":   func() { d.ping(1, ctx, "err"); left-- },
				"p2":   func() { d.ping(2, ctx2, "err"); left-- },
				"p3":   func() { d.ping(3, context.Background(), map[bool]string{true: "ok", false: "err"}[goes]) },
				"stop": func() { cancel() },
				"peer": func() {
					vtime.Sleep(2 * time.Second)
					idle()
					if left > 0 {
						vrt.Fail("%d pings go on although their contexts are done, the peer takes no data", left)
					}
					if !goes {
						d.cl.Close()
						return
					}
					d.a.Stall = false
					for i, n := 0, 0; i < 5; i++ { // echoes everything
						idle()
						ms, rest, err := parseStream(d.a.Sent(), plainOpt)
						if err != nil || len(rest) > 0 {
							vrt.Fail("after cancelled pings the stream is broken: %v, %d bytes left", err, len(rest))
							return
						}
						k := 0
						for _, m := range ms {
							if m.actor == actTransport && m.action == "HeartbeatRequest" {
								if k++; k > n {
									d.echo(m.body)
									n++
								}
							}
						}
					}
				},
			})
			idle()
			vrt.Branch(false)
			if goes {
				d.a.FeedEOF()
			}
			idle()
		},
		Judge: judgeT07})
	const scripts = 14
	for _, server := range []bool{false, true} {
		server := server
		side := map[bool]string{false: "client", true: "server"}[server]
		add(&Scenario{Prop: "T07", Name: "pings-" + side, Shards: 8,
			Bounds: fmt.Sprintf("%d scripts of pings, echoes (own, foreign, earlier, doubled, malformed, none), cancellation, application messages and closing on a %s connection; all schedules with at most 2 (thorough 3) deviations", scripts, side),
			Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
			Body: func(x *vrt.Exec) {
				vrt.Branch(true)
				script := vrt.Choose(scripts, 0, "script")
				vrt.Branch(false)
				w := newTW(x, transport.Config{}, server)
				d := &t07d{tw: w, must: map[int]string{}}
				x.Data = d
				if w.cl == nil {
					return
				}
				bg := context.Background()
				ctx, cancel := vctx.WithCancel(bg)
				app := func() {
					m := &rmsg{id: mid(80 + len(d.fed)), actor: 5, action: "app"}
					d.fed = append(d.fed, m)
					d.feed(m)
				}
				vrt.Branch(true)
				th := map[string]func(){}
				switch script {
				case 0: // a stray response first, then the right one, doubled
					th["p"] = func() { d.ping(1, bg, "ok") }
					th["peer"] = func() {
						d.echo(tick(12345))
						b := d.nth(1)
						for _, v := range []int64{777, 1 << 62, -1, 0} {
							d.echo(tick(v))
						}
						idle()
						if d.pings[0].done {
							vrt.Fail("ping returned %v on a foreign echo", d.pings[0].err)
						}
						d.echo(b)
						d.echo(b)
						app()
					}
				case 1: // a cancelled ping is echoed late; the next one is answered
					th["p"] = func() { d.ping(1, ctx, "any"); d.ping(2, bg, "ok") }
					th["c"] = func() { cancel() }
					th["peer"] = func() {
						// the first ping may be cancelled before it is sent
						first := d.nth(1)
						d.echo(first)
						vrt.Block("second", func() bool { return len(d.pings) > 1 && d.pings[0].done })
						idle()
						ms, _, _ := parseStream(d.a.Sent(), plainOpt)
						for _, m := range ms {
							if m.action == "HeartbeatRequest" {
								d.echo(m.body)
							}
						}
					}
				case 2: // the first ping times out, its echo arrives during the second
					th["p"] = func() {
						c2, stop := vctx.WithTimeout(bg, 1000000)
						d.ping(1, c2, "err")
						stop()
						d.ping(2, bg, "ok")
					}
					th["peer"] = func() {
						b := d.nth(1)
						b2 := d.nth(2)
						d.echo(b)
						idle()
						if d.pings[1].done {
							vrt.Fail("a ping completed on the echo of an earlier one")
						}
						d.echo(b2)
					}
				case 3: // two concurrent pings both answered
					th["p"] = func() { d.ping(1, bg, "ok") }
					th["q"] = func() { d.ping(2, bg, "ok") }
					th["peer"] = func() { d.echo(d.nth(1)); d.echo(d.nth(2)) }
				case 4: // never echoed, closed locally
					th["p"] = func() { d.ping(1, bg, "err") }
					th["q"] = func() { d.ping(2, ctx, "err") }
					th["x"] = func() { d.cl.Close() }
				case 5: // stray responses and closing
					th["p"] = func() { d.ping(1, bg, "any") }
					th["x"] = func() { d.cl.Close() }
					th["peer"] = func() { d.echo(tick(1)); d.echo(tick(0)) }
				case 6: // own echo racing with closing
					th["p"] = func() { d.ping(1, bg, "any") }
					th["peer"] = func() {
						if b := d.nth(1); b != nil {
							d.echo(b)
						}
					}
					th["x"] = func() { d.nth(1); d.cl.Close() }
				case 7: // malformed and odd responses, then application messages
					th["p"] = func() { d.ping(1, bg, "ok") }
					th["peer"] = func() {
						d.echo([]byte{1, 2, 3})
						d.echo(nil)
						b := d.nth(1)
						d.echo(b[:len(b)-1])
						app()
						d.echo(append(append([]byte(nil), b...), b...)[:len(b)])
						app()
					}
				case 8: // heartbeat requests from the peer, any payload
					th["p"] = func() { d.ping(1, bg, "ok") }
					th["peer"] = func() {
						for _, p := range [][]byte{tick(5), {}, []byte("no tick at all")} {
							d.hb = append(d.hb, p)
							d.feed(&rmsg{id: mid(50), actor: actTransport, action: "HeartbeatRequest", high: true, body: p})
						}
						app()
						d.echo(d.nth(1))
					}
				case 9: // the peer ends the stream while pings wait
					th["p"] = func() { d.ping(1, bg, "err"); d.ping(2, bg, "err") }
					th["peer"] = func() { vrt.Point("eof"); d.a.FeedEOF() }
				case 10: // responses to nothing must not hold up messages
					th["peer"] = func() {
						d.echo(tick(1))
						app()
						d.echo(tick(2))
						app()
					}
					th["p"] = func() {}
				case 11: // an echo that looks right but is of the wrong kind
					th["p"] = func() { d.ping(1, ctx, "err") }
					th["peer"] = func() {
						b := d.nth(1)
						m := &rmsg{id: mid(71), actor: 5, action: "HeartbeatResponse", body: b}
						d.fed = append(d.fed, m)
						d.feed(m)
						d.feed(&rmsg{id: mid(72), actor: actTransport, action: "HeartbeatOther", body: b})
						d.echo(tick(1))
						idle()
						if d.pings[0].done {
							vrt.Fail("a ping completed without its echo: %v", d.pings[0].err)
						}
						cancel()
					}
				case 12: // an already cancelled ping, then a good one
					th["p"] = func() {
						cancel()
						d.ping(1, ctx, "any")
						if d.pings[0].err == nil {
							vrt.Fail("a ping with a cancelled context and no echo succeeded")
						}
						d.ping(2, bg, "ok")
					}
					th["peer"] = func() {
						vrt.Block("second", func() bool { return len(d.pings) > 1 })
						idle()
						ms, _, _ := parseStream(d.a.Sent(), plainOpt)
						for _, m := range ms {
							if m.action == "HeartbeatRequest" {
								d.echo(m.body)
							}
						}
					}
				case 13: // cancelled while another ping waits for its echo
					var second *pingRes
					th["p"] = func() { d.ping(1, bg, "ok") }
					th["q"] = func() { d.nth(1); second = d.ping(2, ctx, "err") }
					th["c"] = func() { d.nth(1); cancel() }
					th["peer"] = func() {
						b := d.nth(1)
						vrt.Block("the cancelled ping", func() bool { return second != nil })
						d.echo(b)
					}
				}
				par(th)
				idle()
				vrt.Branch(false)
				got := len(d.got)
				if !d.a.Closed() && got != len(d.fed) {
					vrt.Fail("%d of %d application messages delivered", got, len(d.fed))
				}
				d.a.FeedEOF()
				idle()
				if err := d.ping(99, bg, "err").err; err == nil {
					vrt.Fail("a ping on a closed connection succeeded")
				}
			},
			Judge: judgeT07})
	}
}

func judgeT07(x *vrt.Exec) vrt.Outcome {
	d, ok := x.Data.(*t07d)
	if !ok {
		return vrt.Outcome{Viol: []string{"set-up failed"}}
	}
	return d.judge(x, func(w *tw) (string, []string) {
		var v []string
		key := ""
		for _, p := range d.pings {
			key += fmt.Sprintf("%d:%v ", p.n, p.err == nil)
			switch m := d.must[p.n]; {
			case !p.done:
				v = append(v, fmt.Sprintf("ping %d never returned", p.n))
			case m == "ok" && p.err != nil:
				v = append(v, fmt.Sprintf("ping %d failed with %v although the peer echoed it", p.n, p.err))
			case m == "err" && p.err == nil:
				v = append(v, fmt.Sprintf("ping %d succeeded without its echo", p.n))
			}
		}
		hb := map[string]int{}
		ms, _, err := parseStream(w.a.Sent(), plainOpt)
		if err != nil {
			v = append(v, err.Error())
		}
		for _, m := range ms {
			if m.action == "HeartbeatResponse" {
				hb[string(m.body)]++
				if m.actor != actTransport || m.id.IsEmpty() {
					v = append(v, "odd heartbeat response "+m.key())
				}
			}
		}
		for _, b := range d.hb {
			if hb[string(b)] != 1 {
				v = append(v, fmt.Sprintf("heartbeat request with payload %x answered %d times", b, hb[string(b)]))
			}
			delete(hb, string(b))
		}
		for b := range hb {
			v = append(v, fmt.Sprintf("heartbeat response nobody asked for: %x", b))
		}
		if !sameSet(keys(w.got), keys(d.fed)) {
			v = append(v, fmt.Sprintf("application messages delivered %v want %v", keys(w.got), keys(d.fed)))
		}
		return key, v
	})
}

// ---------------------------------------------------------------- T08

func init() {
	add(&Scenario{Prop: "T08", Name: "concurrent-ids", Shards: 8,
		Bounds: "two connections, each used by two goroutines sending two messages without identity and one request, with one generator used by two goroutines; memory accesses are scheduling points; all schedules with at most 1 (thorough 2) deviations",
		Cfg: func(t bool) vrt.Config {
			c := vrt.Config{Bound: 1, NPCost: 1, Access: true, MaxSteps: 6000, MaxTimers: 8}
			if t {
				c.Bound = 2
			}
			return c
		},
		Body: func(x *vrt.Exec) {
			w1 := newTW(x, transport.Config{}, false)
			w2 := newTW(x, transport.Config{}, false)
			g, err := transport.NewMessageIdGenerator()
			if err != nil {
				vrt.Fail("generator: %v", err)
				return
			}
			var ids []transport.MessageId
			d := &t08d{ws: []*tw{w1, w2}, ids: &ids}
			x.Data = d
			own := mid(500)
			half := transport.MessageId{Index: 3}
			half2 := transport.MessageId{Id: mid(1).Id}
			d.own = []transport.MessageId{own, half, half2}
			send := func(w *tw, id transport.MessageId) {
				m := &transport.Message{}
				m.Headers.Id = id
				m.Headers.Action = "m"
				if err := w.cl.SendOneWay(m); err != nil {
					vrt.Fail("send: %v", err)
				}
				if m.Headers.Id.IsEmpty() {
					vrt.Fail("a sent message has no identity")
				}
			}
			vrt.Branch(true)
			par(map[string]func(){
				"a": func() { send(w1, transport.MessageId{}); send(w1, own) },
				"b": func() { send(w1, transport.MessageId{}); send(w2, half) },
				"c": func() { send(w2, transport.MessageId{}); send(w1, half2) },
				"g": func() { ids = append(ids, g.Next()) },
				"h": func() { ids = append(ids, g.Next()) },
			})
			vrt.Branch(false)
			w1.a.FeedEOF()
			w2.a.FeedEOF()
		},
		Judge: judgeT08})
	add(&Scenario{Prop: "T08", Name: "histories", Shards: 1,
		Bounds: "every sequence of up to 6 of: send without identity, with identity, request, ping, heartbeat answer, generator step, new connection, new generator; random source normal, all zero or all ones",
		Enum:   enumT08})
}

type t08d struct {
	ws  []*tw
	ids *[]transport.MessageId
	own []transport.MessageId
}

func judgeT08(x *vrt.Exec) vrt.Outcome {
	var o vrt.Outcome
	fin(x, &o)
	d, ok := x.Data.(*t08d)
	if !ok || len(x.Panics) > 0 || len(o.Viol) > 0 {
		return o
	}
	seen := map[transport.MessageId]int{}
	for _, w := range d.ws {
		ms, rest, err := parseStream(w.a.Sent(), plainOpt)
		if err != nil || len(rest) > 0 {
			o.Viol = append(o.Viol, fmt.Sprintf("the stream is no sequence of whole frames: %v", err))
			return o
		}
		pre := ""
		for _, m := range ms {
			seen[m.id]++
			o.Key += fmt.Sprint(m.id.Index, " ")
			isOwn := false
			for _, id := range d.own {
				isOwn = isOwn || id == m.id
			}
			if m.id.IsEmpty() {
				o.Viol = append(o.Viol, "a message was sent without identity")
			}
			if !isOwn {
				if p := m.id.Id.String(); pre == "" {
					pre = p
				} else if p != pre {
					o.Viol = append(o.Viol, "identities of one connection have different prefixes")
				}
			}
		}
	}
	for _, id := range *d.ids {
		seen[id]++
		o.Key += fmt.Sprint("g", id.Index)
		if id.IsEmpty() {
			o.Viol = append(o.Viol, "an empty identity was generated")
		}
	}
	for id, n := range seen {
		if n > 1 {
			o.Viol = append(o.Viol, fmt.Sprintf("identity %v was given to %d messages", id, n))
		}
	}
	for _, id := range d.own {
		if seen[id] != 1 {
			o.Viol = append(o.Viol, fmt.Sprintf("the message with its own identity %v appears %d times", id, seen[id]))
		}
	}
	return o
}

func enumT08(c *Ctx) {
	ops := []string{"send", "own", "request", "ping", "heartbeat", "next", "conn", "gen"}
	max := 5
	if c.Thorough {
		max = 6
	}
	for n := 1; n <= max; n++ {
		idx := make([]int, n)
		for {
			l := append([]int(nil), idx...)
			if !c.Case(func() string {
				s := ""
				for _, i := range l {
					s += ops[i] + " "
				}
				return s
			}, func() error { return historyT08(c, l) }) {
				return
			}
			if !inc(idx, len(ops)) {
				break
			}
		}
	}
}

func inc(idx []int, base int) bool {
	for i := len(idx) - 1; i >= 0; i-- {
		if idx[i]++; idx[i] < base {
			return true
		}
		idx[i] = 0
	}
	return false
}

func historyT08(c *Ctx, ops []int) error {
	var ws []*tw
	var gens []transport.MessageIdGenerator
	var direct []transport.MessageId
	given := map[transport.MessageId]bool{}
	err := seqCfg(vrt.Config{MaxSteps: 200000, MaxTimers: 50}, func(x *vrt.Exec) error {
		newc := func() { ws = append(ws, newTW(x, transport.Config{}, false)) }
		newg := func() error {
			g, err := transport.NewMessageIdGenerator()
			gens = append(gens, g)
			return err
		}
		newc()
		if err := newg(); err != nil {
			return err
		}
		for i, o := range ops {
			c.Step(1)
			w := ws[len(ws)-1]
			if o < 4 && i%2 == 1 {
				w = ws[0]
			}
			m := &transport.Message{}
			m.Headers.Action = "x"
			switch o {
			case 0:
				if err := w.cl.SendOneWay(m); err != nil {
					return err
				}
			case 1:
				m.Headers.Id = mid(100 + i)
				given[m.Headers.Id] = true
				if err := w.cl.SendOneWay(m); err != nil {
					return err
				}
				if m.Headers.Id != mid(100+i) {
					return fmt.Errorf("a message's own identity was replaced by %v", m.Headers.Id)
				}
			case 2:
				done := false
				var rerr error
				vrt.Go(func() {
					_, rerr = w.cl.RequestReply(context.Background(), m)
					done = true
				})
				idle()
				ms, _ := w.wire()
				if len(ms) == 0 {
					return fmt.Errorf("no request sent")
				}
				q := ms[len(ms)-1]
				if !q.expect || q.action != "x" {
					return fmt.Errorf("request on the wire: %s", q.key())
				}
				w.a.Feed((&rmsg{id: mid(900), rel: q.id, action: "reply"}).frame(plainOpt))
				idle()
				if !done || rerr != nil {
					return fmt.Errorf("replying to the identity on the wire: done %v, error %v", done, rerr)
				}
			case 3:
				ctx, cancel := vctx.WithTimeout(context.Background(), 1000)
				w.cl.Ping(ctx)
				cancel()
			case 4:
				w.a.Feed((&rmsg{id: mid(901), actor: actTransport, action: "HeartbeatRequest"}).frame(plainOpt))
				idle()
			case 5:
				direct = append(direct, gens[len(gens)-1].Next(), gens[0].Next())
			case 6:
				newc()
			case 7:
				if err := newg(); err != nil {
					return err
				}
			}
		}
		for _, w := range ws {
			w.a.FeedEOF()
		}
		return nil
	}, nil)
	if err != nil {
		return err
	}
	seen := map[transport.MessageId]bool{}
	chk := func(id transport.MessageId) error {
		if id.IsEmpty() {
			return fmt.Errorf("an empty identity was used")
		}
		if seen[id] {
			return fmt.Errorf("identity %v used twice", id)
		}
		seen[id] = true
		return nil
	}
	total := 0
	for _, w := range ws {
		ms, rest, err := parseStream(w.a.Sent(), plainOpt)
		if err != nil || len(rest) > 0 {
			return fmt.Errorf("stream: %v, rest %x", err, clip(rest))
		}
		pre := serialization.GUID{}
		for i, m := range ms {
			total++
			if err := chk(m.id); err != nil {
				return err
			}
			if i == 0 {
				pre = m.id.Id
			} else if !given[m.id] && m.id.Id != pre {
				return fmt.Errorf("prefix %v then %v on one connection", pre, m.id.Id)
			}
		}
	}
	for _, id := range direct {
		if err := chk(id); err != nil {
			return err
		}
	}
	c.Obs(total, len(direct), len(ws))
	return nil
}

// ---------------------------------------------------------------- T09

type t09d struct {
	*tw
	after []string // operations after the end that did not fail
	res   map[string]error
	auth  string // expected text, "" when not refused
	code  string
	fed   []*rmsg
}

func (d *t09d) op(name string, ctx context.Context, k int) {
	var err error
	m := toMsg(&rmsg{id: mid(k), actor: 5, action: name})
	switch name[0] {
	case 's':
		err = d.cl.SendOneWay(m)
	case 'r':
		_, err = d.cl.RequestReply(ctx, m)
	case 'p':
		_, err = d.cl.Ping(ctx)
	}
	d.res[name] = err
}

// afterwards checks that every operation fails once the connection has ended.
func (d *t09d) afterwards() {
	for i, n := range []string{"s-after", "r-after", "p-after"} {
		d.op(n, context.Background(), 200+i)
		err := d.res[n]
		if err == nil {
			vrt.Fail("%s succeeded on a closed connection", n)
		} else if d.auth != "" || d.code != "" {
			if !strings.Contains(err.Error(), d.auth) || !strings.Contains(err.Error(), d.code) {
				vrt.Fail("%s reports %q, not the refusal %q with code %s", n, err, d.auth, d.code)
			}
		}
	}
}

func init() {
	for _, server := range []bool{false, true} {
		server := server
		side := map[bool]string{false: "client", true: "server"}[server]
		add(&Scenario{Prop: "T09", Name: "close-" + side, Shards: 8,
			Bounds: "two goroutines closing (one twice) while a request, a ping and a send are under way, then every operation again and another close; " + side + " connection; all schedules with at most 3 (thorough 4) deviations",
			Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
			Body: func(x *vrt.Exec) {
				w := newTW(x, transport.Config{}, server)
				d := &t09d{tw: w, res: map[string]error{}}
				x.Data = d
				if w.cl == nil {
					return
				}
				bg := context.Background()
				vrt.Branch(true)
				par(map[string]func(){
					"c1": func() { d.cl.Close() },
					"c2": func() { d.cl.Close(); d.cl.Close() },
					"r":  func() { d.op("r", bg, 1) },
					"p":  func() { d.op("p", bg, 0) },
					"s":  func() { d.op("s", bg, 2) },
				})
				for _, n := range []string{"r", "p"} {
					if d.res[n] == nil {
						vrt.Fail("%s succeeded although nobody answered", n)
					}
				}
				idle()
				vrt.Branch(false)
				d.afterwards()
				d.cl.Close()
			},
			Judge: judgeT09(true)})
	}
	for _, server := range []bool{false, true} {
		server := server
		side := map[bool]string{false: "client", true: "server"}[server]
		add(&Scenario{Prop: "T09", Name: "stalled-" + side, Shards: 8,
			Bounds: "two sends, a request and a ping under way while the peer takes no more data, ended by a local close, the end of the stream or a refusal of authentication; " + side + " connection; all schedules with at most 2 (thorough 3) deviations",
			Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
			Body: func(x *vrt.Exec) {
				how := script(3, "end")
				w := newTW(x, transport.Config{}, server)
				d := &t09d{tw: w, res: map[string]error{}}
				x.Data = d
				if w.cl == nil {
					return
				}
				bg := context.Background()
				idle()
				w.a.Stall = true
				vrt.Branch(true)
				par(map[string]func(){
					"s1": func() { d.op("s1", bg, 2) },
					"s2": func() { d.op("s2", bg, 3) },
					"r":  func() { d.op("r", bg, 1) },
					"p":  func() { d.op("p", bg, 0) },
					"z end": func() {
						switch how {
						case 0:
							d.cl.Close()
						case 1:
							w.a.FeedEOF()
						case 2:
							w.feed(&rmsg{id: mid(1000), actor: actSendTarget, action: "ConnectionAuth", errc: 5, body: refMarshal(&wStr{"no"})})
						}
					},
				})
				for _, n := range []string{"s1", "s2", "r", "p"} {
					if d.res[n] == nil {
						vrt.Fail("%s succeeded although the peer took no data", n)
					}
				}
				idle()
				vrt.Branch(false)
				d.afterwards()
			},
			Judge: judgeT09(true)})
	}
	add(&Scenario{Prop: "T09", Name: "refused", Shards: 8,
		Bounds: "the peer refuses authentication (8 ways: code, message present, empty, missing, cut short or undecodable, related to the pending or to an unknown request) while a request, a ping and a send are under way, optionally with local close; then every operation; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body: func(x *vrt.Exec) {
			vrt.Branch(true)
			k := vrt.Choose(8, 0, "refusal")
			vrt.Branch(false)
			w := newTW(x, transport.Config{}, false)
			d := &t09d{tw: w, res: map[string]error{}}
			x.Data = d
			bg := context.Background()
			m := &rmsg{id: mid(1000), actor: actSendTarget, action: "ConnectionAuth"}
			switch k {
			case 0:
				m.errc, d.auth, m.body = -2147017661, "who are you?", refMarshal(&wStr{"who are you?"})
			case 1:
				m.errc, m.body = 5, refMarshal(&wStr{""})
			case 2:
				m.errc, m.fault, m.body = 1<<40, true, []byte{0xff, 1, 2}
			case 3:
				m.errc, d.auth, m.body = 7, "closing", refMarshal(&wStr{"closing"})
			case 4: // no body at all
				m.errc = -9
			case 5: // a body cut short
				m.errc, m.body = 11, refMarshal(&wStr{"go away"})
				m.body = m.body[:len(m.body)-5]
			case 6: // as if it was the reply
				m.errc, d.auth, m.body, m.rel = 12, "no", refMarshal(&wStr{"no"}), mid(1)
			case 7:
				m.errc, d.auth, m.body, m.rel = 13, "no", refMarshal(&wStr{"no"}), mid(77)
			}
			d.code = fmt.Sprint(m.errc)
			vrt.Branch(true)
			// whoever has seen the refusal sees it again
			again := func() {
				d.op("s-again", bg, 3)
				if err := d.res["s-again"]; err == nil || !strings.Contains(err.Error(), d.auth) || !strings.Contains(err.Error(), d.code) {
					vrt.Fail("a send after a request had failed reports %v, not the refusal %q with code %s", err, d.auth, d.code)
				}
			}
			th := map[string]func(){
				"peer": func() { w.feed(m) },
				"r":    func() { d.op("r", bg, 1); again() },
				"p":    func() { d.op("p", bg, 0) },
				"s":    func() { d.op("s", bg, 2) },
			}
			par(th)
			for _, n := range []string{"r", "p"} {
				if d.res[n] == nil {
					vrt.Fail("%s succeeded although nobody answered", n)
				}
			}
			idle()
			vrt.Branch(false)
			d.afterwards()
			d.cl.Close()
			d.afterwards()
		},
		Judge: judgeT09(true)})
	add(&Scenario{Prop: "T09", Name: "accepted", Shards: 1,
		Bounds: "notifications with the same action that are no refusal (success code; other actor; other action; relating to a pending request), after which the connection must go on; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body: func(x *vrt.Exec) {
			vrt.Branch(true)
			k := vrt.Choose(4, 0, "notification")
			vrt.Branch(false)
			w := newTW(x, transport.Config{}, false)
			d := &t09d{tw: w, res: map[string]error{}}
			x.Data = d
			bg := context.Background()
			m := &rmsg{id: mid(1000), actor: actSendTarget, action: "ConnectionAuth", body: refMarshal(&wStr{"welcome"})}
			switch k {
			case 1:
				m.actor, m.errc = 5, 9
			case 2:
				m.action, m.errc = "ConnectionAuthX", 9
			case 3:
				m.errc, m.fault = 0, true
			}
			d.fed = append(d.fed, &rmsg{id: mid(1001), actor: 5, action: "after"})
			vrt.Branch(true)
			par(map[string]func(){
				"peer": func() {
					w.feed(m)
					w.feed(d.fed[0])
					w.sawId(mid(1))
					w.feed(&rmsg{id: mid(1002), rel: mid(1), actor: 5, action: "reply"})
				},
				"r": func() { d.op("r", bg, 1); d.op("s", bg, 2) },
			})
			idle()
			vrt.Branch(false)
			for _, n := range []string{"r", "s"} {
				if d.res[n] != nil {
					vrt.Fail("%s failed with %v although authentication was not refused", n, d.res[n])
				}
			}
			if d.a.Closed() || d.wdone {
				vrt.Fail("the connection was closed by a notification that is no refusal")
			}
			found := false
			for _, g := range d.got {
				found = found || g.key() == d.fed[0].key()
			}
			if !found {
				vrt.Fail("the message after the notification was not delivered")
			}
			d.a.FeedEOF()
		},
		Judge: judgeT09(true)})
}

func judgeT09(closed bool) vrt.Judge {
	return func(x *vrt.Exec) vrt.Outcome {
		d, ok := x.Data.(*t09d)
		if !ok {
			return vrt.Outcome{Viol: []string{"set-up failed"}}
		}
		return d.judge(x, func(w *tw) (string, []string) {
			var v []string
			if !w.a.Closed() {
				v = append(v, "the underlying connection was not closed")
			}
			if !w.viaSrv && !w.wdone {
				v = append(v, "the receive loop did not end")
			}
			key := ""
			for _, n := range []string{"r", "p", "s"} {
				key += fmt.Sprintf("%s=%v ", n, d.res[n] == nil)
			}
			return key, v
		})
	}
}
