package main

// R01: every pair (thorough: with a third) of concurrent public operations on one
// object, with a happens-before check on every instrumented memory access.

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

type rop struct {
	name string
	f    func(k int) // k: position in the combination, for distinct ids
}

type rdata struct {
	ops  string
	skip bool
}

// combo picks a combination of n operations (with repetition, unordered).
func combo(ops []rop, n int) []rop {
	var sel []rop
	lo := 0
	for i := 0; i < n; i++ {
		k := lo + script(len(ops)-lo, "operation")
		sel = append(sel, ops[k])
		lo = k
	}
	return sel
}

func rrun(d *rdata, ops []rop, n int) {
	sel := combo(ops, n)
	fs := map[string]func(){}
	for i, o := range sel {
		i, o := i, o
		fs[fmt.Sprintf("%s#%d", o.name, i)] = func() { o.f(i) }
		d.ops += " " + o.name
	}
	vrt.Branch(true)
	par(fs)
	idle()
	vrt.Branch(false)
}

func judgeR(x *vrt.Exec) vrt.Outcome {
	var o vrt.Outcome
	fin(x, &o)
	for _, r := range x.Races {
		o.Viol = append(o.Viol, "data race: "+r)
	}
	if d, ok := x.Data.(*rdata); ok {
		o.Key = d.ops
	}
	return o
}

func rcfg(quick, thorough vrt.Config) func(bool) vrt.Config {
	quick.Races, thorough.Races = true, true
	quick.MaxTimers, thorough.MaxTimers = 40, 40
	quick.MaxSteps, thorough.MaxSteps = 8000, 8000
	return schedCfg(quick, thorough)
}

// pairsOf is 2, in thorough mode 2 or 3 (quick explores pairs only).
func width() int {
	return 2 + script(2, "width")
}

func fedWidth() int {
	if deep {
		return width()
	}
	return 2
}

func init() {
	add(&Scenario{Prop: "R01", Name: "client", Shards: 8,
		Bounds: "every pair and triple of {one-way send, answered request, cancelled request, ping, callback replacement, close, incoming message, incoming request answered from the callback, incoming ping, stray reply, end of stream, damaged stream} on a client connection; all schedules with at most 1 deviation",
		Cfg:    rcfg(bnd(1, 1), bnd(1, 1)), Body: func(x *vrt.Exec) { bodyRconn(x, false, width()) }, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "client-deep", Thorough: true, Shards: 8,
		Bounds: "the pairs of the client scenario; all schedules with at most 2 deviations",
		Cfg:    rcfg(bnd(1, 1), bnd(2, 1)), Body: func(x *vrt.Exec) { bodyRconn(x, false, 2) }, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "accepted", Shards: 8,
		Bounds: "the same on a connection accepted by a server, with closing the server and replacing its callback",
		Cfg:    rcfg(bnd(1, 1), bnd(1, 1)), Body: func(x *vrt.Exec) { bodyRconn(x, true, width()) }, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "server", Shards: 8,
		Bounds: "every pair and triple of {new connection with a message, message on an existing one, callback replacement, close, address, an existing connection ends}; all schedules with at most 1 deviation",
		Cfg:    rcfg(bnd(1, 1), bnd(1, 1)), Body: func(x *vrt.Exec) { bodyRserver(x, width()) }, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "table", Shards: 8,
		Bounds: "every pair and triple of {put and wait, put and close, put and cancelled wait, feed, duplicate feed, close} on one request table; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    rcfg(bnd(2, 1), bnd(3, 1)), Body: bodyRtable, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "proxy", Shards: 4,
		Bounds: "two proxied connections with a message in each direction, the first ending or the listener closing; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    rcfg(bnd(2, 1), bnd(3, 1)), Body: bodyRproxy, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "lease", Shards: 8,
		Bounds: "every pair and triple of {establish the same or another peer, find, ping answered or cancelled, last pong time and metadata, close the session, close the agent, address, incoming session with a ping request, answer arriving, session ended by the peer}; all schedules with at most 1 deviation",
		Cfg:    rcfg(bnd(1, 1), bnd(1, 1)), Body: func(x *vrt.Exec) { bodyRlease(x, width()) }, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "federation", Shards: 8,
		Bounds: "every pair (thorough: also triple) of {send to a known partner, to another, routed request answered or cancelled, announcements by two connections, listing partners, bootstrap, discovery, incoming probe, partner connection ends, close}; all schedules with at most 1 deviation",
		Cfg:    rcfg(bnd(1, 1), bnd(1, 1)), Body: func(x *vrt.Exec) { bodyRfed(x, fedWidth()) }, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "naming", Shards: 8,
		Bounds: "every pair and triple of {ping, application list, filter registration, incoming notification, connection close}; all schedules with at most 1 deviation",
		Cfg:    rcfg(bnd(1, 1), bnd(1, 1)), Body: func(x *vrt.Exec) { bodyRnaming(x, width()) }, Judge: judgeR})
	add(&Scenario{Prop: "R01", Name: "codecs", Shards: 4,
		Bounds: "every pair of {marshal and unmarshal of a nested value, message header encoding on a connection, naming message creation, guid creation, node id from text, MD5 and generator, header activator lookup by another connection} in two goroutines; all schedules with at most 2 (thorough 3) deviations, every memory access of these packages checked",
		Cfg:    rcfg(bnd(2, 1), bnd(3, 1)), Body: bodyRcodec, Judge: judgeR})
}

// answerer plays a peer that answers every request and ping it sees.
func answerer(name string, c *vnet.Conn, stop func() bool) {
	vrt.GoNamed(name, func() {
		vrt.Daemon()
		done := map[transport.MessageId]bool{}
		last := -1
		for {
			var todo []*rmsg
			vrt.Block("peer "+name, func() bool {
				if len(todo) > 0 {
					return true
				}
				if n := len(c.Sent()); n == last {
					return false
				} else {
					last = n
				}
				ms, _, _ := parseStream(c.Sent(), plainOpt)
				for _, m := range ms {
					if m.rel.IsEmpty() && !done[m.id] && (m.expect || m.action == "HeartbeatRequest") && !strings.HasPrefix(m.action, "mute") {
						todo = append(todo, m)
					}
				}
				return len(todo) > 0
			})
			for _, m := range todo {
				done[m.id] = true
				r := &rmsg{id: mid(600 + len(done)), rel: m.id, actor: m.actor, action: "reply", body: []byte("r")}
				if m.action == "HeartbeatRequest" {
					r.action, r.body, r.rel = "HeartbeatResponse", m.body, transport.MessageId{}
				}
				if m.actor == actNaming {
					r.action = map[string]string{"PingRequest": "PingRequest"}[m.action]
					r.body = goodBody(map[string]string{"PingRequest": "Ping", "QueryRequest": "GetApplicationList"}[m.action])
				}
				c.Feed(r.frame(plainOpt))
			}
		}
	})
}

func bodyRconn(x *vrt.Exec, server bool, n int) {
	d := &rdata{}
	var w *tw
	var srv *transport.Server
	if server {
		w, srv = newRAccepted(x)
	} else {
		w = newTW(x, transport.Config{}, false)
	}
	x.Data = d
	if w.cl == nil {
		return
	}
	w.hold = func(m *rmsg) {
		if m.expect {
			r := &transport.Message{}
			r.Headers.RelatesTo, r.Headers.Action = m.id, "answer"
			w.cl.SendOneWay(r)
		}
	}
	answerer("peer", w.a, nil)
	idle()
	ops := []rop{
		{"send", func(k int) { w.cl.SendOneWay(toMsg(&rmsg{id: mid(10 + k), actor: 9, action: "s", body: []byte("b")})) }},
		{"request", func(k int) {
			w.cl.RequestReply(context.Background(), toMsg(&rmsg{id: mid(20 + k), actor: 9, action: "q", expect: true}))
		}},
		{"cancelled", func(k int) {
			ctx, cancel := vctx.WithCancel(context.Background())
			vrt.GoNamed("cancel", cancel)
			w.cl.RequestReply(ctx, toMsg(&rmsg{id: mid(30 + k), actor: 9, action: "mute", expect: true}))
		}},
		{"ping", func(k int) {
			ctx, cancel := vctx.WithTimeout(context.Background(), time.Second)
			w.cl.Ping(ctx)
			cancel()
		}},
		{"close", func(int) { w.cl.Close() }},
		{"incoming", func(k int) { w.a.Feed((&rmsg{id: mid(40 + k), actor: 9, action: "in"}).frame(plainOpt)) }},
		{"asked", func(k int) { w.a.Feed((&rmsg{id: mid(50 + k), actor: 9, action: "ask", expect: true}).frame(plainOpt)) }},
		{"pinged", func(k int) {
			w.a.Feed((&rmsg{id: mid(60 + k), actor: actTransport, action: "HeartbeatRequest", body: refMarshal(&struct{ T int64 }{5})}).frame(plainOpt))
		}},
		{"stray", func(k int) { w.a.Feed((&rmsg{id: mid(70 + k), rel: mid(777), actor: 9, action: "r"}).frame(plainOpt)) }},
		{"eof", func(int) { w.a.FeedEOF() }},
		{"damaged", func(int) { w.a.Feed([]byte("this is no frame of anything at all........................")) }},
	}
	cb := func(transport.Conn, *transport.ByteArrayMessage) {}
	if c, ok := w.cl.(*transport.Client); ok {
		ops = append(ops, rop{"callback", func(int) { c.SetMessageCallback(cb) }})
	}
	if srv != nil {
		ops = append(ops, rop{"callback", func(int) { srv.SetMessageCallback(cb) }}, rop{"close server", func(int) { srv.Close() }})
	}
	rrun(d, ops, n)
	if srv != nil {
		srv.Close()
	}
	w.a.FeedEOF()
	idle()
}

func newRAccepted(x *vrt.Exec) (*tw, *transport.Server) {
	w := &tw{x: x, viaSrv: true}
	var pub vrt.VC // handing the connection over is synchronised
	w.a, _ = vnet.Pipe("conn", "peer")
	l := vnet.NewListener("srv")
	s, err := transport.Listen(l, transport.ServerConfig{MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
		r := fromHeaders(&m.Headers, m.Body, hdrTypes)
		if w.cl == nil {
			w.cl = c
			vrt.Release(&pub)
			return
		}
		if w.hold != nil {
			w.hold(r)
		}
	}})
	if err != nil {
		vrt.Fail("listening: %v", err)
		return w, nil
	}
	l.Queue(w.a)
	vrt.GoNamed("serve", func() { s.Serve() })
	w.a.Feed((&rmsg{id: mid(999), actor: 9, action: "hello"}).frame(plainOpt))
	vrt.Block("first message", func() bool { return w.cl != nil })
	vrt.Acquire(&pub)
	return w, s
}

func bodyRserver(x *vrt.Exec, n int) {
	d := &rdata{}
	w := newSrv(x, 4, transport.Config{})
	x.Data = d
	if w.s == nil {
		return
	}
	w.l.Queue(w.conns[0].conn)
	w.l.Queue(w.conns[1].conn)
	w.conns[0].conn.Feed((&rmsg{id: mid(1), actor: 9, action: "a"}).frame(plainOpt))
	idle()
	rrun(d, []rop{
		{"connect", func(k int) {
			w.conns[2].conn.Feed((&rmsg{id: mid(10 + k), actor: 9, action: "new"}).frame(plainOpt))
			if k < 2 {
				w.l.Queue(w.conns[2+k].conn)
			}
		}},
		{"message", func(k int) { w.conns[0].conn.Feed((&rmsg{id: mid(20 + k), actor: 9, action: "m"}).frame(plainOpt)) }},
		{"two messages", func(k int) {
			for i := 0; i < 2; i++ {
				w.conns[i].conn.Feed((&rmsg{id: mid(30 + 2*k + i), actor: 9, action: "m"}).frame(plainOpt))
			}
		}},
		{"callback", func(k int) { w.s.SetMessageCallback(func(transport.Conn, *transport.ByteArrayMessage) {}) }},
		{"close", func(int) { w.s.Close() }},
		{"address", func(int) { w.s.Addr() }},
		{"end", func(k int) { w.conns[k%2].conn.FeedEOF() }},
	}, n)
	w.s.Close()
	for _, c := range w.conns {
		c.conn.FeedEOF()
	}
	idle()
}

func bodyRtable(x *vrt.Exec) {
	d := &rdata{}
	x.Data = d
	n := 2 + script(2, "width")
	t := &transport.RequestTable{}
	put := func(i int) *transport.PendingRequest {
		return t.Put(toMsg(&rmsg{id: mid(i), actor: 9, action: "q"}))
	}
	feed := func(i int) {
		m := &transport.ByteArrayMessage{Body: []byte{1}}
		m.Headers.RelatesTo = mid(i)
		t.Feed(m)
	}
	p0 := put(5)
	vrt.GoNamed("waiting", func() {
		ctx, cancel := vctx.WithTimeout(context.Background(), time.Second)
		p0.Wait(ctx)
		cancel()
	})
	rrun(d, []rop{
		{"wait", func(k int) {
			p := put(10 + k)
			ctx, cancel := vctx.WithTimeout(context.Background(), time.Second)
			p.Wait(ctx)
			cancel()
			p.Close()
		}},
		{"cancel", func(k int) {
			p := put(20 + k)
			ctx, cancel := vctx.WithCancel(context.Background())
			vrt.GoNamed("cancel", cancel)
			p.Wait(ctx)
		}},
		{"put and close", func(k int) { put(30 + k).Close() }},
		{"close pending", func(int) { p0.Close() }},
		{"feed", func(k int) { feed(5); feed(10); feed(11) }},
		{"feed others", func(k int) { feed(20); feed(30); feed(11) }},
		{"close", func(int) { t.Close() }},
	}, n)
	t.Close()
	idle()
}

func bodyRproxy(x *vrt.Exec) {
	d := &rdata{}
	what := script(4, "event")
	filter := script(2, "filter")
	w := newPW(x, 2, filter, transport.Config{}, transport.Config{})
	x.Data = d
	for _, p := range w.pairs {
		w.l.Queue(p.pc)
	}
	d.ops = fmt.Sprint(what)
	vrt.Branch(true)
	par(map[string]func(){
		"client0": func() { p := w.pairs[0]; p.pc.Feed((&rmsg{id: mid(1), actor: 9, action: "a"}).frame(plainOpt)) },
		"client1": func() {
			p := w.pairs[1]
			p.pc.Feed((&rmsg{id: mid(2), actor: 9, action: "b"}).frame(plainOpt))
			p.pu.Feed((&rmsg{id: mid(3), actor: 9, action: "c"}).frame(plainOpt))
		},
		"event": func() {
			switch what {
			case 0:
				w.pairs[0].pc.FeedEOF()
			case 1:
				w.pairs[0].pu.FeedEOF()
			case 2:
				w.l.Close()
			case 3:
				w.pairs[0].pu.ResetIn()
			}
		},
	})
	idle()
	vrt.Branch(false)
	w.l.Close()
	for _, p := range w.pairs {
		p.pc.FeedEOF()
		p.pu.FeedEOF()
	}
	idle()
}

func bodyRlease(x *vrt.Exec, n int) {
	d := &rdata{}
	w := newLW(x, "agent:1", ldefault())
	x.Data = d
	if w.ag == nil {
		return
	}
	s, err := w.ag.Establish("peer:1")
	if err != nil {
		vrt.Fail("establishing: %v", err)
		return
	}
	first := w.out[0].c
	in := w.incoming()
	idle()
	answer := func(c *vnet.Conn, name string) {
		vrt.GoNamed(name, func() {
			vrt.Daemon()
			for seen := 0; ; seen++ {
				last := -1
				vrt.Block("ping sent", func() bool {
					if last == len(c.Sent()) {
						return false
					}
					last = len(c.Sent())
					ms, _, _ := parseLease(c.Sent())
					if len(ms) > seen {
						last = -1
						return true
					}
					return false
				})
				in.Feed(pong("peer", 1, 44).frame())
			}
		})
	}
	answer(first, "answers")
	ping := func(s lease.Session) {
		ctx, cancel := vctx.WithTimeout(context.Background(), time.Second)
		s.Ping(ctx)
		cancel()
	}
	rrun(d, []rop{
		{"establish", func(int) {
			if s, err := w.ag.Establish("peer:1"); err == nil {
				s.Meta()
				s.LastPongTime()
			}
		}},
		{"other", func(k int) {
			if s, err := w.ag.Establish("peer:2"); err == nil {
				ping(s)
			}
		}},
		{"find", func(int) {
			if s, ok := w.ag.Find("peer:1"); ok {
				s.Meta()
			}
		}},
		{"ping", func(int) { ping(s) }},
		{"cancelled ping", func(int) {
			ctx, cancel := vctx.WithCancel(context.Background())
			vrt.GoNamed("cancel", cancel)
			s.Ping(ctx)
		}},
		{"state", func(int) { s.LastPongTime(); s.Meta() }},
		{"close session", func(int) { s.Close() }},
		{"close", func(int) { w.ag.Close() }},
		{"address", func(int) { w.ag.Addr() }},
		{"incoming", func(k int) {
			c := w.incoming()
			c.Feed((&lmsg{typ: ltPingReq, host: "peer", port: 1, fam: 2, remote: 3, ident: 8}).frame())
		}},
		{"asked", func(k int) {
			in.Feed((&lmsg{typ: ltPingReq, host: "peer", port: 1, fam: 2, remote: 3, ident: 8}).frame())
		}},
		{"answered", func(int) { in.Feed(pong("peer", 1, 45).frame()) }},
		{"answered elsewhere", func(int) { w.incoming().Feed(pong("peer", 1, 46).frame()) }},
		{"ended", func(int) { first.FeedEOF() }},
	}, n)
	w.finish()
	s.Close()
	for _, c := range w.out {
		c.c.FeedEOF()
	}
	idle()
}

func bodyRfed(x *vrt.Exec, n int) {
	d := &rdata{}
	w := newFW(x, selfInst, seedAt(idA, "a:1"), seedAt(idB, "b:1"))
	x.Data = d
	if w.n == nil {
		return
	}
	w.quiet = true
	w.pre = func(y *fdial) { answerer(fmt.Sprint("peer", len(w.dials)), y.c, nil) }
	in, in2 := w.incoming(), w.incoming()
	in.Feed(announce(1, partner(idC, 3, phJoining)).frame(plainOpt))
	idle()
	send := func(id federation.NodeID, k int) {
		w.n.SendOneWay(id, toMsg(&rmsg{id: mid(100 + k), actor: 9, action: "s"}))
	}
	timed := func(d time.Duration, f func(ctx context.Context)) {
		ctx, cancel := vctx.WithTimeout(context.Background(), d)
		f(ctx)
		cancel()
	}
	all := func(federation.PartnerNodeInfo) bool { return true }
	rrun(d, []rop{
		{"send", func(k int) { send(idA, k) }},
		{"send known", func(k int) { send(idC, k) }},
		{"route", func(k int) {
			timed(time.Second, func(ctx context.Context) {
				w.n.Route(ctx, idA, toMsg(&rmsg{id: mid(120 + k), actor: 9, action: "q", expect: true}))
			})
		}},
		{"cancelled route", func(k int) {
			ctx, cancel := vctx.WithCancel(context.Background())
			vrt.GoNamed("cancel", cancel)
			w.n.Route(ctx, idB, toMsg(&rmsg{id: mid(130 + k), actor: 9, action: "mute", expect: true}))
		}},
		{"announced", func(k int) {
			in.Feed(announce(140+k, partner(idC, uint64(4+k), phInserting), partner(idA, 9, phRouting)).frame(plainOpt))
		}},
		{"announced too", func(k int) {
			in2.Feed(announce(150+k, partner(idC, 5, phRouting), partner(nid(5, uint64(k)), 1, phJoining)).frame(plainOpt))
		}},
		{"partners", func(int) { w.n.KnownPartnerNodes(all) }},
		{"bootstrap", func(int) { timed(time.Second, func(ctx context.Context) { w.n.Bootstrap(ctx) }) }},
		{"discover", func(int) { timed(500*time.Millisecond, func(ctx context.Context) { w.n.Discover(ctx) }) }},
		{"join", func(int) { timed(time.Second, func(ctx context.Context) { w.n.Join(ctx) }) }},
		{"probed", func(k int) {
			m := announce(160+k, partner(idB, 2, phJoining))
			m.action, m.expect = "VotePingRequest", true
			in.Feed(m.frame(plainOpt))
		}},
		{"partner ends", func(int) {
			for _, y := range w.dials {
				if y.c != nil {
					y.c.FeedEOF()
				}
			}
		}},
		{"close", func(int) { w.n.Close() }},
	}, n)
	w.finish()
	for _, y := range w.dials {
		if y.c != nil {
			y.c.FeedEOF()
		}
	}
	vtime.Sleep(3 * time.Second)
	idle()
}

func bodyRnaming(x *vrt.Exec, n int) {
	d := &rdata{}
	w := newNW(x, true)
	x.Data = d
	if w.n == nil {
		return
	}
	answerer("gateway", w.c, nil)
	idle()
	ns := notifications()
	timed := func(f func(ctx context.Context)) {
		ctx, cancel := vctx.WithTimeout(context.Background(), time.Second)
		f(ctx)
		cancel()
	}
	rrun(d, []rop{
		{"ping", func(int) { timed(func(ctx context.Context) { w.n.Ping(ctx) }) }},
		{"list", func(int) { timed(func(ctx context.Context) { w.n.GetApplicationList(ctx, "x") }) }},
		{"register", func(int) {
			timed(func(ctx context.Context) { w.n.RegisterFilter(ctx, common.Uri{Path: "/a"}, true, true) })
		}},
		{"notified", func(k int) {
			w.c.Feed((&rmsg{id: mid(20 + k), actor: actNaming, action: notifAction, expect: true, body: refMarshal(&wNotifBody{&ns[k%2]})}).frame(plainOpt))
		}},
		{"close", func(int) { w.cl.Close() }},
		{"ended", func(int) { w.c.FeedEOF() }},
	}, n)
	w.c.FeedEOF()
	idle()
}

type rvalue struct {
	A int32
	B *rvalue
	C map[string]string
	D []string
	E []rvalue
	G serialization.GUID
	N federation.NodeID
	U common.Uri
	T time.Duration
}

func bodyRcodec(x *vrt.Exec) {
	d := &rdata{}
	x.Data = d
	a, _ := vnet.Pipe("a", "b")
	c, _ := vnet.Pipe("c", "d")
	c1, err := transport.Connect(a, transport.ClientConfig{})
	c2, err2 := transport.Connect(c, transport.ClientConfig{})
	if err != nil || err2 != nil {
		vrt.Fail("connecting: %v %v", err, err2)
		return
	}
	vrt.GoNamed("wait1", func() { c1.Wait() })
	vrt.GoNamed("wait2", func() { c2.Wait() })
	idle()
	cs := []*transport.Client{c1, c2}
	full := func(k int) *rmsg {
		m := announce(20+k, partner(idA, 3, phJoining))
		m.rel, m.high, m.retry, m.errc = mid(5), true, 2, 7
		return m
	}
	rrun(d, []rop{
		{"marshal", func(int) {
			v := &rvalue{A: 1, B: &rvalue{A: 2}, C: map[string]string{"a": "b"}, D: []string{"x", ""}, E: []rvalue{{A: 3}}, T: time.Second}
			b, err := serialization.Marshal(v)
			if err != nil {
				vrt.Fail("marshal: %v", err)
			}
			var o rvalue
			if err := serialization.Unmarshal(b, &o); err != nil {
				vrt.Fail("unmarshal: %v", err)
			}
		}},
		{"send", func(k int) { cs[k%2].SendOneWay(toMsg(full(k))) }},
		{"receive", func(k int) { []*vnet.Conn{a, c}[k%2].Feed(full(k).frame(plainOpt)) }},
		{"naming message", func(int) { naming.NewNamingMessage("x") }},
		{"guid", func(int) { serialization.NewGuidV4() }},
		{"ids", func(int) {
			federation.NodeIDFromMD5("abc")
			federation.NodeIDFromV4Generator("Node.3")
			federation.NodeIDFromHex("0123456789abcdef0123456789abcdef")
		}},
		{"message ids", func(int) {
			g, err := transport.NewMessageIdGenerator()
			if err == nil {
				g.Next()
			}
		}},
		{"ring", func(int) {
			r := federation.NodeIdRange{Begin: idA, End: idB}
			r.Contains(idC)
			_ = idC.String()
		}},
	}, 2)
	a.FeedEOF()
	c.FeedEOF()
	idle()
}
