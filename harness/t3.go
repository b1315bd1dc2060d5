package main

// The proxy (T10) and the server (T12).

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"strings"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
)

// pair is one proxied pairing: the harness plays client and upstream.
type pair struct {
	name    string
	c, pc   *vnet.Conn // client end, proxy's end
	pu, u   *vnet.Conn // proxy's end towards upstream, upstream end
	initHdr string     // opening headers given to FindUpstream
	upErr   error
	cSent   []*rmsg
	uSent   []*rmsg
	filter  []string
}

type pw struct {
	x      *vrt.Exec
	l      *vnet.Listener
	pairs  []*pair
	serr   error
	sdone  bool
	filter int
}

var openTypes = []uint16{0x8036, 0x8037}

func opening(n int) *rmsg {
	return &rmsg{id: mid(700 + n), actor: actTransport, high: true, custom: []rhdr{{0x8036, []byte{1, 2, byte(n)}}}, body: []byte("opening body")}
}

// applyFilter is the reference of what the filter of the scenario does to a message.
func applyFilter(kind int, m *rmsg) *rmsg {
	if kind == 0 {
		return m
	}
	switch {
	case strings.HasPrefix(m.action, "drop"):
		return nil
	case strings.HasPrefix(m.action, "repl"):
		return &rmsg{id: mid(4000 + int(m.id.Index)), rel: m.id, actor: 44, action: "replaced " + m.action, retry: 2, custom: []rhdr{{0x8037, []byte("new")}}, body: append([]byte("new "), m.body...)}
	}
	switch strings.SplitN(m.action, " ", 2)[0] {
	case "bare":
		return &rmsg{id: mid(4000 + int(m.id.Index)), actor: 45, action: "without body", idemp: true}
	case "nothing":
		return &rmsg{}
	case "typed":
		return &rmsg{id: m.id, actor: 46, body: refMarshal(&wStr{m.action})}
	case "edit":
		n := *m
		n.action, n.retry, n.expect = "edited", 9, !m.expect
		n.custom = append(append([]rhdr(nil), m.custom...), rhdr{0x8036, []byte{0xfe}})
		return &n
	case "trim":
		n := *m
		n.body = m.body[:len(m.body)/2]
		return &n
	case "scrap":
		return nil
	}
	return m
}

// filterKinds are the things a filter may do (kind 2 of newPW acts on all of them).
var filterKinds = []string{"keep", "drop", "repl", "bare", "nothing", "typed", "edit", "trim", "scrap"}

func newPW(x *vrt.Exec, n int, filter int, cfg transport.Config, ucfg transport.Config) *pw {
	w := &pw{x: x, l: vnet.NewListener("proxy"), filter: filter}
	x.Data = w
	for i := 0; i < n; i++ {
		p := &pair{name: fmt.Sprint(i)}
		p.c, p.pc = vnet.Pipe(fmt.Sprintf("client%d", i), fmt.Sprintf("proxy-c%d", i))
		p.pu, p.u = vnet.Pipe(fmt.Sprintf("proxy-u%d", i), fmt.Sprintf("upstream%d", i))
		w.pairs = append(w.pairs, p)
	}
	pc := transport.PiperConfig{Config: cfg, FindUpstream: func(h *transport.MessageHeaders, conn net.Conn) (net.Conn, transport.Config, error) {
		for _, p := range w.pairs {
			if p.pc.LocalAddr().String() == conn.LocalAddr().String() {
				p.initHdr = fromHeaders(h, nil, openTypes).key()
				if p.upErr != nil {
					return nil, ucfg, p.upErr
				}
				return p.pu, ucfg, nil
			}
		}
		vrt.Fail("FindUpstream was called with a foreign connection")
		return nil, ucfg, errors.New("unknown")
	}}
	if filter > 0 {
		pc.Filter = func(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
			r := fromHeaders(&m.Headers, m.Body, openTypes)
			ok := false
			for _, p := range w.pairs {
				if src == net.Conn(p.pc) && dst == net.Conn(p.pu) {
					p.filter = append(p.filter, "up "+r.key())
					ok = true
				}
				if src == net.Conn(p.pu) && dst == net.Conn(p.pc) {
					p.filter = append(p.filter, "down "+r.key())
					ok = true
				}
			}
			if !ok {
				vrt.Fail("the filter got connections that are not the two sides")
			}
			f := applyFilter(filter, r)
			switch {
			case f == nil:
				if r.action == "scrap" {
					m.Headers.Action, m.Headers.Actor = "scrapped", 1
					m.Headers.AppendCustomHeader(0x8036, []byte{0xee})
					for i := range m.Body {
						m.Body[i] = 0xee
					}
				}
				return nil
			case f == r:
				return &transport.Message{Headers: m.Headers, Body: m.Body}
			case r.action == "typed":
				t := toMsg(&rmsg{id: f.id, actor: f.actor})
				t.Body = &struct{ V string }{r.action}
				return t
			case r.action == "edit":
				m.Headers.Action, m.Headers.RetryCount, m.Headers.ExpectsReply = "edited", 9, !m.Headers.ExpectsReply
				m.Headers.AppendCustomHeader(0x8036, []byte{0xfe})
				return &transport.Message{Headers: m.Headers, Body: m.Body}
			case r.action == "trim":
				return &transport.Message{Headers: m.Headers, Body: m.Body[:len(m.Body)/2]}
			}
			return toMsg(f)
		}
	}
	pip, err := transport.NewPiper(w.l, pc)
	if err != nil {
		vrt.Fail("proxy: %v", err)
		return w
	}
	vrt.GoNamed("serve", func() {
		w.serr = pip.Serve()
		w.sdone = true
	})
	return w
}

func optFor(c transport.Config) frameOpt {
	return frameOpt{hcrc: !c.DisableGenerateFrameHeaderCRC, bcrc: c.GenerateFrameBodyCRC}
}

// stream checks one direction: the proxy's own opening message, then exactly want.
func stream(what string, b []byte, o frameOpt, want []*rmsg, kind int, exact bool) error {
	ms, rest, err := parseStream(b, o)
	if err != nil || len(rest) > 0 && exact {
		return fmt.Errorf("%s: no sequence of whole frames: %v, rest %x", what, err, clip(rest))
	}
	if len(ms) > 0 {
		if ms[0].actor != actTransport || ms[0].action != "" {
			return fmt.Errorf("%s: does not begin with the proxy's own opening message but %s", what, ms[0].key())
		}
		ms = ms[1:]
	}
	var w []string
	for i, m := range want {
		if what == "upstream" && i == 0 {
			w = append(w, m.key()) // the opening message is not filtered
			continue
		}
		if f := applyFilter(kind, m); f != nil {
			w = append(w, f.key())
		}
	}
	g := keys(ms)
	if !exact {
		if len(g) > len(w) {
			return fmt.Errorf("%s received\n %s\nonly sent\n %s", what, strings.Join(g, "\n "), strings.Join(w, "\n "))
		}
		w = w[:len(g)]
	}
	if !sameList(g, w) {
		return fmt.Errorf("%s received\n %s\nwant\n %s", what, strings.Join(g, "\n "), strings.Join(w, "\n "))
	}
	return nil
}

func pmsg(n int, action string) *rmsg {
	m := &rmsg{id: mid(n), actor: 30 + int64(n), action: action, body: []byte(strings.Repeat("b", n%4*9))}
	switch n % 4 {
	case 1:
		m.rel, m.expect, m.idemp = mid(n+50), true, true
	case 2:
		m.errc, m.fault, m.retry = -5, true, 3
		m.custom = []rhdr{{0x8036, []byte{7}}, {0x8036, []byte{8, 9}}, {0x8037, nil}}
	case 3:
		m.actor, m.action, m.high = actTransport, "HeartbeatRequest", true
	}
	return m
}

func init() {
	add(&Scenario{Prop: "T10", Name: "sequences", Shards: 8,
		Bounds: "every sequence of up to 4 (thorough 5) messages, each from client or upstream and kept, dropped or replaced by the filter, with 4 checksum settings on either side, whole and one-byte reads, ended by either side in 3 ways",
		Enum:   enumT10})
	add(&Scenario{Prop: "T10", Name: "openings", Shards: 8,
		Bounds: "11 kinds of opening message (without body, without identity, a heartbeat, a request, a fault, one the filter would drop, long headers, 150000 bytes of body, ...) x 4 checksum settings on either side x 3 read sizes x with and without filter, two more messages each way",
		Enum:   enumT10o})
	add(&Scenario{Prop: "T10", Name: "filters", Shards: 4,
		Bounds: "every sequence of up to 2 (thorough 3) messages over 9 things a filter may do (return the same, drop, replace, replace by a message without body, by an empty message, by one with a typed body, edit the headers in place, cut the body, scribble over the message and drop it) x 4 message shapes, in either direction, plus a plain message after, x 4 checksum settings on the client's side",
		Enum:   enumT10f})
	add(&Scenario{Prop: "T10", Name: "faults", Shards: 4,
		Bounds: "a fixed exchange in which every single read or write of the proxy on either side fails (writes with or without half of the bytes), the peer ends the stream at every byte, or no upstream is found",
		Enum:   enumT10b})
	add(&Scenario{Prop: "T10", Name: "two-pairings", Shards: 8,
		Bounds: "two pairings at once, messages in both directions on both, one pairing ended in 5 ways at any moment while the other goes on, a temporary accept failure in between; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body:   bodyT10,
		Judge: func(x *vrt.Exec) vrt.Outcome {
			var o vrt.Outcome
			fin(x, &o)
			w, ok := x.Data.(*pw)
			if !ok || len(o.Viol) > 0 || len(x.Panics) > 0 {
				return o
			}
			for i, p := range w.pairs {
				if e := stream("upstream", p.pu.Sent(), plainOpt, p.cSent, w.filter, i == 1); e != nil {
					o.Viol = append(o.Viol, fmt.Sprintf("pairing %d: %v", i, e))
				}
				if e := stream("client", p.pc.Sent(), plainOpt, p.uSent, w.filter, i == 1); e != nil {
					o.Viol = append(o.Viol, fmt.Sprintf("pairing %d: %v", i, e))
				}
				if i == 0 && (!p.pu.Closed() || !p.pc.Closed()) {
					o.Viol = append(o.Viol, fmt.Sprintf("one side ended: client side closed %v, upstream side closed %v", p.pc.Closed(), p.pu.Closed()))
				}
				o.Key += fmt.Sprint(len(p.pu.Sent()), "/", len(p.pc.Sent()), " ")
			}
			if !w.sdone || w.serr == nil {
				o.Viol = append(o.Viol, fmt.Sprintf("serving ended %v with %v after the listener was closed", w.sdone, w.serr))
			}
			return o
		}})
}

func bodyT10(x *vrt.Exec) {
	vrt.Branch(true)
	how := vrt.Choose(5, 0, "how the first pairing ends")
	vrt.Branch(false)
	w := newPW(x, 2, 1, transport.Config{}, transport.Config{})
	for i, p := range w.pairs {
		if i == 1 {
			w.l.QueueTemporary()
		}
		w.l.Queue(p.pc)
		o := opening(i)
		p.cSent = append(p.cSent, o)
		p.pc.Feed(o.frame(plainOpt))
	}
	vrt.Block("openings", func() bool { return len(w.pairs[0].pu.Sent()) > 0 && len(w.pairs[1].pu.Sent()) > 0 })
	vrt.Branch(true)
	down := func(p *pair, n int, a string) {
		m := pmsg(n, a)
		p.uSent = append(p.uSent, m)
		vrt.Point("upstream sends")
		p.pu.Feed(m.frame(plainOpt))
	}
	up := func(p *pair, n int, a string) {
		m := pmsg(n, a)
		p.cSent = append(p.cSent, m)
		vrt.Point("client sends")
		p.pc.Feed(m.frame(plainOpt))
	}
	par(map[string]func(){
		"c0": func() { up(w.pairs[0], 8, "x"); up(w.pairs[0], 9, "repl") },
		"u0": func() { down(w.pairs[0], 10, "x") },
		"c1": func() { up(w.pairs[1], 12, "x"); up(w.pairs[1], 13, "x") },
		"u1": func() { down(w.pairs[1], 16, "repl"); down(w.pairs[1], 17, "x") },
		"end": func() {
			p := w.pairs[0]
			vrt.Point("end")
			switch how {
			case 0:
				p.pc.FeedEOF()
			case 1:
				p.pu.FeedEOF()
			case 2:
				p.pc.ResetIn()
			case 3:
				p.pu.Feed([]byte("garbage garbage garbage"))
			case 4:
				p.pc.Feed(rawFrame(4, []byte{1, 2, 3, 4, 5}, plainOpt))
			}
		},
	})
	idle()
	vrt.Branch(false)
	for _, c := range []*vnet.Conn{w.pairs[1].pc, w.pairs[1].pu} {
		if c.Closed() {
			vrt.Fail("a pairing that is alive was closed")
		}
	}
	w.l.Close()
	w.pairs[1].pc.FeedEOF()
	idle()
	if !w.pairs[1].pu.Closed() || !w.pairs[1].pc.Closed() {
		vrt.Fail("the second pairing was not closed when its client ended")
	}
}

type t10case struct {
	ops    []int // 0..2 client keep/drop/replace, 3..5 upstream
	cfg    int
	ucfg   int
	chunk  int
	ending int
	filter int
}

func cfgBits(k int) transport.Config {
	return transport.Config{DisableCheckFrameHeaderCRC: k&1 != 0, DisableGenerateFrameHeaderCRC: k&1 != 0, CheckFrameBodyCRC: k&2 != 0, GenerateFrameBodyCRC: k&2 != 0}
}

func enumT10(c *Ctx) {
	max := 4
	if c.Thorough {
		max = 5
	}
	acts := []string{"keep", "drop", "repl"}
	run := func(k t10case) bool {
		return c.Case(func() string { return fmt.Sprintf("%+v", k) }, func() error {
			c.Step(len(k.ops) + 1)
			cfg, ucfg := cfgBits(k.cfg), cfgBits(k.ucfg)
			var w *pw
			return seqCfg(vrt.Config{MaxSteps: 200000, MaxTimers: 50}, func(x *vrt.Exec) error {
				w = newPW(x, 1, k.filter, cfg, ucfg)
				p := w.pairs[0]
				if k.chunk > 0 {
					f := func(avail, want int) int { return k.chunk }
					p.pc.Chunk, p.pu.Chunk = f, f
				}
				w.l.Queue(p.pc)
				o := opening(1)
				p.cSent = append(p.cSent, o)
				p.pc.Feed(o.frame(optFor(cfg)))
				for i, op := range k.ops {
					m := pmsg(8+i+4*(op%3), acts[op%3])
					if op < 3 {
						p.cSent = append(p.cSent, m)
						p.pc.Feed(m.frame(optFor(cfg)))
					} else {
						p.uSent = append(p.uSent, m)
						p.pu.Feed(m.frame(optFor(ucfg)))
					}
					if i%2 == 0 {
						idle()
					}
				}
				idle()
				if p.pc.Closed() || p.pu.Closed() {
					return fmt.Errorf("the proxy closed a healthy pairing")
				}
				switch k.ending {
				case 0:
					p.pc.FeedEOF()
				case 1:
					p.pu.FeedEOF()
				case 2:
					p.pu.Feed([]byte{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
				}
				w.l.Close()
				return nil
			}, func(x *vrt.Exec) error {
				p := w.pairs[0]
				if b := x.Blocked(false); len(b) > 0 {
					return fmt.Errorf("blocked for ever: %v", b)
				}
				if want := fromHeaders(&toMsg(p.cSent[0]).Headers, nil, openTypes).key(); p.initHdr != want {
					return fmt.Errorf("FindUpstream got headers %s want %s", p.initHdr, want)
				}
				if err := stream("upstream", p.pu.Sent(), optFor(ucfg), p.cSent, k.filter, true); err != nil {
					return err
				}
				if err := stream("client", p.pc.Sent(), optFor(cfg), p.uSent, k.filter, true); err != nil {
					return err
				}
				if !p.pc.Closed() || !p.pu.Closed() {
					return fmt.Errorf("after one side ended: client side closed %v, upstream side closed %v", p.pc.Closed(), p.pu.Closed())
				}
				if k.filter > 0 && len(p.filter) != len(k.ops) {
					return fmt.Errorf("the filter was called %d times for %d messages", len(p.filter), len(k.ops))
				}
				c.Obs(p.pc.Sent(), p.pu.Sent())
				return nil
			})
		})
	}
	for n := 0; n <= max; n++ {
		ops := make([]int, n)
		for {
			l := append([]int(nil), ops...)
			k := t10case{ops: l, filter: 1, ending: n % 3}
			if !run(k) {
				return
			}
			if n <= 2 {
				for cf := 0; cf < 4; cf++ {
					for uc := 0; uc < 4; uc++ {
						for ch := 0; ch < 2; ch++ {
							for e := 0; e < 3; e++ {
								for f := 0; f < 2; f++ {
									if !run(t10case{ops: l, cfg: cf, ucfg: uc, chunk: ch, ending: e, filter: f}) {
										return
									}
								}
							}
						}
					}
				}
			}
			if !inc(ops, 6) {
				break
			}
		}
	}
}

// enumT10o: whatever the opening message looks like, a plain proxy passes it on and relays what follows.
func enumT10o(c *Ctx) {
	openings := []*rmsg{
		{id: mid(1)},
		{id: mid(1), actor: actTransport, high: true},
		{id: mid(1), actor: 8, action: "first request", expect: true, body: []byte("x")},
		{id: mid(1), actor: actTransport, action: "HeartbeatRequest", high: true, body: tick(5)},
		{id: mid(1), actor: actTransport, action: "HeartbeatResponse", high: true, body: tick(5)},
		{id: mid(1), rel: mid(9), actor: 8, errc: -2147017661, fault: true, retry: 4, idemp: true, body: []byte{0}},
		{actor: 3, action: "no identity"},
		{id: mid(1), actor: 3, action: "drop"},
		{id: mid(1), actor: 3, action: "repl"},
		{id: mid(1), actor: 3, custom: []rhdr{{0x8036, nil}, {0x8036, []byte{1}}, {0x8037, bytes.Repeat([]byte{7}, 5000)}}},
		{id: mid(1), actor: 3, action: strings.Repeat("a", 3000), body: bytes.Repeat([]byte{1, 2, 3}, 50000)},
	}
	for i := range openings {
		for cf := 0; cf < 4; cf++ {
			for uc := 0; uc < 4; uc++ {
				for ch := 0; ch < 3; ch++ {
					for f := 0; f < 2; f++ {
						o, cf, uc, ch, f := openings[i], cf, uc, ch, f
						if len(o.body) > 1000 && ch == 1 && !c.Thorough {
							continue
						}
						if !c.Case(func() string { return fmt.Sprintf("opening %d settings %d %d chunk %d filter %d", i, cf, uc, ch, f) }, func() error {
							c.Step(3)
							cfg, ucfg := cfgBits(cf), cfgBits(uc)
							var w *pw
							return seqCfg(vrt.Config{MaxSteps: 2000000, MaxTimers: 50}, func(x *vrt.Exec) error {
								w = newPW(x, 1, f, cfg, ucfg)
								p := w.pairs[0]
								if ch > 0 {
									fn := func(avail, want int) int { return []int{0, 1, 37}[ch] }
									p.pc.Chunk, p.pu.Chunk = fn, fn
									p.pc.NoPoint, p.pu.NoPoint = true, true
								}
								w.l.Queue(p.pc)
								p.cSent = append(p.cSent, o)
								p.pc.Feed(o.frame(optFor(cfg)))
								idle()
								for _, m := range []*rmsg{pmsg(8, "keep"), {id: mid(50)}} {
									p.cSent = append(p.cSent, m)
									p.pc.Feed(m.frame(optFor(cfg)))
									p.uSent = append(p.uSent, m)
									p.pu.Feed(m.frame(optFor(ucfg)))
								}
								idle()
								if p.pc.Closed() || p.pu.Closed() {
									return fmt.Errorf("the proxy closed a healthy pairing")
								}
								p.pc.FeedEOF()
								w.l.Close()
								return nil
							}, func(x *vrt.Exec) error {
								p := w.pairs[0]
								if b := x.Blocked(false); len(b) > 0 {
									return fmt.Errorf("blocked for ever: %v", b)
								}
								if want := fromHeaders(&toMsg(o).Headers, nil, openTypes).key(); p.initHdr != want {
									return fmt.Errorf("FindUpstream got headers %s want %s", p.initHdr, want)
								}
								if err := stream("upstream", p.pu.Sent(), optFor(ucfg), p.cSent, f, true); err != nil {
									return err
								}
								if err := stream("client", p.pc.Sent(), optFor(cfg), p.uSent, f, true); err != nil {
									return err
								}
								c.Obs(p.pc.Sent(), p.pu.Sent())
								return nil
							})
						}) {
							return
						}
					}
				}
			}
		}
	}
}

func enumT10b(c *Ctx) {
	// which: 0 read client, 1 write client, 2 read upstream, 3 write upstream, 4 no upstream, 5/6 stream cut client/upstream
	limits := []int{40, 12, 40, 12, 1, 260, 260}
	for which, lim := range limits {
		for n := 1; n <= lim; n++ {
			for part := 0; part < 2; part++ {
				which, n, part := which, n, part
				if part == 1 && which != 1 && which != 3 {
					continue
				}
				if !c.Case(func() string { return fmt.Sprintf("fault %d at %d partial %d", which, n, part) }, func() error {
					var w *pw
					c.Step(4)
					return seqCfg(vrt.Config{MaxSteps: 200000, MaxTimers: 50}, func(x *vrt.Exec) error {
						w = newPW(x, 2, 1, transport.Config{}, transport.Config{})
						p, q := w.pairs[0], w.pairs[1]
						switch which {
						case 0:
							p.pc.FailRead = n
						case 1:
							p.pc.FailWrite, p.pc.PartialOnFail = n, part == 1
						case 2:
							p.pu.FailRead = n
						case 3:
							p.pu.FailWrite, p.pu.PartialOnFail = n, part == 1
						case 4:
							p.upErr = errors.New("nowhere")
						}
						feed := func(conn *vnet.Conn, ms []*rmsg, cut int) {
							var b []byte
							for _, m := range ms {
								b = append(b, m.frame(plainOpt)...)
							}
							if cut >= 0 && cut < len(b) {
								b = b[:cut]
							}
							conn.Feed(b)
							if cut >= 0 {
								conn.FeedEOF()
							}
						}
						for i, r := range w.pairs {
							w.l.Queue(r.pc)
							r.cSent = []*rmsg{opening(i), pmsg(9, "keep"), pmsg(10, "repl")}
							r.uSent = []*rmsg{pmsg(12, "keep"), pmsg(14, "keep")}
						}
						cutC, cutU := -1, -1
						if which == 5 {
							cutC = n
						}
						if which == 6 {
							cutU = n
						}
						feed(p.pc, p.cSent, cutC)
						feed(p.pu, p.uSent, cutU)
						feed(q.pc, q.cSent, -1)
						feed(q.pu, q.uSent, -1)
						idle()
						if q.pc.Closed() || q.pu.Closed() {
							return fmt.Errorf("a failure of one pairing closed the other")
						}
						// end what still lives
						p.pc.FeedEOF()
						q.pu.FeedEOF()
						w.l.Close()
						return nil
					}, func(x *vrt.Exec) error {
						if b := x.Blocked(false); len(b) > 0 {
							return fmt.Errorf("blocked for ever: %v", b)
						}
						p, q := w.pairs[0], w.pairs[1]
						if err := stream("upstream", q.pu.Sent(), plainOpt, q.cSent, 1, true); err != nil {
							return fmt.Errorf("other pairing: %v", err)
						}
						if err := stream("client", q.pc.Sent(), plainOpt, q.uSent, 1, true); err != nil {
							return fmt.Errorf("other pairing: %v", err)
						}
						if !p.pc.Closed() {
							return fmt.Errorf("the client's connection was not closed")
						}
						if p.initHdr != "" && p.upErr == nil && !p.pu.Closed() {
							return fmt.Errorf("the upstream connection was not closed")
						}
						// whole frames only (a failing write may leave one partial frame at the end)
						for i, s := range [][]byte{p.pu.Sent(), p.pc.Sent()} {
							ms, rest, err := parseStream(s, plainOpt)
							if err != nil || len(rest) > 0 && which != 1 && which != 3 {
								return fmt.Errorf("stream %d: %v rest %x", i, err, clip(rest))
							}
							src := p.cSent
							what := "upstream"
							if i == 1 {
								src, what = p.uSent, "client"
							}
							whole := s[:len(s)-len(rest)]
							if err := stream(what, whole, plainOpt, src, 1, false); err != nil {
								return err
							}
							_ = ms
						}
						c.Obs(len(p.pu.Sent()), len(p.pc.Sent()), w.serr != nil)
						return nil
					})
				}) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- T12

type sc struct {
	conn *vnet.Conn // server's end
	sent []*rmsg
	bad  bool
}

type srvW struct {
	x     *vrt.Exec
	l     *vnet.Listener
	s     *transport.Server
	conns []*sc
	calls map[string]int // message -> callback invocations
	via   map[string]transport.Conn
	serr  error
	sdone bool
	open  bool // blocked callbacks may go on
}

func (w *srvW) callback(tag string) transport.MessageCallback {
	return func(c transport.Conn, m *transport.ByteArrayMessage) {
		r := fromHeaders(&m.Headers, m.Body, hdrTypes)
		k := r.key()
		w.calls[k]++
		if strings.HasPrefix(r.action, "block") {
			vrt.Block("slow callback", func() bool { return w.open })
		}
		if !strings.HasPrefix(r.action, "quiet") {
			rep := &transport.Message{}
			rep.Headers.RelatesTo = r.id
			rep.Headers.Action = "answer" + tag
			c.SendOneWay(rep)
		}
	}
}

func newSrv(x *vrt.Exec, n int, cfg transport.Config) *srvW {
	w := &srvW{x: x, l: vnet.NewListener("server:1"), calls: map[string]int{}}
	x.Data = w
	s, err := transport.Listen(w.l, transport.ServerConfig{Config: cfg, MessageCallback: w.callback("")})
	if err != nil {
		vrt.Fail("listen: %v", err)
		return w
	}
	w.s = s
	for i := 0; i < n; i++ {
		_, b := vnet.Pipe(fmt.Sprintf("client%d", i), fmt.Sprintf("server-side%d", i))
		w.conns = append(w.conns, &sc{conn: b})
	}
	vrt.GoNamed("serve", func() {
		w.serr = s.Serve()
		w.sdone = true
	})
	return w
}

func (w *srvW) send(i int, m *rmsg) {
	c := w.conns[i]
	c.sent = append(c.sent, m)
	vrt.Point("client sends")
	c.conn.Feed(m.frame(plainOpt))
}

// checkConn checks what one connection received from the server.
func (w *srvW) checkConn(i int, exact bool) []string {
	c := w.conns[i]
	var v []string
	ms, rest, err := parseStream(c.conn.Sent(), plainOpt)
	if err != nil || len(rest) > 0 {
		return []string{fmt.Sprintf("connection %d: no sequence of whole frames: %v rest %x", i, err, clip(rest))}
	}
	if len(ms) == 0 {
		if exact {
			v = append(v, fmt.Sprintf("connection %d: the server did not announce itself", i))
		}
		return v
	}
	if ms[0].actor != actTransport || ms[0].action != "" || len(ms[0].body) == 0 {
		v = append(v, fmt.Sprintf("connection %d: the first message is no announcement: %s", i, ms[0].key()))
	} else {
		var b wInit
		if err := refDecode(ms[0].body, &b); err != nil || b.Address != c.conn.LocalAddr().String() || !b.Heartbeat {
			v = append(v, fmt.Sprintf("connection %d: announcement %+v %v", i, b, err))
		}
	}
	answers := map[string]int{}
	for _, m := range ms[1:] {
		if m.action == "HeartbeatResponse" {
			answers[string(m.body)]++
			continue
		}
		answers[m.rel.String()]++
	}
	for _, m := range c.sent {
		want := 1
		k := m.rel.String()
		k = m.id.String()
		if m.actor == actTransport {
			if m.action != "HeartbeatRequest" {
				continue
			}
			k = string(m.body)
		}
		if strings.HasPrefix(m.action, "quiet") {
			want = 0
		}
		if n := answers[k]; n > want || exact && n != want {
			v = append(v, fmt.Sprintf("connection %d: %d answers to %s", i, n, m.key()))
		}
		delete(answers, k)
	}
	for k := range answers {
		v = append(v, fmt.Sprintf("connection %d: answer to %s which was not received there", i, k))
	}
	for _, m := range c.sent {
		n := w.calls[m.key()]
		if m.actor == actTransport {
			if n != 0 {
				v = append(v, "the callback got a transport message")
			}
			continue
		}
		if n > 1 || exact && n != 1 {
			v = append(v, fmt.Sprintf("connection %d: callback invoked %d times for %s", i, n, m.key()))
		}
	}
	return v
}

type wInit struct {
	Address   string
	Instance  uint64
	Nonce     serialization.GUID
	Heartbeat bool
	Flags     uint32
}

func init() {
	add(&Scenario{Prop: "T12", Name: "connections", Shards: 8,
		Bounds: "three connections with messages, heartbeats and slow callbacks, of which one is broken in 6 ways at any moment, a temporary accept failure in between, then closing the server; all schedules with at most 2 deviations (quick: 1)",
		Cfg:    schedCfg(bnd(1, 1), bnd(2, 1)),
		Body: func(x *vrt.Exec) {
			vrt.Branch(true)
			how := vrt.Choose(6, 0, "how the first connection breaks")
			vrt.Branch(false)
			w := newSrv(x, 3, transport.Config{})
			if how == 5 {
				w.conns[0].conn.FailWrite = 1
			}
			w.conns[0].bad = true
			vrt.Branch(true)
			par(map[string]func(){
				"accept": func() {
					w.l.Queue(w.conns[0].conn)
					w.l.QueueTemporary()
					w.l.Queue(w.conns[1].conn)
					vrt.Point("connect")
					w.l.Queue(w.conns[2].conn)
				},
				"c0": func() {
					w.send(0, &rmsg{id: mid(1), actor: 7, action: "block0"})
					w.send(0, &rmsg{id: mid(2), actor: 7, action: "m"})
					vrt.Point("break")
					c := w.conns[0].conn
					switch how {
					case 0:
						c.FeedEOF()
					case 1:
						c.ResetIn()
					case 2:
						c.Feed([]byte("garbage garbage"))
					case 3:
						c.Feed(rawFrame(9, []byte{1, 2, 3}, plainOpt))
					case 4:
						c.FailWrite = 1
						w.send(0, &rmsg{id: mid(3), actor: 7, action: "m"})
					}
				},
				"c1": func() {
					w.send(1, &rmsg{id: mid(11), actor: 7, action: "block1"})
					w.send(1, &rmsg{id: mid(12), actor: 7, action: "quiet"})
					w.send(1, &rmsg{id: mid(13), actor: actTransport, action: "HeartbeatRequest", body: []byte("tick")})
				},
				"c2": func() {
					w.send(2, &rmsg{id: mid(21), actor: 7, action: "m", rel: mid(5), custom: []rhdr{{0x8036, []byte{1}}}})
					w.send(2, &rmsg{id: mid(22), actor: 7, action: "m"})
				},
			})
			idle()
			vrt.Branch(false)
			// slow callbacks are still busy, everything else must have been served
			if n := len(parseOK(w.conns[2].conn.Sent())); n != 3 {
				vrt.Fail("connection 2 got %d messages while callbacks of others are busy, want 3", n)
			}
			if w.calls[w.conns[1].sent[1].key()] != 1 {
				vrt.Fail("a message behind a slow callback was not delivered")
			}
			w.open = true
			idle()
			if w.sdone {
				vrt.Fail("serving ended by itself: %v", w.serr)
			}
			w.s.Close()
			idle()
			if !w.sdone || w.serr == nil {
				vrt.Fail("after closing: serving ended %v with %v", w.sdone, w.serr)
			}
			for _, c := range w.conns {
				c.conn.FeedEOF()
			}
			idle()
		},
		Judge: judgeT12})
	add(&Scenario{Prop: "T12", Name: "histories", Shards: 8,
		Bounds: "every sequence of up to 5 (thorough 6) of: connect, message, heartbeat, burst of two, end of stream, reset, garbage, temporary accept failure, callback replacement; then close",
		Enum:   enumT12})
	add(&Scenario{Prop: "T12", Name: "tcp", Shards: 1,
		Bounds: "listening and dialling by address: exchange in both directions, address reported, second listener refused, dialling after close",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body: func(x *vrt.Exec) {
			var got []string
			s, err := transport.ListenTCP("10.0.0.1:1", transport.ServerConfig{MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
				got = append(got, "server:"+m.Headers.Action)
				r := &transport.Message{}
				r.Headers.RelatesTo = m.Headers.Id
				r.Headers.Action = "re " + m.Headers.Action
				c.SendOneWay(r)
			}})
			if err != nil {
				vrt.Fail("listen: %v", err)
				return
			}
			if s.Addr().String() != "10.0.0.1:1" {
				vrt.Fail("address %v", s.Addr())
			}
			if _, err := transport.ListenTCP("10.0.0.1:1", transport.ServerConfig{}); err == nil {
				vrt.Fail("a second listener on the same address was not refused")
			}
			var serr error
			sdone := false
			vrt.GoNamed("serve", func() { serr = s.Serve(); sdone = true })
			vrt.Branch(true)
			cl := func(name string) {
				c, err := transport.DialTCP("10.0.0.1:1", transport.ClientConfig{})
				if err != nil {
					vrt.Fail("dial: %v", err)
					return
				}
				vrt.GoNamed("wait", func() { c.Wait() })
				m := &transport.Message{}
				m.Headers.Action = name
				r, err := c.RequestReply(context.Background(), m)
				if err != nil || r.Headers.Action != "re "+name {
					vrt.Fail("request %s: %v %v", name, r, err)
				}
				c.Close()
			}
			par(map[string]func(){"a": func() { cl("a") }, "b": func() { cl("b") }})
			idle()
			vrt.Branch(false)
			s.Close()
			idle()
			if !sdone || serr == nil {
				vrt.Fail("after closing: serving ended %v with %v", sdone, serr)
			}
			if _, err := transport.DialTCP("10.0.0.1:1", transport.ClientConfig{}); err == nil {
				vrt.Fail("dialling a closed server succeeded")
			}
		},
		Judge: func(x *vrt.Exec) vrt.Outcome { var o vrt.Outcome; fin(x, &o); return o }})
}

func parseOK(b []byte) []*rmsg {
	ms, _, _ := parseStream(b, plainOpt)
	return ms
}

func judgeT12(x *vrt.Exec) vrt.Outcome {
	var o vrt.Outcome
	fin(x, &o)
	w, ok := x.Data.(*srvW)
	if !ok || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	for i, c := range w.conns {
		if c.bad {
			// only what was accepted before it broke, never twice
			if ms, _, err := parseStream(c.conn.Sent(), plainOpt); err != nil || len(ms) > 4 {
				o.Viol = append(o.Viol, fmt.Sprintf("broken connection: %v", err))
			}
			for _, m := range c.sent {
				if w.calls[m.key()] > 1 {
					o.Viol = append(o.Viol, "callback invoked twice for "+m.key())
				}
			}
		} else {
			o.Viol = append(o.Viol, w.checkConn(i, true)...)
		}
		if !c.conn.Closed() {
			o.Viol = append(o.Viol, fmt.Sprintf("connection %d ended but was not closed", i))
		}
		o.Key += fmt.Sprint(len(c.conn.Sent()), " ")
	}
	return o
}

func enumT12(c *Ctx) {
	max := 5
	if c.Thorough {
		max = 6
	}
	names := []string{"connect", "message", "heartbeat", "burst", "eof", "reset", "garbage", "temporary", "replace"}
	for n := 1; n <= max; n++ {
		idx := make([]int, n)
		for {
			l := append([]int(nil), idx...)
			if !c.Case(func() string {
				s := ""
				for _, i := range l {
					s += names[i] + " "
				}
				return s
			}, func() error { return historyT12(c, l) }) {
				return
			}
			if !inc(idx, len(names)) {
				break
			}
		}
	}
}

func historyT12(c *Ctx, ops []int) error {
	var w *srvW
	return seqCfg(vrt.Config{MaxSteps: 200000, MaxTimers: 50}, func(x *vrt.Exec) error {
		w = newSrv(x, 0, transport.Config{})
		connect := func() {
			i := len(w.conns)
			_, b := vnet.Pipe(fmt.Sprintf("client%d", i), fmt.Sprintf("server-side%d", i))
			w.conns = append(w.conns, &sc{conn: b})
			w.l.Queue(b)
		}
		connect()
		connect()
		tag := ""
		tags := map[string]string{}
		live := func(k int) int {
			for i := range w.conns {
				j := (i + k) % len(w.conns)
				if !w.conns[j].bad {
					return j
				}
			}
			connect()
			return len(w.conns) - 1
		}
		k := 0
		msg := func(i int) {
			k++
			m := &rmsg{id: mid(k), actor: 7, action: fmt.Sprintf("m%d", k), body: []byte{byte(k)}}
			tags[m.id.String()] = tag
			w.send(i, m)
		}
		for j, o := range ops {
			c.Step(1)
			i := live(j)
			switch o {
			case 0:
				connect()
			case 1:
				msg(i)
			case 2:
				k++
				w.send(i, &rmsg{id: mid(k), actor: actTransport, action: "HeartbeatRequest", body: []byte(fmt.Sprint("tick", k))})
			case 3:
				msg(i)
				msg(i)
			case 4:
				w.conns[i].conn.FeedEOF()
				w.conns[i].bad = true
			case 5:
				w.conns[i].conn.ResetIn()
				w.conns[i].bad = true
			case 6:
				w.conns[i].conn.Feed([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13})
				w.conns[i].bad = true
			case 7:
				w.l.QueueTemporary()
			case 8:
				idle()
				tag = fmt.Sprint("#", j)
				w.s.SetMessageCallback(w.callback(tag))
			}
			if j%2 == 1 || o >= 4 && o <= 6 {
				idle()
			}
		}
		idle()
		if w.sdone {
			return fmt.Errorf("serving ended by itself: %v", w.serr)
		}
		for i, s := range w.conns {
			if s.bad {
				if !s.conn.Closed() {
					return fmt.Errorf("connection %d is broken but not closed", i)
				}
				continue
			}
			if v := w.checkConn(i, true); len(v) > 0 {
				return fmt.Errorf("%s", v[0])
			}
			for _, m := range parseOK(s.conn.Sent()) {
				if strings.HasPrefix(m.action, "answer") && m.action != "answer"+tags[m.rel.String()] {
					return fmt.Errorf("a message was handled by callback %q, in force was %q", m.action, tags[m.rel.String()])
				}
			}
			if s.conn.Closed() {
				return fmt.Errorf("connection %d is healthy but closed", i)
			}
			c.Obs(len(s.conn.Sent()))
		}
		w.s.Close()
		idle()
		if !w.sdone || w.serr == nil {
			return fmt.Errorf("after closing: serving ended %v with %v", w.sdone, w.serr)
		}
		for _, s := range w.conns {
			s.conn.FeedEOF()
		}
		return nil
	}, func(x *vrt.Exec) error {
		if b := x.Blocked(false); len(b) > 0 {
			return fmt.Errorf("blocked for ever: %v", b)
		}
		return nil
	})
}

// enumT10f: whatever a filter does with one message is what the other side gets, and no other message is touched.
func enumT10f(c *Ctx) {
	max := 2
	if c.Thorough {
		max = 3
	}
	nk := len(filterKinds)
	for n := 1; n <= max; n++ {
		ops := make([]int, n)
		for {
			l := append([]int(nil), ops...)
			for mode := 0; mode < 8; mode++ {
				mode := mode
				if !c.Case(func() string { return fmt.Sprintf("filters %v mode %d", l, mode) }, func() error {
					c.Step(n + 1)
					cfg := cfgBits(mode / 2)
					var w *pw
					return seqCfg(vrt.Config{MaxSteps: 200000, MaxTimers: 50}, func(x *vrt.Exec) error {
						w = newPW(x, 1, 2, cfg, transport.Config{})
						p := w.pairs[0]
						w.l.Queue(p.pc)
						o := opening(1)
						p.cSent = append(p.cSent, o)
						p.pc.Feed(o.frame(optFor(cfg)))
						put := func(m *rmsg) {
							if mode%2 == 0 {
								p.cSent = append(p.cSent, m)
								p.pc.Feed(m.frame(optFor(cfg)))
							} else {
								p.uSent = append(p.uSent, m)
								p.pu.Feed(m.frame(plainOpt))
							}
						}
						for i, op := range l {
							m := pmsg(8+4*i+op/nk, filterKinds[op%nk])
							if op%nk > 0 {
								m.action = filterKinds[op%nk]
							}
							m.body = []byte("some body bytes")[:op/nk*5]
							put(m)
						}
						put(pmsg(60, "keep"))
						idle()
						if p.pc.Closed() || p.pu.Closed() {
							return fmt.Errorf("the proxy closed a healthy pairing")
						}
						p.pc.FeedEOF()
						w.l.Close()
						return nil
					}, func(x *vrt.Exec) error {
						p := w.pairs[0]
						if b := x.Blocked(false); len(b) > 0 {
							return fmt.Errorf("blocked for ever: %v", b)
						}
						if err := stream("upstream", p.pu.Sent(), plainOpt, p.cSent, 2, true); err != nil {
							return err
						}
						if err := stream("client", p.pc.Sent(), optFor(cfg), p.uSent, 2, true); err != nil {
							return err
						}
						c.Obs(p.pc.Sent(), p.pu.Sent())
						return nil
					})
				}) {
					return
				}
			}
			if !inc(ops, nk*4) {
				break
			}
		}
	}
}
