package main

// Long and wide histories: many operations in a row, many things at once. Every length up to the bound is covered
// because each step is checked (prefixes of the longest history), widths are enumerated.

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

var wide = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70}

var longCfg = vrt.Config{MaxSteps: 20000000, MaxTimers: 1 << 20}

// orders of n things: forward, backward, interleaved
func orders(n int) [][]int {
	var f, b, i []int
	for k := 0; k < n; k++ {
		f = append(f, k)
		b = append(b, n-1-k)
		i = append(i, k/2+(k%2)*((n+1)/2))
	}
	return [][]int{f, b, i}
}

func init() {
	add(&Scenario{Prop: "T01", Name: "long", Shards: 4, Bounds: "70000 (thorough 300000) messages in a row over one connection, in 6 mixes of message shapes, one-way and as answered requests: wire bytes equal the reference's, every one delivered once, in order",
		Enum: enumT01long})
	add(&Scenario{Prop: "T05", Name: "many", Shards: 4, Bounds: "1 to 300 (thorough 1025; answered in a burst 4097) requests waiting at once on one connection, answered in 3 orders, once or twice, in one burst or one by one; 2000 requests in a row; and messages related to each of the ids one bit away from a pending one",
		Enum: enumT05many})
	add(&Scenario{Prop: "T06", Name: "many", Shards: 4, Bounds: "1 to 300 (thorough 1025), 1030 and 2049 requests waiting at once of which every second or third is cancelled, has its deadline pass or is answered, then the connection ends in each of 4 ways",
		Enum: enumT06many})
	add(&Scenario{Prop: "T07", Name: "long", Shards: 2, Bounds: "3000 pings in a row, each answered after 0 to 3 stray answers and with up to 3 heartbeat requests of the peer in between",
		Enum: enumT07long})
	add(&Scenario{Prop: "T09", Name: "many", Shards: 4, Bounds: "1 to 300 (thorough 1025) requests, pings and (on a stalled peer) sends waiting at once when the connection is closed or refused",
		Enum: enumT09many})
	add(&Scenario{Prop: "T10", Name: "long", Shards: 4, Bounds: "3000 messages in each direction through one pairing in 4 mixes, with and without filter; 1 to 300 (thorough 1025) pairings at once",
		Enum: enumT10long})
	add(&Scenario{Prop: "T12", Name: "many", Shards: 4, Bounds: "1 to 300 (thorough 1025) connections at once, each with 5 messages, every second or third with a blocked callback, ended or broken; 3000 messages on one connection",
		Enum: enumT12many})
	add(&Scenario{Prop: "T13", Name: "many", Bounds: "1 to 300 (thorough 1025) values under each of 1 to 20 header types in one message",
		Enum: enumT13many})
}

func enumT01long(c *Ctx) {
	total := 70000
	if c.Thorough {
		total = 300000
	}
	for mix := 0; mix < 6; mix++ {
		for cf := 0; cf < 4; cf++ {
			if cf > 0 && mix != 3 {
				continue
			}
			mix, cf := mix, cf
			if !c.Case(func() string { return fmt.Sprintf("mix %d checksums %d", mix, cf) }, func() error {
				c.Step(total)
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					a, b := vnet.Pipe("a", "b")
					a.NoPoint, b.NoPoint = true, true
					cfg := cfgBits(cf)
					ca, err := transport.Connect(a, transport.ClientConfig{Config: cfg})
					if err != nil {
						return err
					}
					n := 0
					var bad error
					mk := func(i int) *rmsg {
						m := &rmsg{id: mid(i + 1), actor: 9, action: "x"}
						if mix == 0 {
							return m
						}
						m.body = []byte(fmt.Sprint("body ", i))
						switch (i*mix + i/7) % 6 {
						case 1:
							m.rel, m.expect = mid(i+5), true
						case 2:
							m.errc, m.fault = int64(-i), i%2 == 0
						case 3:
							m.custom = []rhdr{{0x8036, []byte(fmt.Sprint(i))}, {0x8036, nil}}
						case 4:
							m.high, m.idemp, m.retry = true, true, int32(i)
						case 5:
							m.action = strings.Repeat("action", i%50)
						}
						return m
					}
					cb, err := transport.Connect(b, transport.ClientConfig{Config: cfg, MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
						if g, w := fromHeaders(&m.Headers, m.Body, hdrTypes).key(), mk(n).key(); bad == nil && g != w {
							bad = fmt.Errorf("message %d arrived as\n%s\nsent\n%s", n, g, w)
						}
						n++
					}})
					if err != nil {
						return err
					}
					vrt.GoNamed("recv", func() { cb.Wait() })
					from := len(a.Sent())
					for i := 0; i < total; i++ {
						if err := ca.SendOneWay(toMsg(mk(i))); err != nil {
							return fmt.Errorf("message %d: %v", i, err)
						}
						if i%500 == 499 || i == total-1 {
							idle()
							if bad != nil {
								return bad
							}
							if n != i+1 {
								return fmt.Errorf("%d messages sent, %d delivered", i+1, n)
							}
						}
					}
					ms, rest, err := parseStream(a.Sent()[from:], optFor(cfg))
					if err != nil || len(rest) > 0 || len(ms) != total {
						return fmt.Errorf("%d messages on the wire, %d bytes left: %v", len(ms), len(rest), err)
					}
					for i, m := range ms {
						if m.key() != mk(i).key() {
							return fmt.Errorf("message %d is on the wire as %s", i, m.key())
						}
					}
					c.Obs(mix, cf)
					a.FeedEOF()
					b.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

func widths(c *Ctx) []int {
	w := append(append([]int(nil), wide...), 100, 127, 128, 129, 200, 255, 256, 257, 300)
	if c.Thorough {
		w = append(w, 500, 512, 513, 700, 1023, 1024, 1025)
	}
	return w
}

func fwidths(c *Ctx) []int {
	if c.Thorough {
		return append(append([]int(nil), wide...), 100, 127, 128, 129)
	}
	return wide
}

type pendReq struct {
	done   bool
	err    error
	rep    *rmsg
	cancel func()
}

// ask starts a request and returns once it is on the wire or waits for that.
func (w *tw) ask(n int, ctx context.Context) *pendReq {
	p := &pendReq{}
	vrt.GoNamed("request", func() {
		m, err := w.cl.RequestReply(ctx, toMsg(&rmsg{id: mid(n), actor: 9, action: "ask"}))
		if p.err = err; err == nil {
			p.rep = fromReply(m)
		}
		p.done = true
	})
	return p
}

func answerTo(n int) *rmsg {
	return &rmsg{id: mid(100000 + n), rel: mid(n), actor: 9, action: fmt.Sprint("answer ", n), body: []byte{byte(n), byte(n >> 8)}}
}

func (p *pendReq) must(n int) error {
	if !p.done || p.err != nil {
		return fmt.Errorf("request %d: returned %v, error %v", n, p.done, p.err)
	}
	if p.rep.key() != answerTo(n).key() {
		return fmt.Errorf("request %d returned %s", n, p.rep.key())
	}
	return nil
}

func enumT05many(c *Ctx) {
	for _, n := range append(widths(c), 511, 513, 1024, 1030, 2049, 4097) {
		for o := 0; o < 3; o++ {
			for how := 0; how < 8; how++ {
				n, o, how := n, o, how
				if n > 500 && how != 0 && how != 5 {
					continue
				}
				if !c.Case(func() string { return fmt.Sprintf("%d requests, order %d, way %d", n, o, how) }, func() error {
					c.Step(n)
					c.Obs(n, o, how)
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						w := newTW(x, transport.Config{}, how&1 != 0)
						w.a.NoPoint = true
						var ps []*pendReq
						for i := 0; i < n; i++ {
							ps = append(ps, w.ask(i+1, context.Background()))
							if how&2 != 0 {
								idle()
							}
						}
						idle()
						ms, err := w.wire()
						if err != nil || len(ms) != n {
							return fmt.Errorf("%d of %d requests on the wire: %v", len(ms), n, err)
						}
						stray := 0
						for k, i := range orders(n)[o] {
							w.a.Feed(answerTo(i + 1).frame(plainOpt))
							if how&4 != 0 {
								w.a.Feed(answerTo(i + 1).frame(plainOpt))
								stray++
							}
							if how&2 != 0 {
								idle()
								if err := ps[i].must(i + 1); err != nil {
									return err
								}
								for _, j := range orders(n)[o][k+1:] {
									if ps[j].done {
										return fmt.Errorf("request %d returned before its reply came: %v", j+1, ps[j].err)
									}
								}
							}
						}
						idle()
						for i, p := range ps {
							if err := p.must(i + 1); err != nil {
								return err
							}
						}
						if len(w.got) != stray {
							return fmt.Errorf("%d unsolicited replies delivered of %d", len(w.got), stray)
						}
						w.a.FeedEOF()
						return nil
					}, nil)
				}) {
					return
				}
			}
		}
	}
	// ids that differ from a pending one in one bit, or in their halves, are unknown
	for at := 0; at < 3; at++ {
		at := at
		if !c.Case(func() string { return fmt.Sprintf("messages related to near ids, request %d", at) }, func() error {
			return seqCfg(longCfg, func(x *vrt.Exec) error {
				w := newTW(x, transport.Config{}, at == 1)
				w.a.NoPoint = true
				id := []transport.MessageId{mid(7), {Id: mid(1).Id, Index: 0xffffffff}, {Id: serialization.GUID{Data1: 1}, Index: 0}}[at]
				p := &pendReq{}
				vrt.GoNamed("request", func() {
					m, err := w.cl.RequestReply(context.Background(), toMsg(&rmsg{id: id, actor: 9, action: "ask"}))
					if p.err = err; err == nil {
						p.rep = fromReply(m)
					}
					p.done = true
				})
				idle()
				var near []transport.MessageId
				for b := 0; b < 32; b++ {
					n := id
					n.Index ^= 1 << uint(b)
					near = append(near, n)
					n = id
					n.Id.Data1 ^= 1 << uint(b)
					near = append(near, n)
					n = id
					if b < 16 {
						n.Id.Data2 ^= 1 << uint(b)
					} else {
						n.Id.Data3 ^= 1 << uint(b-16)
					}
					near = append(near, n)
				}
				for b := 0; b < 64; b++ {
					n := id
					n.Id.Data4[b/8] ^= 1 << uint(b%8)
					near = append(near, n)
				}
				near = append(near, transport.MessageId{Id: id.Id}, transport.MessageId{Index: id.Index}, transport.MessageId{Id: mid(3).Id, Index: id.Index + 1})
				k := 0
				for i, n := range near {
					if n == id || n.Id.IsEmpty() && n.Index == 0 {
						continue
					}
					k++
					c.Step(1)
					m := &rmsg{id: mid(100000 + i), rel: n, actor: 9, action: fmt.Sprint("near ", i)}
					w.a.Feed(m.frame(plainOpt))
					idle()
					if p.done {
						return fmt.Errorf("the request with id %v returned (%v) on a message related to %v", id, p.err, n)
					}
					if len(w.got) != k || w.got[k-1].key() != m.key() {
						return fmt.Errorf("a message related to %v, which is nothing pending, was not delivered", n)
					}
				}
				m := &rmsg{id: mid(99), rel: id, actor: 9, action: "answer"}
				w.a.Feed(m.frame(plainOpt))
				idle()
				if !p.done || p.err != nil || p.rep.key() != m.key() {
					return fmt.Errorf("the request with id %v did not return its reply: %v, %v", id, p.done, p.err)
				}
				c.Obs("near", at)
				w.a.FeedEOF()
				return nil
			}, nil)
		}) {
			return
		}
	}
	c.Case(func() string { return "2000 requests in a row" }, func() error {
		c.Step(2000)
		return seqCfg(longCfg, func(x *vrt.Exec) error {
			w := newTW(x, transport.Config{}, false)
			w.a.NoPoint = true
			for i := 1; i <= 2000; i++ {
				p := w.ask(i, context.Background())
				idle()
				w.a.Feed(answerTo(i).frame(plainOpt))
				if i%3 == 0 {
					w.a.Feed(answerTo(i - 1).frame(plainOpt))
				}
				idle()
				if err := p.must(i); err != nil {
					return err
				}
			}
			if len(w.got) != 2000/3 {
				return fmt.Errorf("%d repeated replies delivered of %d", len(w.got), 2000/3)
			}
			w.a.FeedEOF()
			return nil
		}, nil)
	})
}

// endHow ends the connection.
func (w *tw) endHow(how int) {
	switch how {
	case 0:
		w.a.FeedEOF()
	case 1:
		w.a.ResetIn()
	case 2:
		w.a.Feed([]byte("garbage garbage garbage"))
	case 3:
		w.cl.Close()
	}
}

func enumT06many(c *Ctx) {
	for _, n := range append(widths(c), 1030, 2049) {
		for mix := 1; mix <= 4; mix++ {
			for how := 0; how < 4; how++ {
				n, mix, how := n, mix, how
				if n > 1025 && mix != how+1 {
					continue
				}
				if !c.Case(func() string { return fmt.Sprintf("%d requests, mix %d, end %d", n, mix, how) }, func() error {
					c.Step(n)
					c.Obs(n, mix, how)
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						w := newTW(x, transport.Config{}, how%2 == 1)
						w.a.NoPoint = true
						var ps []*pendReq
						kind := func(i int) int { return (i*mix + i/5) % 4 }
						for i := 0; i < n; i++ {
							ctx, cancel := context.Background(), func() {}
							switch kind(i) {
							case 1:
								ctx, cancel = vctx.WithCancel(ctx)
							case 2:
								ctx, cancel = vctx.WithTimeout(ctx, time.Second)
							}
							p := w.ask(i+1, ctx)
							p.cancel = cancel
							ps = append(ps, p)
						}
						vtime.Sleep(10 * time.Millisecond)
						for i, p := range ps {
							switch kind(i) {
							case 1:
								p.cancel()
							case 3:
								w.a.Feed(answerTo(i + 1).frame(plainOpt))
							}
						}
						vtime.Sleep(2 * time.Second)
						for i, p := range ps {
							switch kind(i) {
							case 0:
								if p.done {
									return fmt.Errorf("request %d returned %v without reply or end", i+1, p.err)
								}
							case 1:
								if !p.done || !errors.Is(p.err, context.Canceled) {
									return fmt.Errorf("cancelled request %d: returned %v, %v", i+1, p.done, p.err)
								}
							case 2:
								if !p.done || !errors.Is(p.err, context.DeadlineExceeded) {
									return fmt.Errorf("timed out request %d: returned %v, %v", i+1, p.done, p.err)
								}
							case 3:
								if err := p.must(i + 1); err != nil {
									return err
								}
							}
						}
						// replies to requests that are gone reach the callback
						late := 0
						for i := range ps {
							if k := kind(i); k == 1 || k == 2 {
								w.a.Feed(answerTo(i + 1).frame(plainOpt))
								late++
							}
						}
						idle()
						if len(w.got) != late {
							return fmt.Errorf("%d late replies delivered of %d", len(w.got), late)
						}
						w.endHow(how)
						idle()
						for i, p := range ps {
							if kind(i) == 0 && (!p.done || p.err == nil) {
								return fmt.Errorf("request %d at the end of the connection: returned %v, %v", i+1, p.done, p.err)
							}
						}
						return nil
					}, func(x *vrt.Exec) error {
						if b := x.Blocked(false); len(b) > 0 {
							return fmt.Errorf("blocked for ever: %v", b)
						}
						return nil
					})
				}) {
					return
				}
			}
		}
	}
}

func enumT07long(c *Ctx) {
	for mix := 0; mix < 8; mix++ {
		mix := mix
		if !c.Case(func() string { return fmt.Sprintf("mix %d", mix) }, func() error {
			total := 3000
			c.Step(total)
			c.Obs(mix)
			return seqCfg(longCfg, func(x *vrt.Exec) error {
				w := newTW(x, transport.Config{}, mix&1 != 0)
				w.a.NoPoint = true
				at := len(w.a.Sent())
				next := func() ([]*rmsg, error) {
					ms, rest, err := parseStream(w.a.Sent()[at:], plainOpt)
					at = len(w.a.Sent()) - len(rest)
					return ms, err
				}
				hb := func(b []byte) {
					w.a.Feed((&rmsg{id: mid(70), actor: actTransport, action: "HeartbeatRequest", high: true, body: b}).frame(plainOpt))
				}
				old := tick(12345)
				for i := 0; i < total; i++ {
					done, d, perr := false, time.Duration(0), error(nil)
					if mix&4 != 0 && i%3 == 0 {
						w.a.Feed((&rmsg{id: mid(71), actor: actTransport, action: "HeartbeatResponse", high: true, body: old}).frame(plainOpt))
					}
					vrt.GoNamed("ping", func() {
						d, perr = w.cl.Ping(context.Background())
						done = true
					})
					idle()
					ms, err := next()
					if err != nil || len(ms) != 1 || ms[0].action != "HeartbeatRequest" {
						return fmt.Errorf("ping %d: %d messages on the wire, %v", i, len(ms), err)
					}
					tok := ms[0].body
					var asks [][]byte
					for k := 0; k < i%4 && mix&2 != 0; k++ {
						b := []byte(fmt.Sprint("hb ", i, " ", k))
						asks = append(asks, b)
						hb(b)
					}
					if len(asks) > 0 {
						idle()
						ms, err = next()
						if err != nil || len(ms) != len(asks) {
							return fmt.Errorf("%d answers to %d heartbeat requests: %v", len(ms), len(asks), err)
						}
						seen := map[string]int{}
						for _, m := range ms {
							if m.action != "HeartbeatResponse" || m.actor != actTransport {
								return fmt.Errorf("heartbeat answered with %s", m.key())
							}
							seen[string(m.body)]++
						}
						for _, b := range asks {
							if seen[string(b)] != 1 {
								return fmt.Errorf("heartbeat %q answered %d times", b, seen[string(b)])
							}
						}
					}
					if mix&4 != 0 {
						for k := 0; k < i%3; k++ {
							w.a.Feed((&rmsg{id: mid(72), actor: actTransport, action: "HeartbeatResponse", high: true, body: old}).frame(plainOpt))
						}
						idle()
					}
					if done {
						return fmt.Errorf("ping %d returned %v, %v without its echo", i, d, perr)
					}
					vtime.Sleep(time.Millisecond)
					w.a.Feed((&rmsg{id: mid(73), actor: actTransport, action: "HeartbeatResponse", high: true, body: tok}).frame(plainOpt))
					idle()
					if !done || perr != nil || d < time.Millisecond {
						return fmt.Errorf("ping %d after its echo: returned %v, %v, %v", i, done, d, perr)
					}
					old = tok
				}
				w.a.FeedEOF()
				return nil
			}, nil)
		}) {
			return
		}
	}
}

func enumT09many(c *Ctx) {
	for _, n := range widths(c) {
		for kind := 0; kind < 4; kind++ {
			for how := 0; how < 3; how++ {
				n, kind, how := n, kind, how
				if !c.Case(func() string { return fmt.Sprintf("%d operations of kind %d, end %d", n, kind, how) }, func() error {
					c.Step(n)
					c.Obs(n, kind, how)
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						w := newTW(x, transport.Config{}, how == 1)
						w.a.NoPoint = true
						if kind == 3 {
							w.a.Stall = true
						}
						var ps []*pendReq
						op := func(i int) *pendReq {
							p := &pendReq{}
							k := kind
							if k == 2 {
								k = i % 2
							}
							vrt.GoNamed("op", func() {
								switch k {
								case 0:
									_, p.err = w.cl.RequestReply(context.Background(), toMsg(&rmsg{id: mid(i + 1), actor: 9}))
								case 1:
									_, p.err = w.cl.Ping(context.Background())
								case 3:
									p.err = w.cl.SendOneWay(toMsg(&rmsg{id: mid(i + 1), actor: 9}))
								}
								p.done = true
							})
							return p
						}
						for i := 0; i < n; i++ {
							ps = append(ps, op(i))
						}
						idle()
						for i, p := range ps {
							if p.done {
								return fmt.Errorf("operation %d returned early: %v", i, p.err)
							}
						}
						switch how {
						case 0:
							w.cl.Close()
						case 1:
							w.a.Feed((&rmsg{id: mid(5000), actor: actSendTarget, action: "ConnectionAuth", errc: -7, body: refMarshal(&wStr{"no entry"})}).frame(plainOpt))
						case 2:
							w.a.FeedEOF()
						}
						idle()
						for i := 0; i < n; i++ {
							ps = append(ps, op(i+n))
						}
						idle()
						for i, p := range ps {
							if !p.done || p.err == nil {
								return fmt.Errorf("operation %d of %d after the end: returned %v, %v", i, n, p.done, p.err)
							}
							if how == 1 && i >= n && !strings.Contains(p.err.Error(), "no entry") {
								return fmt.Errorf("operation %d after the refusal: %v", i, p.err)
							}
						}
						if !w.a.Closed() {
							return fmt.Errorf("the connection was not closed")
						}
						return nil
					}, func(x *vrt.Exec) error {
						if b := x.Blocked(false); len(b) > 0 {
							return fmt.Errorf("blocked for ever: %v", b)
						}
						return nil
					})
				}) {
					return
				}
			}
		}
	}
}

func enumT10long(c *Ctx) {
	for mix := 0; mix < 4; mix++ {
		for f := 0; f < 2; f++ {
			mix, f := mix, f
			if !c.Case(func() string { return fmt.Sprintf("long, mix %d filter %d", mix, f) }, func() error {
				total := 3000
				c.Step(total)
				c.Obs(mix, f)
				var w *pw
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					w = newPW(x, 1, f, transport.Config{}, transport.Config{})
					p := w.pairs[0]
					p.pc.NoPoint, p.pu.NoPoint = true, true
					w.l.Queue(p.pc)
					o := opening(1)
					p.cSent = append(p.cSent, o)
					p.pc.Feed(o.frame(plainOpt))
					for i := 0; i < total; i++ {
						m := pmsg(8+i, []string{"keep", "drop", "repl", "x"}[(i*mix+i/9)%4])
						p.cSent = append(p.cSent, m)
						p.pc.Feed(m.frame(plainOpt))
						n := pmsg(8+i+mix, []string{"keep", "repl", "keep", "drop"}[(i+i/11)%4])
						p.uSent = append(p.uSent, n)
						p.pu.Feed(n.frame(plainOpt))
						if i%100 == 0 {
							idle()
						}
					}
					idle()
					if p.pc.Closed() || p.pu.Closed() {
						return fmt.Errorf("the proxy closed a healthy pairing")
					}
					p.pc.FeedEOF()
					w.l.Close()
					return nil
				}, func(x *vrt.Exec) error {
					p := w.pairs[0]
					if err := stream("upstream", p.pu.Sent(), plainOpt, p.cSent, f, true); err != nil {
						return err
					}
					return stream("client", p.pc.Sent(), plainOpt, p.uSent, f, true)
				})
			}) {
				return
			}
		}
	}
	for _, n := range widths(c) {
		for end := 0; end < 3; end++ {
			n, end := n, end
			if !c.Case(func() string { return fmt.Sprintf("%d pairings, every %d. ended", n, end+2) }, func() error {
				c.Step(n)
				c.Obs(n, end)
				var w *pw
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					w = newPW(x, n, 1, transport.Config{}, transport.Config{})
					for i, p := range w.pairs {
						w.l.Queue(p.pc)
						o := opening(i)
						p.cSent = append(p.cSent, o)
						p.pc.Feed(o.frame(plainOpt))
					}
					idle()
					put := func() {
						for i, p := range w.pairs {
							if p.pc.Closed() {
								continue
							}
							m := pmsg(8+len(p.cSent)*4+i, "repl")
							p.cSent = append(p.cSent, m)
							p.pc.Feed(m.frame(plainOpt))
							u := pmsg(9+len(p.cSent)*4+i, "keep")
							p.uSent = append(p.uSent, u)
							p.pu.Feed(u.frame(plainOpt))
						}
						idle()
					}
					put()
					for i, p := range w.pairs {
						if i%(end+2) == 0 {
							if i%4 < 2 {
								p.pc.FeedEOF()
							} else {
								p.pu.ResetIn()
							}
						}
					}
					idle()
					for i, p := range w.pairs {
						if gone := i%(end+2) == 0; p.pc.Closed() != gone || p.pu.Closed() != gone {
							return fmt.Errorf("pairing %d ended: %v, closed: client %v upstream %v", i, gone, p.pc.Closed(), p.pu.Closed())
						}
					}
					put()
					for i, p := range w.pairs {
						if err := stream("upstream", p.pu.Sent(), plainOpt, p.cSent, 1, true); err != nil {
							return fmt.Errorf("pairing %d: %v", i, err)
						}
						if err := stream("client", p.pc.Sent(), plainOpt, p.uSent, 1, true); err != nil {
							return fmt.Errorf("pairing %d: %v", i, err)
						}
						p.pc.FeedEOF()
					}
					w.l.Close()
					return nil
				}, func(x *vrt.Exec) error {
					if b := x.Blocked(false); len(b) > 0 {
						return fmt.Errorf("blocked for ever: %v", b)
					}
					return nil
				})
			}) {
				return
			}
		}
	}
}

func enumT12many(c *Ctx) {
	for _, n := range widths(c) {
		for mix := 0; mix < 4; mix++ {
			n, mix := n, mix
			if !c.Case(func() string { return fmt.Sprintf("%d connections, mix %d", n, mix) }, func() error {
				c.Step(n)
				c.Obs(n, mix)
				var w *srvW
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					w = newSrv(x, n, transport.Config{})
					idle()
					broken := func(i int) bool { return mix > 0 && i%(mix+1) == 1 }
					blocks := func(i int) bool { return mix > 0 && i%(mix+1) == 0 }
					for r := 0; r < 5; r++ {
						for i, s := range w.conns {
							if r == 0 {
								w.l.Queue(s.conn)
							}
							if broken(i) && r == 2 {
								switch i % 3 {
								case 0:
									s.conn.FeedEOF()
								case 1:
									s.conn.ResetIn()
								case 2:
									s.conn.Feed([]byte("garbage garbage garbage"))
								}
							}
							if broken(i) && r >= 2 {
								continue
							}
							a := "plain"
							if blocks(i) && r < 2 {
								a = "block"
							}
							w.send(i, &rmsg{id: mid(i*10 + r + 1), actor: 9, action: a})
						}
						idle()
					}
					for i := range w.conns {
						if broken(i) != w.conns[i].conn.Closed() {
							return fmt.Errorf("connection %d broken: %v, closed: %v", i, broken(i), w.conns[i].conn.Closed())
						}
						if !blocks(i) {
							if v := w.checkConn(i, true); len(v) > 0 {
								return errors.New(v[0])
							}
						}
					}
					w.open = true
					idle()
					for i := range w.conns {
						if v := w.checkConn(i, true); len(v) > 0 {
							return errors.New(v[0])
						}
						w.conns[i].conn.FeedEOF()
					}
					w.s.Close()
					idle()
					if !w.sdone || w.serr == nil {
						return fmt.Errorf("serving ended: %v, %v", w.sdone, w.serr)
					}
					return nil
				}, func(x *vrt.Exec) error {
					if b := x.Blocked(false); len(b) > 0 {
						return fmt.Errorf("blocked for ever: %v", b)
					}
					return nil
				})
			}) {
				return
			}
		}
	}
	c.Case(func() string { return "3000 messages on one connection" }, func() error {
		c.Step(3000)
		return seqCfg(longCfg, func(x *vrt.Exec) error {
			w := newSrv(x, 1, transport.Config{})
			w.l.Queue(w.conns[0].conn)
			w.conns[0].conn.NoPoint = true
			for i := 0; i < 3000; i++ {
				m := &rmsg{id: mid(i + 1), actor: 9, action: "plain"}
				if i%10 == 3 {
					m = &rmsg{id: mid(i + 1), actor: actTransport, action: "HeartbeatRequest", high: true, body: tick(int64(i))}
				}
				w.send(0, m)
				if i%20 == 19 {
					idle()
				}
			}
			idle()
			if v := w.checkConn(0, true); len(v) > 0 {
				return errors.New(v[0])
			}
			w.conns[0].conn.FeedEOF()
			w.s.Close()
			return nil
		}, nil)
	})
}

func enumT13many(c *Ctx) {
	for _, n := range widths(c) {
		for _, types := range []int{1, 2, 3, 7, 8, 9, 16, 17, 20} {
			n, types := n, types
			if n*types > 1500 {
				continue
			}
			if !c.Case(func() string { return fmt.Sprintf("%d values under each of %d types", n, types) }, func() error {
				c.Step(n * types)
				c.Obs(n, types)
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					a, b := vnet.Pipe("a", "b")
					a.NoPoint, b.NoPoint = true, true
					ca, err := transport.Connect(a, transport.ClientConfig{})
					if err != nil {
						return err
					}
					var ts []uint16
					for t := 0; t < types; t++ {
						ts = append(ts, uint16(0x8801+t))
					}
					var got *rmsg
					cb, err := transport.Connect(b, transport.ClientConfig{MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
						got = fromHeaders(&m.Headers, m.Body, ts)
					}})
					if err != nil {
						return err
					}
					vrt.GoNamed("recv", func() { cb.Wait() })
					m := &transport.Message{}
					m.Headers.Id = mid(1)
					want := &rmsg{id: mid(1)}
					for i := 0; i < n; i++ {
						for _, t := range ts {
							m.Headers.AppendCustomHeader(transport.MessageHeaderIdType(t), []byte{byte(i), byte(t)})
						}
					}
					for _, t := range ts {
						for i := 0; i < n; i++ {
							want.custom = append(want.custom, rhdr{t, []byte{byte(i), byte(t)}})
						}
						if vs := m.Headers.GetCustomHeaders(transport.MessageHeaderIdType(t)); len(vs) != n {
							return fmt.Errorf("%d of %d values under type %#x", len(vs), n, t)
						}
					}
					if err := ca.SendOneWay(m); err != nil {
						return err
					}
					idle()
					if got == nil || got.key() != want.key() {
						return fmt.Errorf("received other headers than sent")
					}
					a.FeedEOF()
					b.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- lease

func init() {
	add(&Scenario{Prop: "L03", Name: "many", Shards: 4, Bounds: "1 to 300 (thorough 1025) pings waiting at once on 1 to 3 sessions, answered or ended by session or agent close; 2000 pings in a row on one session, each answered once and followed by an answer for another endpoint",
		Enum: enumL03many})
	add(&Scenario{Prop: "L04", Name: "many", Shards: 4, Bounds: "1 to 300 (thorough 1025) sessions to different endpoints established at once, each answered in 3 orders on one connection or one each, every second or third closed or replaced, then the agent closed; 500 sessions in a row to one endpoint",
		Enum: enumL04many})
}

func lend(i int) (string, uint16, string) {
	h := fmt.Sprintf("10.0.%d.%d", i/7, i%7)
	p := uint16(1000 + i/3)
	return h, p, fmt.Sprintf("%s:%d", h, p)
}

func enumL03many(c *Ctx) {
	for _, n := range widths(c) {
		for ns := 1; ns <= 3; ns++ {
			for how := 0; how < 4; how++ {
				n, ns, how := n, ns, how
				if !c.Case(func() string { return fmt.Sprintf("%d pings on %d sessions, end %d", n, ns, how) }, func() error {
					c.Step(n)
					c.Obs(n, ns, how)
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						w := newLW(x, "9.9.9.9:99", ldefault())
						in := w.incoming()
						var ss []lease.Session
						for i := 0; i < ns; i++ {
							_, _, a := lend(i)
							s, err := w.ag.Establish(a)
							if err != nil {
								return err
							}
							ss = append(ss, s)
						}
						var ps []*lping
						for i := 0; i < n; i++ {
							ps = append(ps, w.pingGo(ss[i%ns], context.Background()))
						}
						idle()
						for s := range ss {
							if got, want := len(w.out[s].sent()), (n-s+ns-1)/ns; got != want {
								return fmt.Errorf("session %d sent %d pings of %d", s, got, want)
							}
						}
						for s := range ss {
							h, p, _ := lend(s)
							switch {
							case how == 0 || how == 1 && s == 0:
								in.Feed(pong(h, p, 4).frame())
							case how == 2:
								ss[s].Close()
							}
							idle()
							for i, p := range ps {
								gone := i%ns <= s && how != 3 && (how != 1 || i%ns == 0)
								if p.done != gone {
									return fmt.Errorf("after step %d: ping %d (session %d) returned %v, %v", s, i, i%ns, p.done, p.err)
								}
								if gone && (p.err == nil) != (how < 2) {
									return fmt.Errorf("after step %d: ping %d (session %d) returned %v", s, i, i%ns, p.err)
								}
							}
						}
						w.ag.Close()
						w.closed = true
						idle()
						for i, p := range ps {
							if !p.done || (p.err == nil) != (how == 0 || how == 1 && i%ns == 0) {
								return fmt.Errorf("agent closed: ping %d returned %v, %v", i, p.done, p.err)
							}
						}
						w.finish()
						return nil
					}, func(x *vrt.Exec) error {
						if b := x.Blocked(false); len(b) > 0 {
							return fmt.Errorf("blocked for ever: %v", b)
						}
						return nil
					})
				}) {
					return
				}
			}
		}
	}
	c.Case(func() string { return "2000 pings in a row" }, func() error {
		c.Step(2000)
		return seqCfg(longCfg, func(x *vrt.Exec) error {
			w := newLW(x, "9.9.9.9:99", ldefault())
			in := w.incoming()
			h, p, a := lend(1)
			s, err := w.ag.Establish(a)
			if err != nil {
				return err
			}
			for i := 0; i < 2000; i++ {
				q := w.pingGo(s, context.Background())
				idle()
				in.Feed(pong(h, p+1, 4).frame())
				idle()
				if q.done {
					return fmt.Errorf("ping %d returned %v before its answer", i, q.err)
				}
				vtime.Sleep(time.Millisecond)
				before := vtime.Now()
				in.Feed(pong(h, p, int64(i+1)).frame())
				idle()
				if !q.done || q.err != nil {
					return fmt.Errorf("ping %d after its answer: returned %v, %v", i, q.done, q.err)
				}
				if t := s.LastPongTime(); t.Before(before) || t.After(vtime.Now()) {
					return fmt.Errorf("ping %d: last answer at %v, the answer came after %v", i, t, before)
				}
			}
			if ms := w.out[0].sent(); len(ms) != 2000 {
				return fmt.Errorf("%d pings on the wire", len(ms))
			}
			w.finish()
			return nil
		}, nil)
	})
}

func enumL04many(c *Ctx) {
	for _, n := range widths(c) {
		for o := 0; o < 3; o++ {
			for how := 0; how < 6; how++ {
				n, o, how := n, o, how
				if !c.Case(func() string { return fmt.Sprintf("%d sessions, order %d, way %d", n, o, how) }, func() error {
					c.Step(n)
					c.Obs(n, o, how)
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						w := newLW(x, "9.9.9.9:99", ldefault())
						in := w.incoming()
						ss := make([]lease.Session, n)
						last := make([]time.Time, n)
						conn := make([]*lconn, n)
						open := func(i int) error {
							_, _, a := lend(i)
							k := len(w.out)
							s, err := w.ag.Establish(a)
							if err != nil {
								return err
							}
							if len(w.out) != k+1 || w.out[k].addr != a {
								return fmt.Errorf("session %d: %d dials", i, len(w.out)-k)
							}
							ss[i], conn[i], last[i] = s, w.out[k], s.LastPongTime()
							return nil
						}
						for i := 0; i < n; i++ {
							if err := open(i); err != nil {
								return err
							}
						}
						asked := 0
						answer := func(i int) error {
							h, p, _ := lend(i)
							cn := in
							if how%2 == 1 {
								cn = w.incoming()
							}
							vtime.Sleep(time.Millisecond)
							before := vtime.Now()
							cn.Feed(pong(h, p, 4).frame())
							idle()
							last[i] = ss[i].LastPongTime()
							if last[i].Before(before) || last[i].After(vtime.Now()) {
								return fmt.Errorf("session %d did not see its answer at %v but at %v", i, before, last[i])
							}
							asked++
							for j, s := range ss {
								// every session after every answer, or with many of them the neighbours and a 32nd of the others
								if near := j-i < 3 && i-j < 3; n > 130 && !near && (j+asked)%32 != 0 {
									continue
								}
								if s != nil && !s.LastPongTime().Equal(last[j]) {
									return fmt.Errorf("after an answer for session %d session %d has the last answer at %v instead of %v", i, j, s.LastPongTime(), last[j])
								}
							}
							return nil
						}
						for _, i := range orders(n)[o] {
							if err := answer(i); err != nil {
								return err
							}
						}
						for i := range ss {
							switch {
							case how/2 == 1 && i%2 == 0:
								ss[i].Close()
								idle()
								if !conn[i].c.Closed() {
									return fmt.Errorf("closing session %d left its connection open", i)
								}
								ss[i] = nil
							case how/2 == 2 && i%3 == 0:
								if err := open(i); err != nil {
									return err
								}
							}
						}
						for i, s := range ss {
							if s == nil {
								continue
							}
							if conn[i].c.Closed() {
								return fmt.Errorf("session %d was closed by others", i)
							}
							if err := answer(i); err != nil {
								return err
							}
						}
						w.ag.Close()
						w.closed = true
						w.finish()
						return nil
					}, func(x *vrt.Exec) error {
						if b := x.Blocked(false); len(b) > 0 {
							return fmt.Errorf("blocked for ever: %v", b)
						}
						return nil
					})
				}) {
					return
				}
			}
		}
	}
	for closing := 0; closing < 2; closing++ {
		closing := closing
		if !c.Case(func() string {
			return fmt.Sprintf("500 sessions in a row, each closed before the next %v", closing == 1)
		}, func() error {
			c.Step(500)
			return seqCfg(longCfg, func(x *vrt.Exec) error {
				w := newLW(x, "9.9.9.9:99", ldefault())
				in := w.incoming()
				h, p, a := lend(1)
				for i := 0; i < 500; i++ {
					s, err := w.ag.Establish(a)
					if err != nil {
						return fmt.Errorf("session %d: %v", i, err)
					}
					q := w.pingGo(s, context.Background())
					idle()
					in.Feed(pong(h, p, 4).frame())
					idle()
					if !q.done || q.err != nil {
						return fmt.Errorf("session %d: ping returned %v, %v after its answer", i, q.done, q.err)
					}
					if closing == 1 {
						s.Close()
					}
				}
				w.ag.Close()
				w.closed = true
				w.finish()
				return nil
			}, nil)
		}) {
			return
		}
	}
}

// ---------------------------------------------------------------- federation

func init() {
	add(&Scenario{Prop: "F04", Name: "many", Shards: 4, Bounds: "1 to 70 (thorough 129) partners in 4 layouts on the ring (dense, even, around zero, clustered): every target at, one below and one above each of them, routed and direct",
		Enum: enumF04many})
	add(&Scenario{Prop: "F06", Name: "many", Shards: 4, Bounds: "1 to 70 (thorough 129) partners sent to at once, twice each, every second or third connection broken in between; then the node is closed; 500 sends in a row with the connection broken after every third",
		Enum: enumF06many})
	add(&Scenario{Prop: "F07", Name: "many", Shards: 4, Bounds: "1 to 70 (thorough 129) routed requests waiting at once to 1 or as many partners, answered in 3 orders over their own, one other or an accepted connection, every third with an error code, every fourth cancelled",
		Enum: enumF07many})
	add(&Scenario{Prop: "F08", Name: "many", Shards: 4, Bounds: "1 to 70 (thorough 129) partners announced at once or one in each round, or 1 to 70 (thorough 129) seeds, each probed and returned once",
		Enum: enumF08many})
}

func ringAt(layout, i, n int) federation.NodeID {
	switch layout {
	case 0:
		return nid(0, uint64(5000+i*3))
	case 1:
		return nid(uint64(i)*(^uint64(0)/uint64(n))+3, 7)
	case 2:
		return nidAdd(nid(0, 0), int64(i-n/2)*5+2)
	}
	return nid(uint64(i%5)<<61, ^uint64(0)-uint64(i))
}

func fpartner(i int, id federation.NodeID) wPartner {
	p := partner(id, uint64(i+1), phJoining)
	p.Address = fmt.Sprintf("n%d:1", i)
	return p
}

func enumF04many(c *Ctx) {
	for _, n := range fwidths(c) {
		for layout := 0; layout < 4; layout++ {
			for o := 0; o < 3; o++ {
				n, layout, o := n, layout, o
				if !c.Case(func() string { return fmt.Sprintf("%d partners, layout %d, order %d", n, layout, o) }, func() error {
					c.Step(n)
					c.Obs(n, layout, o)
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						seed := seedAt(nid(3, 3), "seed:1")
						w := newFW(x, selfInst, seed)
						w.quiet = true
						in := w.incoming()
						ps := []wPartner{seedPartner(seed)}
						for k, i := range orders(n)[o] {
							p := fpartner(i, ringAt(layout, i, n))
							ps = append(ps, p)
							in.Feed(announce(k+1, p).frame(plainOpt))
						}
						idle()
						for _, p := range ps {
							for d := int64(-1); d <= 1; d++ {
								to := nidAdd(p.Instance.Id, d)
								want := nearestOf(ps, to)
								before := w.counts()
								ctx, cancel := vctx.WithTimeout(context.Background(), time.Millisecond)
								w.n.Route(ctx, to, toMsg(&rmsg{actor: 9, action: "r"}))
								cancel()
								idle()
								if got := w.sentTo(before); got != want.Address {
									return fmt.Errorf("a message routed to %v went to %q instead of %q", to, got, want.Address)
								}
								before = w.counts()
								err := w.n.SendOneWay(to, toMsg(&rmsg{actor: 9, action: "d"}))
								idle()
								got, exact := w.sentTo(before), ""
								if want.Instance.Id == to {
									exact = want.Address
								}
								if got != exact || (err == nil) != (exact != "") {
									return fmt.Errorf("a direct message to %v went to %q (error %v) instead of %q", to, got, err, exact)
								}
							}
						}
						w.finish()
						return nil
					}, nil)
				}) {
					return
				}
			}
		}
	}
}

func nearestOf(ps []wPartner, to federation.NodeID) wPartner {
	best, bd := -1, nid(0, 0)
	for i, p := range ps {
		d := nidSub(p.Instance.Id, to)
		if best < 0 || d.Hi < bd.Hi || d.Hi == bd.Hi && d.Lo < bd.Lo {
			best, bd = i, d
		}
	}
	return ps[best]
}

func nidSub(a, b federation.NodeID) federation.NodeID {
	lo := a.Lo - b.Lo
	hi := a.Hi - b.Hi
	if a.Lo < b.Lo {
		hi--
	}
	return nid(hi, lo)
}

// counts is the number of bytes sent per dialled connection.
func (w *fworld) counts() map[*fdial]int {
	m := map[*fdial]int{}
	for _, y := range w.dials {
		if y.c != nil {
			m[y] = len(y.c.Sent())
		}
	}
	return m
}

// sentTo names the partners something was sent to since, and how often if more than once.
func (w *fworld) sentTo(before map[*fdial]int) string {
	var to []string
	for _, y := range w.dials {
		if y.c == nil {
			continue
		}
		b := y.c.Sent()[before[y]:]
		ms, rest, err := parseStream(b, plainOpt)
		if err != nil || len(rest) > 0 {
			return fmt.Sprint("damaged stream to ", y.addr)
		}
		if before[y] == 0 && len(ms) > 0 {
			ms = ms[1:]
		}
		for range ms {
			to = append(to, y.addr)
		}
	}
	return strings.Join(to, " ")
}

func enumF06many(c *Ctx) {
	for _, n := range fwidths(c) {
		for every := 1; every <= 3; every++ {
			for how := 0; how < 2; how++ {
				n, every, how := n, every, how
				if !c.Case(func() string { return fmt.Sprintf("%d partners, every %d. broken, way %d", n, every, how) }, func() error {
					c.Step(n)
					c.Obs(n, every, how)
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						seed := seedAt(nid(3, 3), "seed:1")
						w := newFW(x, selfInst, seed)
						w.quiet = true
						in := w.incoming()
						var ps []wPartner
						for i := 0; i < n; i++ {
							ps = append(ps, fpartner(i, ringAt(0, i, n)))
						}
						in.Feed(announce(1, ps...).frame(plainOpt))
						idle()
						round := func() error {
							done, errs := 0, []error{}
							for _, p := range ps {
								id := p.Instance.Id
								for k := 0; k < 2; k++ {
									f := func() {
										if err := w.n.SendOneWay(id, toMsg(&rmsg{actor: 9, action: "s"})); err != nil {
											errs = append(errs, err)
										}
										done++
									}
									if how == 0 {
										f()
									} else {
										vrt.GoNamed("send", f)
									}
								}
							}
							idle()
							if done != 2*n || len(errs) > 0 {
								return fmt.Errorf("%d of %d sends returned, errors %v", done, 2*n, errs)
							}
							return nil
						}
						count := func() map[string]int {
							m := map[string]int{}
							for _, a := range w.tries {
								m[a]++
							}
							return m
						}
						want := map[string]int{}
						for r := 0; r < 4; r++ {
							for i, p := range ps {
								if r == 0 || r > 1 && i%every == 0 {
									want[p.Address]++
								}
							}
							before := w.counts()
							if err := round(); err != nil {
								return fmt.Errorf("round %d: %v", r, err)
							}
							if g, w := fmt.Sprint(count()), fmt.Sprint(want); g != w {
								return fmt.Errorf("round %d: dialled %s instead of %s", r, g, w)
							}
							if k := len(strings.Fields(w.sentTo(before))); k != 2*n {
								return fmt.Errorf("round %d: %d messages sent instead of %d", r, k, 2*n)
							}
							for i, p := range ps {
								if r >= 1 && i%every == 0 {
									for _, y := range w.dials {
										if y.addr == p.Address && !y.c.Closed() {
											if (i+r)%2 == 0 {
												y.c.FeedEOF()
											} else {
												y.c.ResetIn()
											}
										}
									}
								}
							}
							idle()
						}
						w.finish()
						idle()
						for _, y := range w.dials {
							if !y.c.Closed() {
								return fmt.Errorf("the connection to %s is open after closing the node", y.addr)
							}
						}
						return nil
					}, func(x *vrt.Exec) error {
						if b := x.Blocked(false); len(b) > 0 {
							return fmt.Errorf("blocked for ever: %v", b)
						}
						return nil
					})
				}) {
					return
				}
			}
		}
	}
	c.Case(func() string { return "500 sends in a row" }, func() error {
		c.Step(500)
		return seqCfg(longCfg, func(x *vrt.Exec) error {
			seed := seedAt(nid(3, 3), "seed:1")
			w := newFW(x, selfInst, seed)
			w.quiet = true
			for i := 0; i < 500; i++ {
				before := w.counts()
				if err := w.n.SendOneWay(seed.Id, toMsg(&rmsg{actor: 9, action: "s"})); err != nil {
					return fmt.Errorf("send %d: %v", i, err)
				}
				idle()
				if w.sentTo(before) != seed.Address || len(w.tries) != i/3+1 {
					return fmt.Errorf("send %d: sent to %q, %d dials", i, w.sentTo(before), len(w.tries))
				}
				if i%3 == 2 {
					w.dials[len(w.dials)-1].c.FeedEOF()
					idle()
				}
			}
			w.finish()
			return nil
		}, nil)
	})
}

func enumF07many(c *Ctx) {
	for _, n := range fwidths(c) {
		for o := 0; o < 3; o++ {
			for how := 0; how < 6; how++ {
				n, o, how := n, o, how
				if !c.Case(func() string { return fmt.Sprintf("%d requests, order %d, way %d", n, o, how) }, func() error {
					c.Step(n)
					c.Obs(n, o, how)
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						seed := seedAt(nid(3, 3), "seed:1")
						w := newFW(x, selfInst, seed)
						w.quiet = true
						in := w.incoming()
						var ps []wPartner
						np := 1
						if how >= 3 {
							np = n
						}
						for i := 0; i < np; i++ {
							ps = append(ps, fpartner(i, ringAt(0, i, n)))
						}
						in.Feed(announce(1, ps...).frame(plainOpt))
						idle()
						var rs []*pendReq
						for i := 0; i < n; i++ {
							ctx, cancel := vctx.WithCancel(context.Background())
							r := &pendReq{cancel: cancel}
							rs = append(rs, r)
							to, i := ps[i%np].Instance.Id, i
							vrt.GoNamed("route", func() {
								m, err := w.n.Route(ctx, to, toMsg(&rmsg{id: mid(i + 1), actor: 9, action: "ask"}))
								if r.err = err; err == nil {
									r.rep = fromReply(m)
								}
								r.done = true
							})
						}
						idle()
						if len(w.dials) != np {
							return fmt.Errorf("%d partners, %d dials", np, len(w.dials))
						}
						sent := 0
						for _, y := range w.dials {
							ms, err := y.sent()
							if err != nil {
								return err
							}
							sent += len(ms)
						}
						if sent != n {
							return fmt.Errorf("%d of %d requests sent", sent, n)
						}
						for k, i := range orders(n)[o] {
							cn := in
							switch how % 3 {
							case 1:
								cn = w.dials[0].c
							case 2:
								cn = w.dials[i%np].c
							}
							m := answerTo(i + 1)
							switch {
							case k%4 == 3:
								rs[i].cancel()
								idle()
								if !rs[i].done || !errors.Is(rs[i].err, context.Canceled) {
									return fmt.Errorf("cancelled request %d: returned %v, %v", i, rs[i].done, rs[i].err)
								}
								cn.Feed(m.frame(plainOpt)) // late
							case k%3 == 2:
								m.errc = errTimeout
								cn.Feed(m.frame(plainOpt))
								idle()
								if !rs[i].done || rs[i].err == nil {
									return fmt.Errorf("refused request %d: returned %v, %v", i, rs[i].done, rs[i].err)
								}
							default:
								cn.Feed(m.frame(plainOpt))
								idle()
								if err := rs[i].must(i + 1); err != nil {
									return err
								}
							}
							for _, j := range orders(n)[o][k+1:] {
								if rs[j].done {
									return fmt.Errorf("request %d returned before its reply: %v", j, rs[j].err)
								}
							}
						}
						for _, r := range rs {
							r.cancel()
						}
						w.finish()
						return nil
					}, func(x *vrt.Exec) error {
						if b := x.Blocked(false); len(b) > 0 {
							return fmt.Errorf("blocked for ever: %v", b)
						}
						return nil
					})
				}) {
					return
				}
			}
		}
	}
}

func enumF08many(c *Ctx) {
	for _, n := range fwidths(c) {
		for how := 0; how < 4; how++ {
			n, how := n, how
			if !c.Case(func() string { return fmt.Sprintf("%d nodes, way %d", n, how) }, func() error {
				c.Step(n)
				c.Obs(n, how)
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					var seeds []federation.SeedNodeInfo
					ns := 1
					if how == 3 {
						ns = n
					}
					want := map[federation.NodeID]uint64{}
					for i := 0; i < ns; i++ {
						s := seedAt(nid(3, uint64(3+i)), fmt.Sprintf("seed:%d", i))
						seeds = append(seeds, s)
						want[s.Id] = 0
					}
					w := newFW(x, selfInst, seeds...)
					w.quiet = true
					in := w.incoming()
					var ps []wPartner
					if how < 3 {
						for i := 0; i < n; i++ {
							p := fpartner(i, ringAt(1, i, n))
							ps = append(ps, p)
							want[p.Instance.Id] = p.Instance.InstanceId
						}
					}
					if how == 0 {
						in.Feed(announce(1, ps...).frame(plainOpt))
					}
					idle()
					done := false
					var res []federation.PartnerNodeInfo
					var err error
					vrt.GoNamed("discover", func() {
						res, err = w.n.Discover(context.Background())
						done = true
					})
					idle()
					switch how {
					case 1:
						in.Feed(announce(1, ps...).frame(plainOpt))
						idle()
					case 2:
						for i, p := range ps {
							in.Feed(announce(i+1, p).frame(plainOpt))
							vtime.Sleep(time.Second)
							if done {
								return fmt.Errorf("discovery ended after the news of round %d", i)
							}
						}
					}
					vtime.Sleep(time.Minute)
					if !done || err != nil {
						return fmt.Errorf("discovery: returned %v, %v", done, err)
					}
					for _, p := range res {
						inst, ok := want[p.Instance.Id]
						if !ok || inst != p.Instance.InstanceId {
							return fmt.Errorf("returned %v once more or with another instance", p.Instance)
						}
						delete(want, p.Instance.Id)
					}
					if len(want) > 0 {
						return fmt.Errorf("%d nodes were not returned, one of them %v", len(want), want)
					}
					probed := map[string]bool{}
					for _, y := range w.dials {
						if ms, err := y.sent(); err == nil && len(ms) > 0 {
							probed[y.addr] = true
						}
					}
					if len(probed) != n && how == 3 || len(probed) != n+1 && how < 3 {
						return fmt.Errorf("%d nodes were probed", len(probed))
					}
					w.finish()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- naming

func init() {
	add(&Scenario{Prop: "N01", Name: "many", Shards: 2, Bounds: "application lists of 0 to 300 entries, with 0 to 70 parameters; 1 to 300 (thorough 1025) operations waiting at once answered in 3 orders; 2000 operations in a row",
		Enum: enumN01many})
	add(&Scenario{Prop: "N02", Name: "many", Shards: 4, Bounds: "1 to 300 (thorough 1025) notifications at once with handlers that block until all have arrived, 3000 notifications in a row, 1 to 300 (thorough 1025) registrations at once answered in 3 orders, 1000 in a row",
		Enum: enumN02many})
}

func (w *nw) op(op string) (*pendReq, *string) {
	p, res := &pendReq{}, new(string)
	vrt.GoNamed(op, func() {
		*res, p.err = w.call(op, context.Background())
		p.done = true
	})
	return p, res
}

func enumN01many(c *Ctx) {
	mk := func(i int) wApp {
		return wApp{Name: common.Uri{Scheme: "fabric", Path: fmt.Sprint("/app", i), PathSegments: []string{fmt.Sprint("app", i)}}, Type: fmt.Sprint("T", i%7), Version: "1.0", Status: int64(i), Health: int64(-i)}
	}
	for n := 0; n <= 300; n++ {
		if n > 70 && n%23 != 0 && (n&(n-1)) != 0 {
			continue
		}
		n := n
		if !c.Case(func() string { return fmt.Sprintf("%d applications", n) }, func() error {
			c.Step(n)
			c.Obs(n)
			return seqCfg(longCfg, func(x *vrt.Exec) error {
				w := newNW(x, false)
				l := &wApps{}
				for i := 0; i < n; i++ {
					a := mk(i)
					if i == n/2 {
						a.Params = map[string]string{}
						for k := 0; k < n%71; k++ {
							a.Params[fmt.Sprint("k", k)] = fmt.Sprint(k)
						}
					}
					l.List = append(l.List, a)
				}
				p, got := w.op("GetApplicationList")
				idle()
				ms, e := w.sent()
				if e != nil || len(ms) != 1 {
					return fmt.Errorf("%d requests: %v", len(ms), e)
				}
				w.c.Feed((&rmsg{id: mid(9), rel: ms[0].id, actor: actNaming, action: nReplies["GetApplicationList"], body: refMarshal(&wAppReply{Kind: 1, List: l})}).frame(plainOpt))
				idle()
				if !p.done || p.err != nil || *got != appsKey(l.List) {
					return fmt.Errorf("listing %d applications: returned %v, %v: %s", n, p.done, p.err, *got)
				}
				w.c.FeedEOF()
				return nil
			}, nil)
		}) {
			return
		}
	}
	for _, n := range widths(c) {
		for o := 0; o < 3; o++ {
			n, o := n, o
			if !c.Case(func() string { return fmt.Sprintf("%d operations at once, order %d", n, o) }, func() error {
				c.Step(n)
				c.Obs(n, o)
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					w := newNW(x, false)
					ops := []string{"Ping", "GetApplicationList"}
					var ps []*pendReq
					for i := 0; i < n; i++ {
						p, _ := w.op(ops[i%2])
						ps = append(ps, p)
						idle()
					}
					ms, err := w.sent()
					if err != nil || len(ms) != n {
						return fmt.Errorf("%d of %d requests: %v", len(ms), n, err)
					}
					for _, i := range orders(n)[o] {
						r := &rmsg{id: mid(9), rel: ms[i].id, actor: actNaming, action: nReplies[ops[i%2]], body: goodBody(ops[i%2])}
						if i%5 == 4 {
							r.action, r.body = failAction, refMarshal(&wFail{5})
						}
						w.c.Feed(r.frame(plainOpt))
						idle()
						if !ps[i].done || (ps[i].err == nil) != (i%5 != 4) {
							return fmt.Errorf("operation %d after its answer: returned %v, %v", i, ps[i].done, ps[i].err)
						}
					}
					w.c.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

func enumN02many(c *Ctx) {
	for _, n := range append(widths(c), 3000) {
		for how := 0; how < 3; how++ {
			n, how := n, how
			if n == 3000 && how == 2 {
				continue
			}
			if !c.Case(func() string { return fmt.Sprintf("%d notifications, way %d", n, how) }, func() error {
				c.Step(n)
				c.Obs(n, how)
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					w := newNW(x, how == 0)
					w.c.NoPoint = true
					var got []string
					if how > 0 {
						w.n.OnServiceNotification = func(s *naming.ServiceNotification) {
							got = append(got, notifKey(s))
							if how == 2 {
								vrt.Block("all", func() bool { return len(got) == n })
							}
						}
					}
					want := map[transport.MessageId]int{}
					var del []string
					for i := 0; i < n; i++ {
						nt := notifications()[i%2]
						nt.Page.Page = uint64(i)
						m := &rmsg{id: mid(20 + i), actor: actNaming, action: notifAction, expect: true, body: refMarshal(&wNotifBody{&nt})}
						want[m.id] = 1
						del = append(del, nt.key())
						w.c.Feed(m.frame(plainOpt))
						if i%50 == 49 {
							idle()
						}
					}
					idle()
					if how == 0 {
						for _, g := range w.got {
							got = append(got, notifKey(g))
						}
					}
					if !sameSet(got, del) {
						return fmt.Errorf("%d notifications delivered of %d, or others", len(got), len(del))
					}
					if err := w.acks(want, nil); err != nil {
						return err
					}
					w.c.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
	for _, n := range append(widths(c), 1000) {
		for o := 0; o < 3; o++ {
			n, o := n, o
			if n == 1000 && o > 0 {
				continue
			}
			if !c.Case(func() string { return fmt.Sprintf("%d registrations, order %d", n, o) }, func() error {
				c.Step(n)
				c.Obs(n, o)
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					w := newNW(x, false)
					w.c.NoPoint = true
					ids := map[uint64]bool{}
					type reg struct {
						pendReq
						id uint64
					}
					start := func(i int) *reg {
						r := &reg{}
						vrt.GoNamed("register", func() {
							r.id, r.err = w.n.RegisterFilter(context.Background(), common.Uri{Path: fmt.Sprint("/", i)}, i%2 == 0, i%3 == 0)
							r.done = true
						})
						return r
					}
					at := 0
					news := func() ([]*rmsg, error) {
						ms, rest, err := parseStream(w.c.Sent()[at:], plainOpt)
						if at == 0 && len(ms) > 0 {
							ms = ms[1:]
						}
						at = len(w.c.Sent()) - len(rest)
						return ms, err
					}
					answer := func(m *rmsg) error {
						op := "RegisterFilter"
						if m.action == nActions["RegisterFilter2"] {
							op += "2"
						}
						r := &rmsg{id: mid(70), rel: m.id, actor: actNaming, action: nReplies[op]}
						if op == "RegisterFilter" {
							r.body = goodBody(op)
						}
						w.c.Feed(r.frame(plainOpt))
						return nil
					}
					check := func(r *reg, q *rmsg) error {
						var b wRegReq
						if err := w.body("RegisterFilter2", q, &b); err != nil {
							return err
						}
						if !r.done || r.err != nil || r.id != b.Filter.FilterId || ids[r.id] {
							return fmt.Errorf("registration returned %v, %v with id %d (requested %d, handed out before %v)", r.done, r.err, r.id, b.Filter.FilterId, ids[r.id])
						}
						ids[r.id] = true
						return nil
					}
					if n == 1000 {
						for i := 0; i < n; i++ {
							r := start(i)
							idle()
							ms, err := news()
							if err != nil || len(ms) != 1 {
								return fmt.Errorf("registration %d: %d requests, %v", i, len(ms), err)
							}
							answer(ms[0])
							idle()
							if ms, err = news(); err != nil || len(ms) != 1 {
								return fmt.Errorf("registration %d: %d requests, %v", i, len(ms), err)
							}
							answer(ms[0])
							idle()
							if err := check(r, ms[0]); err != nil {
								return err
							}
						}
						w.c.FeedEOF()
						return nil
					}
					var rs []*reg
					for i := 0; i < n; i++ {
						rs = append(rs, start(i))
						idle()
					}
					ms, err := news()
					if err != nil || len(ms) != n {
						return fmt.Errorf("%d requests for %d registrations: %v", len(ms), n, err)
					}
					for _, i := range orders(n)[o] {
						answer(ms[i])
						idle()
					}
					if ms, err = news(); err != nil || len(ms) != n {
						return fmt.Errorf("%d second requests for %d registrations: %v", len(ms), n, err)
					}
					for k, i := range orders(n)[o] {
						answer(ms[k])
						idle()
						if err := check(rs[i], ms[k]); err != nil {
							return err
						}
					}
					w.c.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}
