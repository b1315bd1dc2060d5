package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

func init() {
	add(&Scenario{Prop: "T08", Name: "long", Shards: 4, Bounds: "70000 (thorough 300000) automatic identities in a row on one connection (one-way, every 100th a request, every 30th given by the caller) and from one generator; 1 to 300 (thorough 1025) connections and generators at once",
		Enum: enumT08long})
	add(&Scenario{Prop: "T11", Name: "long", Shards: 4, Bounds: "per TLS version, mutual or not: 1000 (thorough 10000) requests of 0 to 40000 bytes in a row, and 1 to 300 at once answered in 3 orders",
		Enum: enumT11long})
	add(&Scenario{Prop: "T13", Name: "types", Shards: 2, Bounds: "every one of the 65536 header types but the message's own fields, the invalid one and those with registered decoders, 1 to 3 raw values each, alone and with 255 others in one message: on the wire and received as sent",
		Enum: func(c *Ctx) { enumTypes(c, false) }})
	add(&Scenario{Prop: "T10", Name: "types", Shards: 2, Bounds: "the same 65536 header types in messages relayed in both directions, also with extreme retry counts and fault codes, with and without a filter that keeps them",
		Enum: func(c *Ctx) { enumTypes(c, true) }})
	add(&Scenario{Prop: "F05", Name: "many", Shards: 4, Bounds: "1 to 70 (thorough 129) seeds with every, every second, every third or no one unreachable, 4 rounds; 1 to 300 rounds with two seeds and as many joining partners; then a routing announcement or cancellation",
		Enum: enumF05many})
}

func enumT08long(c *Ctx) {
	total := 70000
	if c.Thorough {
		total = 300000
	}
	fresh := func(seen map[transport.MessageId]bool, id transport.MessageId) error {
		if id.IsEmpty() {
			return fmt.Errorf("identity %d is empty", len(seen))
		}
		if seen[id] {
			return fmt.Errorf("identity %d (%v) was used before", len(seen), id)
		}
		seen[id] = true
		return nil
	}
	for mode := 0; mode < 3; mode++ {
		mode := mode
		if !c.Case(func() string { return fmt.Sprintf("%d in a row, mode %d", total, mode) }, func() error {
			c.Step(total)
			c.Obs(mode)
			seen := map[transport.MessageId]bool{}
			return seqCfg(longCfg, func(x *vrt.Exec) error {
				if mode == 0 {
					g, err := transport.NewMessageIdGenerator()
					if err != nil {
						return err
					}
					pre := g.Next()
					seen[pre] = true
					for i := 0; i < total; i++ {
						id := g.Next()
						if id.Id != pre.Id {
							return fmt.Errorf("identity %d has prefix %v, the first %v", i, id.Id, pre.Id)
						}
						if err := fresh(seen, id); err != nil {
							return err
						}
					}
					return nil
				}
				w := newTW(x, transport.Config{}, mode == 2)
				w.a.NoPoint = true
				at := len(w.a.Sent())
				n := 0
				take := func() ([]*rmsg, error) {
					ms, rest, err := parseStream(w.a.Sent()[at:], plainOpt)
					at = len(w.a.Sent()) - len(rest)
					return ms, err
				}
				for i := 0; i < total; i++ {
					m := &transport.Message{}
					m.Headers.Action = "x"
					switch {
					case i%100 == 99:
						if err := func() error {
							done := false
							var rerr error
							vrt.Go(func() {
								_, rerr = w.cl.RequestReply(context.Background(), m)
								done = true
							})
							idle()
							ms, err := take()
							if err != nil || len(ms) == 0 {
								return fmt.Errorf("message %d: nothing sent: %v", i, err)
							}
							for _, q := range ms {
								n++
								if err := fresh(seen, q.id); err != nil {
									return err
								}
							}
							q := ms[len(ms)-1]
							w.a.Feed((&rmsg{id: mid(7), rel: q.id, action: "re"}).frame(plainOpt))
							idle()
							if !done || rerr != nil {
								return fmt.Errorf("message %d: answered request returned %v, %v", i, done, rerr)
							}
							return nil
						}(); err != nil {
							return err
						}
						continue
					case i%30 == 29:
						m.Headers.Id = mid(1000 + i)
					}
					if err := w.cl.SendOneWay(m); err != nil {
						return err
					}
				}
				ms, err := take()
				if err != nil {
					return err
				}
				for _, q := range ms {
					n++
					if err := fresh(seen, q.id); err != nil {
						return err
					}
				}
				if n != total {
					return fmt.Errorf("%d messages on the wire of %d", n, total)
				}
				w.a.FeedEOF()
				return nil
			}, nil)
		}) {
			return
		}
	}
	for _, n := range widths(c) {
		n := n
		if !c.Case(func() string { return fmt.Sprintf("%d connections and generators", n) }, func() error {
			c.Step(n)
			c.Obs(n)
			seen := map[transport.MessageId]bool{}
			return seqCfg(longCfg, func(x *vrt.Exec) error {
				var ws []*tw
				for i := 0; i < n; i++ {
					ws = append(ws, newTW(x, transport.Config{}, i%2 == 1))
					g, err := transport.NewMessageIdGenerator()
					if err != nil {
						return err
					}
					for k := 0; k < 3; k++ {
						if err := fresh(seen, g.Next()); err != nil {
							return err
						}
					}
				}
				for k := 0; k < 3; k++ {
					for _, w := range ws {
						m := &transport.Message{}
						m.Headers.Action = "x"
						if err := w.cl.SendOneWay(m); err != nil {
							return err
						}
					}
				}
				for i, w := range ws {
					ms, _ := w.wire()
					if len(ms) < 3 {
						return fmt.Errorf("connection %d sent %d messages", i, len(ms))
					}
					for _, m := range ms[len(ms)-3:] {
						if err := fresh(seen, m.id); err != nil {
							return err
						}
					}
					w.a.FeedEOF()
				}
				return nil
			}, nil)
		}) {
			return
		}
	}
}

func enumT11long(c *Ctx) {
	sizes := []int{0, 1, 40, 300, 4000, 16383, 16384, 16385, 40000}
	row := 1000
	if c.Thorough {
		row = 10000
	}
	for _, v := range tlsVersions {
		for m := 0; m < 2; m++ {
			for _, n := range []int{row, 1, 2, 17, 64, 65, 128, 300} {
				for o := 0; o < 3; o++ {
					if n == row && o > 0 {
						continue
					}
					v, m, n, o := v, m, n, o
					if !c.Case(func() string { return fmt.Sprintf("version %x mutual %d: %d requests, order %d", v, m, n, o) }, func() error {
						c.Step(n)
						c.Obs(v, m, n, o)
						cc, sc := tlsConf(v, m == 1)
						return seqCfg(longCfg, func(x *vrt.Exec) error {
							a, b := vnet.Pipe("client", "server")
							a.NoPoint, b.NoPoint = true, true
							l := vnet.NewListener("srv")
							scfg, ccfg := transport.Config{TLS: sc}, transport.Config{TLS: cc}
							mk := func(i int) *rmsg {
								q := &rmsg{id: mid(i + 1), actor: 7, action: "long", custom: []rhdr{{0x8036, []byte(fmt.Sprint(i))}}, expect: true}
								if s := sizes[i%len(sizes)]; s > 0 {
									q.body = make([]byte, s)
									for k := range q.body {
										q.body[k] = byte(k*3 + i)
									}
								}
								return q
							}
							got := 0
							var bad error
							var held []*rmsg
							var sconn transport.Conn
							re := func(q *rmsg, at int) error {
								return sconn.SendOneWay(toMsg(&rmsg{id: mid(1<<20 + at), rel: q.id, actor: 8, action: "re", body: q.body, custom: q.custom}))
							}
							s, err := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, mm *transport.ByteArrayMessage) {
								sconn = cn
								q := fromHeaders(&mm.Headers, mm.Body, hdrTypes)
								if w := mk(got).key(); bad == nil && q.key() != w {
									bad = fmt.Errorf("request %d arrived as\n%s\nsent\n%s", got, q.key(), w)
								}
								got++
								if n == row {
									if err := re(q, got); err != nil {
										bad = err
									}
								} else {
									held = append(held, q)
								}
							}})
							if err != nil {
								return err
							}
							vrt.GoNamed("serve", func() { vrt.Daemon(); s.Serve() })
							l.Queue(b)
							cl, err := transport.Connect(a, transport.ClientConfig{Config: ccfg})
							if err != nil {
								return err
							}
							vrt.GoNamed("wait", func() { cl.Wait() })
							check := func(i int, rep *transport.ByteArrayMessage, err error) error {
								if bad != nil {
									return bad
								}
								if err != nil {
									return fmt.Errorf("request %d failed: %v", i, err)
								}
								q, r := mk(i), fromHeaders(&rep.Headers, rep.Body, hdrTypes)
								r.id = transport.MessageId{}
								if g, w := r.key(), (&rmsg{rel: q.id, actor: 8, action: "re", body: q.body, custom: q.custom}).key(); g != w {
									return fmt.Errorf("request %d was answered with\n%s\nwant\n%s", i, g, w)
								}
								return nil
							}
							if n == row {
								for i := 0; i < n; i++ {
									rep, err := cl.RequestReply(context.Background(), toMsg(mk(i)))
									if err := check(i, rep, err); err != nil {
										return err
									}
								}
							} else {
								reps := make([]*transport.ByteArrayMessage, n)
								errs := make([]error, n)
								for i := 0; i < n; i++ {
									i := i
									vrt.Go(func() { reps[i], errs[i] = cl.RequestReply(context.Background(), toMsg(mk(i))) })
									idle()
								}
								if bad != nil {
									return bad
								}
								if len(held) != n {
									return fmt.Errorf("%d requests received of %d", len(held), n)
								}
								for k, i := range orders(n)[o] {
									if err := re(held[i], k); err != nil {
										return err
									}
								}
								idle()
								for i := range reps {
									if reps[i] == nil && errs[i] == nil {
										return fmt.Errorf("request %d was not answered", i)
									}
									if err := check(i, reps[i], errs[i]); err != nil {
										return err
									}
								}
							}
							cl.Close()
							return nil
						}, nil)
					}) {
						return
					}
				}
			}
		}
	}
}

func enumF05many(c *Ctx) {
	type run struct{ seeds, down, rounds, joining int }
	var runs []run
	for _, n := range fwidths(c) {
		for d := 0; d < 4; d++ {
			runs = append(runs, run{n, d, 4, 0})
		}
	}
	for _, r := range []int{1, 2, 10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
		for d := 0; d < 4; d++ {
			runs = append(runs, run{2, d, r, r % 70})
		}
	}
	for _, k := range runs {
		for end := 0; end < 2; end++ {
			k, end := k, end
			if !c.Case(func() string { return fmt.Sprintf("%+v, end %d", k, end) }, func() error {
				c.Step(k.seeds * k.rounds)
				c.Obs(k, end)
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					d := &f05d{routeAt: -1, cancelAt: -1, down: map[string]bool{}}
					down := map[string]bool{}
					for i := 0; i < k.seeds; i++ {
						a := fmt.Sprintf("seed:%d", i)
						d.seeds = append(d.seeds, seedAt(nid(uint64(i), 5), a))
						down[a] = k.down > 0 && i%k.down == 0
					}
					d.fworld = newFW(x, selfInst, d.seeds...)
					d.quiet = true
					base := vtime.Now()
					d.onDial = func(a string) error {
						if down[a] {
							return errors.New("unreachable")
						}
						return nil
					}
					in := d.incoming()
					idle()
					var js []wPartner
					for i := 0; i < k.joining; i++ {
						js = append(js, partner(nid(uint64(i)<<50, 900), uint64(i+1), phJoining))
					}
					if len(js) > 0 {
						in.Feed(announce(1, js...).frame(plainOpt))
						idle()
					}
					ctx, cancel := vctx.WithCancel(context.Background())
					defer cancel()
					vrt.GoNamed("boot", func() { d.bootstrap(ctx, base) })
					probes := func() (map[string]int, error) {
						got := map[string]int{}
						for _, y := range d.dials {
							if y.err != nil {
								got[y.addr]++
								continue
							}
							ms, err := y.sent()
							if err != nil {
								return nil, err
							}
							got[y.addr] += len(ms)
						}
						return got, nil
					}
					for r := 0; r < k.rounds; r++ {
						vtime.Sleep(30*time.Second + time.Millisecond)
						if r%50 == 0 || r == k.rounds-1 {
							got, err := probes()
							if err != nil {
								return err
							}
							for _, s := range d.seeds {
								if got[s.Address] < r+1 {
									return fmt.Errorf("seed %s was probed %d times in %v", s.Address, got[s.Address], now(base))
								}
							}
						}
						if d.done {
							return fmt.Errorf("Bootstrap returned %v at %v without a routing partner", d.err, now(base))
						}
					}
					if end == 0 {
						in.Feed(announce(2, partner(idC, 5, phRouting)).frame(plainOpt))
						idle()
						if !d.done {
							vtime.Sleep(29 * time.Second)
						}
						if !d.done || d.err != nil {
							return fmt.Errorf("routing partner announced: Bootstrap returned %v, %v", d.done, d.err)
						}
					} else {
						cancel()
						idle()
						if !d.done || !errors.Is(d.err, context.Canceled) {
							return fmt.Errorf("cancelled: Bootstrap returned %v, %v", d.done, d.err)
						}
					}
					if n := len(d.n.KnownPartnerNodes(func(federation.PartnerNodeInfo) bool { return true })); n < k.joining {
						return fmt.Errorf("%d partners known, %d announced", n, k.joining)
					}
					d.finish()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

// rawTypes are the header types whose values are opaque, in batches of n.
func rawTypes(n int) [][]uint16 {
	var out [][]uint16
	var cur []uint16
	for t := 0; t < 65536; t++ {
		if t >= 0x8000 && t <= 0x8009 || t == 0x800c || t == 0x8010 || t == 0x8013 || t == regType {
			continue
		}
		if cur = append(cur, uint16(t)); len(cur) == n || t == 65535 {
			out, cur = append(out, cur), nil
		}
	}
	return out
}

func enumTypes(c *Ctx, proxy bool) {
	mk := func(i int, ts []uint16) *rmsg {
		m := &rmsg{id: mid(i + 1), actor: 9, action: "keep", body: []byte{1, 2}}
		m.retry = []int32{0, -1, -1 << 31, 1<<31 - 1, 5}[i%5]
		m.errc = []int64{0, -1, 1 << 40, 0, -1 << 63}[i%5]
		for k, t := range ts {
			for v := 0; v <= (k+i)%3; v++ {
				m.custom = append(m.custom, rhdr{t, []byte(fmt.Sprintf("%x/%d", t, v))[:(k+v)%5]})
			}
		}
		return m
	}
	type batch struct {
		w  int
		ts [][]uint16
	}
	var bs []batch
	for _, w := range []int{1, 256} {
		all := rawTypes(w)
		for len(all) > 0 {
			n := 1024 / w
			if n > len(all) {
				n = len(all)
			}
			bs = append(bs, batch{w, all[:n]})
			all = all[n:]
		}
	}
	for _, b := range bs {
		for f := 0; f < 2; f++ {
			if f == 1 && !proxy {
				continue
			}
			b, f := b, f
			if !c.Case(func() string { return fmt.Sprintf("%d types per message from %#x, filter %d", b.w, b.ts[0][0], f) }, func() error {
				c.Step(len(b.ts))
				c.Obs(b.w, b.ts[0][0], f)
				var ms []*rmsg
				for i, ts := range b.ts {
					ms = append(ms, mk(i, ts))
				}
				if proxy {
					var w *pw
					return seqCfg(longCfg, func(x *vrt.Exec) error {
						w = newPW(x, 1, f, transport.Config{}, transport.Config{})
						p := w.pairs[0]
						p.pc.NoPoint, p.pu.NoPoint = true, true
						w.l.Queue(p.pc)
						o := mk(4, b.ts[0])
						o.actor, o.action = actTransport, ""
						p.cSent = append([]*rmsg{o}, ms...)
						p.uSent = ms
						p.pc.Feed(o.frame(plainOpt))
						for _, m := range ms {
							p.pc.Feed(m.frame(plainOpt))
							p.pu.Feed(m.frame(plainOpt))
						}
						idle()
						if p.pc.Closed() || p.pu.Closed() {
							return fmt.Errorf("the proxy closed a healthy pairing")
						}
						p.pc.FeedEOF()
						w.l.Close()
						return nil
					}, func(x *vrt.Exec) error {
						p := w.pairs[0]
						if err := stream("upstream", p.pu.Sent(), plainOpt, p.cSent, f, true); err != nil {
							return err
						}
						return stream("client", p.pc.Sent(), plainOpt, p.uSent, f, true)
					})
				}
				return seqCfg(longCfg, func(x *vrt.Exec) error {
					a, z := vnet.Pipe("a", "z")
					a.NoPoint, z.NoPoint = true, true
					ca, err := transport.Connect(a, transport.ClientConfig{})
					if err != nil {
						return err
					}
					n := 0
					var bad error
					cz, err := transport.Connect(z, transport.ClientConfig{MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
						if n >= len(ms) || bad != nil {
							return
						}
						g := fromHeaders(&m.Headers, m.Body, b.ts[n])
						if g.key() != ms[n].key() {
							bad = fmt.Errorf("arrived\n%s\nsent\n%s", g.key(), ms[n].key())
						}
						for _, t := range b.ts[n] {
							for _, v := range m.Headers.GetCustomHeaders(transport.MessageHeaderIdType(t)) {
								if _, ok := v.([]byte); !ok {
									bad = fmt.Errorf("header type %#x has no registered decoder but was received as %T", t, v)
								}
							}
						}
						n++
					}})
					if err != nil {
						return err
					}
					vrt.GoNamed("recv", func() { cz.Wait() })
					from := len(a.Sent())
					for _, m := range ms {
						if err := ca.SendOneWay(toMsg(m)); err != nil {
							return err
						}
					}
					idle()
					if bad != nil {
						return bad
					}
					if n != len(ms) {
						return fmt.Errorf("%d messages sent, %d delivered", len(ms), n)
					}
					on, rest, err := parseStream(a.Sent()[from:], plainOpt)
					if err != nil || len(rest) > 0 || len(on) != len(ms) {
						return fmt.Errorf("%d messages on the wire, %d bytes left: %v", len(on), len(rest), err)
					}
					for i, m := range on {
						if m.key() != ms[i].key() {
							return fmt.Errorf("on the wire\n%s\nsent\n%s", m.key(), ms[i].key())
						}
					}
					a.FeedEOF()
					z.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}
