package main

// T02 on every kind of receiving end: accepted connections and both sides of a proxy.

import (
	"fmt"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
)

func init() {
	add(&Scenario{Prop: "T02", Name: "ends", Shards: 4,
		Bounds: "a server's connection, a proxy's opening message, its later messages and its upstream x all 16 checksum settings of that side x 16 of the proxy's other side x intact / header checksum off by one bit, absent / body checksum off by one bit, absent / body changed: delivered or relayed exactly when the checks of that side allow it, with the checksums of the other side",
		Enum:   enumT02ends})
}

func enumT02ends(c *Ctx) {
	ends := []string{"server", "opening", "client", "upstream"}
	damages := []string{"intact", "header checksum", "no header checksum", "body checksum", "no body checksum", "body"}
	for e := range ends {
		for s := 0; s < 16; s++ {
			for t := 0; t < 16; t++ {
				if e == 0 && t > 0 {
					continue
				}
				for dm := range damages {
					e, s, t, dm := e, s, t, dm
					if !c.Case(func() string {
						return fmt.Sprintf("%s settings %d other side %d %s damaged", ends[e], s, t, damages[dm])
					}, func() error {
						c.Step(2)
						cfg, ocfg := cfgOf(s), cfgOf(t)
						m := &rmsg{id: mid(7), actor: 9, action: "m", body: []byte("payload")}
						f := m.frame(frameOpt{hcrc: true, bcrc: true})
						ok := true
						switch dm {
						case 1:
							f[5] ^= 1
						case 2:
							f[5] = 0
						case 3:
							f[8] ^= 1
						case 4:
							f[8], f[9], f[10], f[11] = 0, 0, 0, 0
						case 5:
							f[len(f)-1] ^= 0x20
							m.body[len(m.body)-1] ^= 0x20
						}
						switch dm {
						case 1, 2:
							ok = cfg.DisableCheckFrameHeaderCRC
						case 3, 4, 5:
							ok = !cfg.CheckFrameBodyCRC
						}
						// what an undisturbed peer sends before and after is right for every setting
						good := func(n int) []byte {
							return (&rmsg{id: mid(n), actor: 9, action: "good"}).frame(frameOpt{hcrc: true, bcrc: true})
						}
						c.Obs(e, s, t, dm, ok)
						return seqCfg(vrt.Config{MaxSteps: 200000, MaxTimers: 50}, func(x *vrt.Exec) error {
							if e == 0 {
								var got []*rmsg
								l := vnet.NewListener("srv")
								srv, err := transport.Listen(l, transport.ServerConfig{Config: cfg, MessageCallback: func(_ transport.Conn, b *transport.ByteArrayMessage) {
									got = append(got, fromReply(b))
								}})
								if err != nil {
									return err
								}
								a, _ := vnet.Pipe("conn", "peer")
								l.Queue(a)
								vrt.GoNamed("serve", func() { srv.Serve() })
								idle()
								a.Feed(f)
								a.Feed(good(8))
								idle()
								n := len(got)
								closed := a.Closed()
								a.FeedEOF()
								l.Close()
								idle()
								switch {
								case ok && (n != 2 || got[0].key() != m.key() || closed):
									return fmt.Errorf("settings %+v: a message that passes the checks was not delivered: %s, closed %v", cfg, allKeys(got), closed)
								case !ok && (n != 0 || !closed):
									return fmt.Errorf("settings %+v: a damaged frame delivered %s, closed %v", cfg, allKeys(got), closed)
								}
								return nil
							}
							ccfg, ucfg := cfg, ocfg
							if e == 3 {
								ccfg, ucfg = ocfg, cfg
							}
							w := newPW(x, 1, 0, ccfg, ucfg)
							p := w.pairs[0]
							w.l.Queue(p.pc)
							var to *vnet.Conn // where it is relayed to
							skip := 1         // the proxy's own opening message
							switch e {
							case 1:
								p.pc.Feed(f)
								p.pc.Feed(good(8))
								to = p.pu
							case 2:
								p.pc.Feed(good(6))
								idle()
								p.pc.Feed(f)
								p.pc.Feed(good(8))
								to = p.pu
								skip++
							case 3:
								p.pc.Feed(good(6))
								idle()
								p.pu.Feed(f)
								p.pu.Feed(good(8))
								to = p.pc
							}
							idle()
							closed := p.pc.Closed()
							ms, rest, err := parseStream(to.Sent(), optOf(ocfg))
							p.pc.FeedEOF()
							p.pu.FeedEOF()
							w.l.Close()
							idle()
							if err != nil || len(rest) > 0 {
								return fmt.Errorf("the other side, settings %+v, got no whole frames: %v, rest %x", ocfg, err, clip(rest))
							}
							if len(ms) > skip {
								ms = ms[skip:]
							} else {
								ms = nil
							}
							switch {
							case ok && (len(ms) != 2 || ms[0].key() != m.key() || closed):
								return fmt.Errorf("settings %+v: a message that passes the checks was not relayed: %s, closed %v", cfg, allKeys(ms), closed)
							case !ok && (len(ms) != 0 || !closed):
								return fmt.Errorf("settings %+v: after a damaged frame %s was relayed, closed %v", cfg, allKeys(ms), closed)
							}
							return nil
						}, nil)
					}) {
						return
					}
				}
			}
		}
	}
}

// ---- T13: copies

func init() {
	add(&Scenario{Prop: "T13", Name: "copies", Shards: 2,
		Bounds: "a message with 0 to 5 values of one header type, stored one by one or at once, is copied with Clone, then every sequence of up to 3 (thorough 4) of 10 operations on the original, the copy and a copy of the copy (append 1 or 2 values, set another type, change a plain field), all three compared with references of their own after every step",
		Enum:   enumT13copies})
}

func enumT13copies(c *Ctx) {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	const X, Y = transport.MessageHeaderIdType(0x8036), transport.MessageHeaderIdType(0x8037)
	type ref struct {
		x, y   []byte
		action string
	}
	var rec func(sq []int) bool
	rec = func(sq []int) bool {
		for k := 0; k <= 5; k++ {
			for at := 0; at < 2; at++ {
				k, at, s := k, at, append([]int(nil), sq...)
				if !c.Case(func() string { return fmt.Sprintf("%d values, at once %v, operations %v", k, at == 1, s) }, func() error {
					c.Step(len(s) + 1)
					m := &transport.Message{}
					var r ref
					n := byte(0)
					next := func() []byte { n++; return []byte{n} }
					var all []interface{}
					for i := 0; i < k; i++ {
						v := next()
						r.x = append(r.x, v...)
						if at == 0 {
							m.Headers.AppendCustomHeader(X, v)
						}
						all = append(all, v)
					}
					if at == 1 {
						m.Headers.AppendCustomHeader(X, all...)
					}
					cp := func(r ref) ref {
						return ref{append([]byte(nil), r.x...), append([]byte(nil), r.y...), r.action}
					}
					ms := []*transport.Message{m, m.Clone()}
					rs := []ref{cp(r), cp(r)}
					check := func(when string) error {
						for i, m := range ms {
							for j, t := range []transport.MessageHeaderIdType{X, Y} {
								want := rs[i].x
								if j == 1 {
									want = rs[i].y
								}
								var got []byte
								for _, v := range m.Headers.GetCustomHeaders(t) {
									b, _ := v.([]byte)
									got = append(got, b...)
								}
								if string(got) != string(want) {
									return fmt.Errorf("%s message %d (0 is the original) holds %x under %#x, want %x", when, i, got, uint16(t), want)
								}
							}
							if m.Headers.Action != rs[i].action {
								return fmt.Errorf("%s message %d has action %q, want %q", when, i, m.Headers.Action, rs[i].action)
							}
						}
						return nil
					}
					if err := check("after copying"); err != nil {
						return err
					}
					for _, op := range s {
						i := op % 3
						if op == 9 { // a copy of the copy
							if len(ms) < 3 {
								ms, rs = append(ms, ms[1].Clone()), append(rs, cp(rs[1]))
							}
						} else if i < len(ms) {
							h := &ms[i].Headers
							switch op / 3 {
							case 0:
								v := next()
								h.AppendCustomHeader(X, v)
								rs[i].x = append(rs[i].x, v...)
							case 1:
								v, w := next(), next()
								h.AppendCustomHeader(X, v, w)
								rs[i].x = append(append(rs[i].x, v...), w...)
							case 2:
								v := next()
								if h.SetCustomHeader(Y, v) {
									rs[i].y = append(rs[i].y, v...)
								}
								h.Action = fmt.Sprint("a", v)
								rs[i].action = h.Action
							}
						}
						if err := check(fmt.Sprintf("after operation %d", op)); err != nil {
							return err
						}
					}
					c.Obs(rs[0].x, rs[1].x)
					return nil
				}) {
					return false
				}
			}
		}
		if len(sq) == depth {
			return true
		}
		for o := 0; o < 10; o++ {
			if !rec(append(append([]int(nil), sq...), o)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

// ---- T03: well-formed and cut header blocks

func init() {
	add(&Scenario{Prop: "T03", Name: "blocks", Shards: 4,
		Bounds: "header blocks of 4 messages: all orders of up to 6 headers, up to two erased headers (the invalid type) of 0 to 5 bytes at every position, the block cut at every byte, with and without body: delivered with everything that is whole, or refused when a header is cut, a message before and after",
		Enum:   enumT03blocks})
}

func enumT03blocks(c *Ctx) {
	type piece struct {
		typ uint16
		val []byte
	}
	base := [][]piece{
		{{0x8003, refMarshal(&wId{mid(3).Id, mid(3).Index})}, {0x8001, refMarshal(&wI64{5})}, {0x8002, refMarshal(&wStr{"act"})}, {0x8036, []byte{1}}, {0x8005, refMarshal(&wBool{true})}, {0x9abc, nil}},
		{{0x8001, refMarshal(&wI64{7})}, {0x8004, refMarshal(&wId{mid(4).Id, mid(4).Index})}, {0x8007, refMarshal(&wFault{-9, true})}, {0x8006, refMarshal(&wI32{-3})}, {0x8036, []byte{}}},
		{{0x8009, refMarshal(&wBool{true})}, {0x8008, refMarshal(&wBool{true})}, {0x8003, refMarshal(&wId{mid(5).Id, mid(5).Index})}, {0x0001, []byte{1, 2, 3}}, {0xffff, []byte{0, 0x80, 0, 0}}},
		{{0x8036, []byte{1, 2}}, {0x8036, []byte{3}}, {0x8037, nil}},
	}
	types := []uint16{0x8036, 0x8037, 0x9abc, 0x0001, 0xffff}
	enc := func(ps []piece) (b []byte) {
		for _, p := range ps {
			b = append(b, hdrBytes(p.typ, len(p.val), p.val)...)
		}
		return
	}
	good := []*rmsg{{id: mid(1), actor: 2, action: "before"}, {id: mid(2), actor: 2, action: "after"}}
	try := func(what string, block []byte, want *rmsg) bool {
		for bd := 0; bd < 2; bd++ {
			bd := bd
			if !c.Case(func() string { return fmt.Sprintf("%s, block %x, body %v", what, block, bd == 1) }, func() error {
				c.Step(1)
				var body []byte
				if bd == 1 {
					body = []byte{0, 0x80, 1, 0, 9} // looks like a header
				}
				data := good[0].frame(plainOpt)
				data = append(data, rawFrame(len(block), append(append([]byte(nil), block...), body...), plainOpt)...)
				data = append(data, good[1].frame(plainOpt)...)
				var got []*rmsg
				var werr error
				return seq(func(x *vrt.Exec) error {
					a, _ := vnet.Pipe("a", "b")
					cl, err := transport.Connect(a, transport.ClientConfig{MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
						got = append(got, fromHeaders(&m.Headers, m.Body, types))
					}})
					if err != nil {
						return err
					}
					a.Feed(data)
					a.FeedEOF()
					werr = cl.Wait()
					return nil
				}, func(x *vrt.Exec) error {
					list := []string{good[0].key()}
					if want != nil {
						w := *want
						w.body = body
						list = append(list, w.key(), good[1].key())
					}
					c.Obs(list)
					if !sameList(keys(got), list) {
						return fmt.Errorf("delivered%s\nwant\n %v", allKeys(got), list)
					}
					if werr == nil {
						return fmt.Errorf("the receive loop ended without an error")
					}
					return nil
				})
			}) {
				return false
			}
		}
		return true
	}
	for k, ps := range base {
		whole, err := parseMsg(enc(ps), nil)
		if err != nil {
			panic(err)
		}
		// every order, values of one type keep theirs
		for _, o := range perms(len(ps)) {
			var q []piece
			for _, i := range o {
				q = append(q, ps[i])
			}
			w, _ := parseMsg(enc(q), nil)
			if !try(fmt.Sprintf("message %d order %v", k, o), enc(q), w) {
				return
			}
		}
		// erased headers
		for i := 0; i <= len(ps); i++ {
			for n := 0; n <= 5; n++ {
				er := piece{0x8000, []byte{0x01, 0x80, 0xff, 0xff, 0}[:n]}
				q := append(append(append([]piece(nil), ps[:i]...), er), ps[i:]...)
				if !try(fmt.Sprintf("message %d %d bytes erased at %d", k, n, i), enc(q), whole) {
					return
				}
				for j := i; j <= len(ps); j++ {
					q := append(append(append(append([]piece(nil), ps[:i]...), er), ps[i:j]...), append([]piece{{0x8000, make([]byte, n)}}, ps[j:]...)...)
					if !try(fmt.Sprintf("message %d %d bytes erased at %d and %d", k, n, i, j), enc(q), whole) {
						return
					}
				}
			}
		}
		// cut blocks
		b := enc(ps)
		for n := 0; n < len(b); n++ {
			w, err := parseMsg(b[:n], nil)
			if err != nil {
				w = nil
			}
			if !try(fmt.Sprintf("message %d cut at %d", k, n), b[:n], w) {
				return
			}
		}
	}
}
