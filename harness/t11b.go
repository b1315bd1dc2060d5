package main

import (
	"context"
	"fmt"
	"net"
	"strings"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
)

// A peer that leaves its secure handshake unfinished delays nobody but itself.

func init() {
	add(&Scenario{Prop: "T12", Name: "unfinished", Shards: 8,
		Bounds: "1 or 3 peers of a secure server that stop after every number of bytes of the client's part of a handshake (quick: every 7th and around frame boundaries), send something else instead or connect and stay silent, before a proper client connects and exchanges messages, and after they are gone; TLS 1.2 and 1.3, with and without client certificates",
		Enum:   func(c *Ctx) { enumStall(c, false) }})
	add(&Scenario{Prop: "T11", Name: "unfinished", Shards: 8,
		Bounds: "the same peers before a proper client of a secure proxy",
		Enum:   func(c *Ctx) { enumStall(c, true) }})
}

func enumStall(c *Ctx, proxy bool) {
	for _, v := range tlsVersions {
		for mu := 0; mu < 2; mu++ {
			v, mutual := v, mu == 1
			r, err := runTLS(tlsRun{version: v, mutual: mutual})
			if err != nil || r.cErr != nil {
				c.Case(func() string { return fmt.Sprintf("version %x: ordinary connection", v) }, func() error {
					return fmt.Errorf("an ordinary connection fails: %v %v", err, r.cErr)
				})
				return
			}
			b := r.a.Sent()
			var ends []int // ends of the client's handshake frames
			for off := 0; len(ends) < 4; {
				n := frameLen(b[off:])
				if n <= 0 || off+n > len(b) {
					break
				}
				off += n
				ends = append(ends, off)
				if off >= refHandshake(v, mutual, 0)[0]+len(ends)*29 {
					break
				}
			}
			if len(ends) == 0 {
				continue
			}
			last := ends[len(ends)-1]
			near := map[int]bool{0: true, 1: true, 4: true, 11: true, 12: true}
			for _, e := range ends {
				for d := -2; d <= 2; d++ {
					near[e+d] = true
				}
			}
			for n := 0; n <= last; n++ {
				if !c.Thorough && !near[n] && n%7 != 0 {
					continue
				}
				for _, peers := range []int{1, 3} {
					for tail := 0; tail < 3; tail++ {
						if tail > 0 && n > 0 && !near[n] {
							continue
						}
						n, peers, tail := n, peers, tail
						if !c.Case(func() string {
							return fmt.Sprintf("version %x client certificates %v: %d peers stop after %d of %d handshake bytes, then %s", v, mutual, peers, n, last, [3]string{"silence", "zeros", "text"}[tail])
						}, func() error {
							c.Step(3)
							part := append([]byte(nil), b[:n]...)
							switch tail {
							case 1:
								part = append(part, make([]byte, 8)...)
							case 2:
								part = append(part, "\x30\x00\x00\x00no frame of any kind"...)
							}
							return stallRun(c, v, mutual, proxy, peers, part)
						}) {
							return
						}
					}
				}
			}
		}
	}
}

// frameLen is the length of the first frame of b, 0 if b does not hold one.
func frameLen(b []byte) int {
	if len(b) < 8 {
		return 0
	}
	return int(uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24)
}

func stallRun(c *Ctx, v uint16, mutual, proxy bool, peers int, part []byte) error {
	cc, sc := tlsConf(v, mutual)
	var got []string
	var blocked []string
	served := 0
	var conns []*vnet.Conn
	err := seqCfg(vrt.Config{MaxSteps: 400000, MaxTimers: 60}, func(x *vrt.Exec) error {
		l := vnet.NewListener("srv")
		cb := func(cn transport.Conn, m *transport.ByteArrayMessage) {
			served++
			q := fromHeaders(&m.Headers, m.Body, hdrTypes)
			got = append(got, q.action)
			cn.SendOneWay(toMsg(&rmsg{rel: q.id, id: mid(300 + served), actor: 8, action: "re " + q.action, body: q.body}))
		}
		up := l
		if proxy {
			up = vnet.NewListener("upstream")
		}
		scfg := transport.Config{TLS: sc}
		if proxy {
			scfg = transport.Config{}
		}
		s, err := transport.Listen(up, transport.ServerConfig{Config: scfg, MessageCallback: cb})
		if err != nil {
			return err
		}
		vrt.GoNamed("serve", func() { vrt.Daemon(); s.Serve() })
		if proxy {
			p, err := transport.NewPiper(l, transport.PiperConfig{Config: transport.Config{TLS: sc}, FindUpstream: func(h *transport.MessageHeaders, conn net.Conn) (net.Conn, transport.Config, error) {
				a, b := vnet.Pipe("proxy-up", "upstream")
				a.NoPoint, b.NoPoint = true, true
				conns = append(conns, a, b)
				up.Queue(b)
				return a, transport.Config{}, nil
			}})
			if err != nil {
				return err
			}
			vrt.GoNamed("proxy", func() { vrt.Daemon(); p.Serve() })
		}
		var bad []*vnet.Conn
		for i := 0; i < peers; i++ {
			_, e := vnet.Pipe(fmt.Sprint("unfinished", i), "srv-side")
			e.NoPoint = true
			e.Feed(part)
			bad = append(bad, e)
			conns = append(conns, e)
			l.Queue(e)
		}
		idle()
		exchange := func(i int) error {
			a, b := vnet.Pipe("client", "srv-side")
			a.NoPoint, b.NoPoint = true, true
			conns = append(conns, a, b)
			l.Queue(b)
			var cl *transport.Client
			var err error
			done := false
			vrt.GoNamed("connect", func() {
				cl, err = transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: cc}})
				done = true
			})
			idle()
			if !done {
				a.Close()
				return fmt.Errorf("client %d is still connecting", i)
			}
			if err != nil {
				return fmt.Errorf("client %d cannot connect: %v", i, err)
			}
			vrt.GoNamed("wait", func() { cl.Wait() })
			defer cl.Close()
			m := &rmsg{id: mid(i + 1), actor: 7, action: fmt.Sprint(marker, i), body: bigBody(100)}
			var rep *transport.ByteArrayMessage
			done = false
			vrt.GoNamed("request", func() { rep, err = cl.RequestReply(context.Background(), toMsg(m)); done = true })
			idle()
			if !done {
				return fmt.Errorf("the request of client %d is not answered", i)
			}
			if err != nil {
				return fmt.Errorf("the request of client %d fails: %v", i, err)
			}
			if k, w := fromReply(rep).key(), (&rmsg{rel: m.id, id: mid(300 + served), actor: 8, action: "re " + m.action, body: m.body}).key(); k != w {
				return fmt.Errorf("client %d received %s want %s", i, k, w)
			}
			return nil
		}
		err = exchange(0)
		for _, e := range bad {
			e.FeedEOF()
		}
		idle()
		if err == nil {
			err = exchange(1)
		}
		for _, e := range bad {
			if err == nil && !e.Closed() {
				err = fmt.Errorf("the connection of a peer that left during its handshake is still open")
			}
		}
		idle()
		return err
	}, func(x *vrt.Exec) error {
		blocked = x.Blocked(false)
		return nil
	})
	if err != nil {
		return err
	}
	if len(blocked) > 0 {
		return fmt.Errorf("blocked for ever: %v", blocked)
	}
	if want := []string{fmt.Sprint(marker, 0), fmt.Sprint(marker, 1)}; !sameList(got, want) {
		return fmt.Errorf("the callback saw %s", strings.Join(got, ", "))
	}
	for _, e := range conns {
		if !e.Closed() {
			return fmt.Errorf("a connection is still open at the end")
		}
	}
	c.Obs(len(part), peers, v, mutual)
	return nil
}
