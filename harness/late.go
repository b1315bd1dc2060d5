package main

// Patience: nothing in the library gives up before the caller's context does, however late the answer comes and
// however long a connection was idle. Time is virtual, so a year costs as much as a second.

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

var patience = []time.Duration{time.Millisecond, time.Second, 5 * time.Second, 10 * time.Second, 15 * time.Second, 20 * time.Second, 30 * time.Second,
	time.Minute, 2 * time.Minute, 5 * time.Minute, 10 * time.Minute, time.Hour, 25 * time.Hour, 32 * 24 * time.Hour, 400 * 24 * time.Hour, 30 * 365 * 24 * time.Hour}

const patienceText = "delays of 1 ms to 30 years (16 values, virtual time, each passed and then passed again by a second) "

func init() {
	add(&Scenario{Prop: "T06", Name: "patience", Shards: 2, Bounds: patienceText + "before the answer to a request, on a client's and on a server's connection, with a context without deadline, a later one, and one that ends before the answer; idle connections used afterwards",
		Enum: enumT06late})
	add(&Scenario{Prop: "T07", Name: "patience", Bounds: patienceText + "before a ping is answered and before the peer's own heartbeat, both ends",
		Enum: enumT07late})
	add(&Scenario{Prop: "T10", Name: "patience", Bounds: patienceText + "without a message through a pairing, before its opening and between messages of each direction, with and without filter",
		Enum: enumT10late})
	add(&Scenario{Prop: "F07", Name: "patience", Bounds: patienceText + "before the answer to a routed request, with a context without deadline, a later one, and one that ends before the answer; an announcement in between",
		Enum: enumF07late})
	add(&Scenario{Prop: "N01", Name: "patience", Bounds: patienceText + "before the answer to each naming operation, with a context without deadline, a later one, and one that ends before the answer",
		Enum: enumN01late})
	add(&Scenario{Prop: "L03", Name: "patience", Bounds: patienceText + "before a lease ping is answered, with a context without deadline, a later one, and one that ends before the answer",
		Enum: enumL03late})
}

// lateCtx: 0 no deadline, 1 a deadline well after the answer, 2 one before it.
func lateCtx(kind int, d time.Duration) (context.Context, context.CancelFunc) {
	switch kind {
	case 1:
		return vctx.WithTimeout(context.Background(), d+d/2+time.Hour)
	case 2:
		return vctx.WithTimeout(context.Background(), d/2)
	}
	return vctx.WithCancel(context.Background())
}

var lateKinds = []string{"without deadline", "with a later deadline", "with an earlier deadline"}

var lateCfg = vrt.Config{MaxSteps: 200000, MaxTimers: 200}

func eachLate(c *Ctx, ops []string, kinds int, f func(op string, kind int, d time.Duration) error) {
	for _, d := range patience {
		for kind := 0; kind < kinds; kind++ {
			for _, op := range ops {
				d, kind, op := d, kind, op
				if !c.Case(func() string { return fmt.Sprintf("%s, answer after %v, context %s", op, d, lateKinds[kind]) }, func() error {
					c.Step(2)
					c.Obs(d, kind, op)
					return f(op, kind, d)
				}) {
					return
				}
			}
		}
	}
}

// late runs one call: its answer comes after d; then checks how it ended.
func late(kind int, d time.Duration, call func(ctx context.Context) error, answer func() error) error {
	ctx, cancel := lateCtx(kind, d)
	defer cancel()
	done := false
	var err error
	vrt.GoNamed("late call", func() {
		err = call(ctx)
		done = true
	})
	idle()
	if done {
		return fmt.Errorf("the call ended at once: %v", err)
	}
	vtime.Sleep(d)
	idle()
	if done != (kind == 2) {
		return fmt.Errorf("%v after the call: returned %v, error %v", d, done, err)
	}
	if kind == 2 {
		if !errors.Is(err, context.DeadlineExceeded) {
			return fmt.Errorf("past its deadline the call returned %v", err)
		}
		return answer()
	}
	if e := answer(); e != nil {
		return e
	}
	if !done || err != nil {
		return fmt.Errorf("after an answer %v late: returned %v, error %v", d, done, err)
	}
	return nil
}

func enumT06late(c *Ctx) {
	eachLate(c, []string{"client", "server"}, 3, func(op string, kind int, d time.Duration) error {
		return seqCfg(lateCfg, func(x *vrt.Exec) error {
			w := newTW(x, transport.Config{}, op == "server")
			w.a.NoPoint = true
			for n := 1; n <= 2; n++ {
				var rep *rmsg
				if e := late(kind, d, func(ctx context.Context) error {
					m, err := w.cl.RequestReply(ctx, toMsg(&rmsg{id: mid(n), actor: 9, action: "ask"}))
					if err == nil {
						rep = fromReply(m)
					}
					return err
				}, func() error {
					w.a.Feed(answerTo(n).frame(plainOpt))
					idle()
					return nil
				}); e != nil {
					return fmt.Errorf("request %d: %v", n, e)
				}
				if kind < 2 && rep.key() != answerTo(n).key() {
					return fmt.Errorf("request %d returned %s", n, rep.key())
				}
				d += time.Second
			}
			// the connection itself is as good as before
			p := w.ask(7, context.Background())
			idle()
			w.a.Feed(answerTo(7).frame(plainOpt))
			idle()
			if e := p.must(7); e != nil {
				return e
			}
			w.a.Feed((&rmsg{id: mid(60), actor: 9, action: "late"}).frame(plainOpt))
			idle()
			n := 0
			for _, m := range w.got {
				if m.action == "late" {
					n++
				}
			}
			if n != 1 {
				return fmt.Errorf("a message after the silence was delivered %d times", n)
			}
			if w.wdone {
				return fmt.Errorf("waiting ended with %v before the connection", w.werr)
			}
			w.a.FeedEOF()
			idle()
			return nil
		}, nil)
	})
}

func enumT07late(c *Ctx) {
	eachLate(c, []string{"client", "server"}, 3, func(op string, kind int, d time.Duration) error {
		return seqCfg(lateCfg, func(x *vrt.Exec) error {
			w := newTW(x, transport.Config{}, op == "server")
			w.a.NoPoint = true
			at := len(w.a.Sent())
			next := func() ([]*rmsg, error) {
				ms, rest, err := parseStream(w.a.Sent()[at:], plainOpt)
				at = len(w.a.Sent()) - len(rest)
				return ms, err
			}
			for n := 0; n < 2; n++ {
				var got time.Duration
				if e := late(kind, d, func(ctx context.Context) (err error) {
					got, err = w.cl.Ping(ctx)
					return
				}, func() error {
					ms, err := next()
					if err != nil || len(ms) != 1 || ms[0].action != "HeartbeatRequest" {
						return fmt.Errorf("%d messages on the wire, %v", len(ms), err)
					}
					w.a.Feed((&rmsg{id: mid(70), actor: actTransport, action: "HeartbeatResponse", high: true, body: ms[0].body}).frame(plainOpt))
					idle()
					return nil
				}); e != nil {
					return fmt.Errorf("ping %d: %v", n, e)
				}
				if kind < 2 && (got < d || got > d+10*time.Second) {
					return fmt.Errorf("ping %d was answered after %v and reports %v", n, d, got)
				}
				b := []byte(fmt.Sprint("hb ", n))
				w.a.Feed((&rmsg{id: mid(70), actor: actTransport, action: "HeartbeatRequest", high: true, body: b}).frame(plainOpt))
				idle()
				ms, err := next()
				if err != nil || len(ms) != 1 || ms[0].action != "HeartbeatResponse" || string(ms[0].body) != string(b) {
					return fmt.Errorf("the peer's heartbeat was answered with %d messages, %v", len(ms), err)
				}
				d += time.Second
			}
			if w.wdone {
				return fmt.Errorf("waiting ended with %v before the connection", w.werr)
			}
			w.a.FeedEOF()
			idle()
			return nil
		}, nil)
	})
}

func enumT10late(c *Ctx) {
	for _, d := range patience {
		for k := 0; k < 8; k++ {
			d, filter, dir := d, k&1, k>>1
			if !c.Case(func() string { return fmt.Sprintf("silence of %v, filter %d, order %d", d, filter, dir) }, func() error {
				c.Step(4)
				c.Obs(d, filter, dir)
				var w *pw
				return seqCfg(lateCfg, func(x *vrt.Exec) error {
					w = newPW(x, 1, filter, transport.Config{}, transport.Config{})
					p := w.pairs[0]
					p.pc.NoPoint, p.pu.NoPoint = true, true
					w.l.Queue(p.pc)
					idle()
					if dir > 1 { // even before its first message
						vtime.Sleep(d)
						idle()
					}
					o := opening(1)
					p.cSent = append(p.cSent, o)
					p.pc.Feed(o.frame(plainOpt))
					for i := 0; i < 4; i++ {
						idle()
						vtime.Sleep(d)
						idle()
						if p.pc.Closed() || p.pu.Closed() {
							return fmt.Errorf("the proxy closed a silent pairing")
						}
						m := pmsg(8+i, "keep")
						if (i+dir)%2 == 0 {
							p.cSent = append(p.cSent, m)
							p.pc.Feed(m.frame(plainOpt))
						} else {
							p.uSent = append(p.uSent, m)
							p.pu.Feed(m.frame(plainOpt))
						}
					}
					idle()
					p.pc.FeedEOF()
					w.l.Close()
					return nil
				}, func(x *vrt.Exec) error {
					p := w.pairs[0]
					if err := stream("upstream", p.pu.Sent(), plainOpt, p.cSent, filter, true); err != nil {
						return err
					}
					return stream("client", p.pc.Sent(), plainOpt, p.uSent, filter, true)
				})
			}) {
				return
			}
		}
	}
}

func enumF07late(c *Ctx) {
	eachLate(c, []string{"alone", "announcement between", "announcement of a later instance"}, 3, func(op string, kind int, d time.Duration) error {
		return seqCfg(lateCfg, func(x *vrt.Exec) error {
			w := newFW(x, selfInst, seedAt(idA, "a:1"))
			in := w.incoming()
			pa := partner(idA, 2, phInserting)
			pa.Address = "a:1"
			in.Feed(announce(1, pa).frame(plainOpt))
			idle()
			for n := 1; n <= 2; n++ {
				n := n
				var rep *transport.ByteArrayMessage
				if e := late(kind, d, func(ctx context.Context) (err error) {
					m := toMsg(&rmsg{actor: actFederation, action: "ask", body: []byte{1, 2}})
					m.Headers.Id = mid(10 + n)
					rep, err = w.n.Route(ctx, idA, m)
					return
				}, func() error {
					if op != "alone" {
						p := partner(idC, uint64(3+n), phJoining)
						if op != "announcement between" {
							p = partner(idA, uint64(3+n), phInserting)
							p.Address = "a:1"
						}
						in.Feed(announce(30+n, p).frame(plainOpt))
						idle()
					}
					in.Feed(reply(20+n, mid(10+n), 0).frame(plainOpt))
					idle()
					return nil
				}); e != nil {
					return fmt.Errorf("request %d: %v", n, e)
				}
				if kind < 2 && (rep == nil || rep.Headers.Id != mid(20+n)) {
					return fmt.Errorf("request %d returned another message", n)
				}
				d += time.Second
			}
			w.finish()
			return nil
		}, nil)
	})
}

func enumN01late(c *Ctx) {
	eachLate(c, []string{"Ping", "GetApplicationList", "RegisterFilter"}, 3, func(op string, kind int, d time.Duration) error {
		return seqCfg(lateCfg, func(x *vrt.Exec) error {
			w := newNW(x, true)
			n := 0
			for k := 0; k < 2; k++ {
				if e := late(kind, d, func(ctx context.Context) error {
					_, err := w.call(op, ctx)
					return err
				}, func() error {
					for _, o := range []string{op, "RegisterFilter2"} {
						if o == "RegisterFilter2" && (op != "RegisterFilter" || kind == 2) {
							break
						}
						ms, e := w.sent()
						if n++; e != nil || len(ms) != n {
							return fmt.Errorf("%d requests, expected %d: %v", len(ms), n, e)
						}
						if o == "RegisterFilter2" && kind == 0 {
							vtime.Sleep(d)
						}
						w.c.Feed((&rmsg{id: mid(70 + n), rel: ms[n-1].id, actor: actNaming, action: nReplies[o], body: goodBody(o)}).frame(plainOpt))
						idle()
					}
					return nil
				}); e != nil {
					return fmt.Errorf("call %d: %v", k, e)
				}
				d += time.Second
			}
			if len(w.got) > 0 {
				return fmt.Errorf("an answer was delivered as a notification")
			}
			w.c.FeedEOF()
			idle()
			return nil
		}, nil)
	})
}

func enumL03late(c *Ctx) {
	eachLate(c, []string{"alone", "another session"}, 3, func(op string, kind int, d time.Duration) error {
		return seqCfg(lateCfg, func(x *vrt.Exec) error {
			w := newLW(x, "me:9", ldefault())
			s, err := w.ag.Establish("peer:1")
			if err != nil {
				return err
			}
			in := w.incoming()
			in.Feed(append([]byte(nil), connectFrame...))
			if op != "alone" {
				if _, err := w.ag.Establish("other:2"); err != nil {
					return err
				}
			}
			for n := 0; n < 2; n++ {
				before := s.LastPongTime()
				if e := late(kind, d, func(ctx context.Context) error { return s.Ping(ctx) }, func() error {
					if op != "alone" {
						in.Feed(pong("other", 2, 5).frame())
						idle()
					}
					in.Feed(pong("peer", 1, 5).frame())
					idle()
					return nil
				}); e != nil {
					return fmt.Errorf("ping %d: %v", n, e)
				}
				if !s.LastPongTime().After(before) {
					return fmt.Errorf("the acknowledgement was not noted")
				}
				d += time.Second
			}
			if w.wdone {
				return fmt.Errorf("the agent ended with %v", w.werr)
			}
			w.finish()
			idle()
			return nil
		}, nil)
	})
}
