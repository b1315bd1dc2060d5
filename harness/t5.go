package main

// T05: kinds of messages, changes of the message callback, replies to requests given up.

import (
	"context"
	"fmt"
	"time"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

var actionsT05 = []string{"", "x", "ConnectionAuth", "HeartbeatRequest", "HeartbeatResponse", "VotePing", "ServiceNotificationRequest", "ClientOperationFailure", "connectionauth"}

func init() {
	add(&Scenario{Prop: "T05", Name: "kinds", Shards: 4,
		Bounds: "messages of every actor from -1 to 70 and 4 extreme ones (but of the transport itself), with 9 actions, with and without fault code and body, unrelated, related to an unknown id and related to a pending request; client and server connection",
		Enum:   enumT05kinds})
	add(&Scenario{Prop: "T05", Name: "callback-change", Shards: 4,
		Bounds: "three messages from the peer, a request with its reply and one late reply while the message callback of a client connection is set for the first time, replaced, removed or set again; all schedules with at most 2 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(4, 1)),
		Body:   t05cb, Judge: judgeT05cb})
	add(&Scenario{Prop: "T05", Name: "given-up", Shards: 8,
		Bounds: "a request whose context is done before the call, is cancelled at any moment or has its deadline pass, while the peer takes data, has stopped doing so or another goroutine is sending; its reply then arrives up to twice, early or late, with a message after it and a second request; client and server connection; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(vrt.Config{Bound: 2, NPCost: 1, MaxTimers: 16}, vrt.Config{Bound: 3, NPCost: 1, MaxTimers: 16}),
		Body:   t05gone, Judge: judgeT05gone})
}

func enumT05kinds(c *Ctx) {
	var actors []int64
	for a := int64(-1); a <= 70; a++ {
		actors = append(actors, a)
	}
	actors = append(actors, 257, 1<<32+1, -1<<63, 1<<63-1)
	for _, actor := range actors {
		for srv := 0; srv < 2; srv++ {
			actor, srv := actor, srv
			if actor == actTransport {
				continue
			}
			if !c.Case(func() string { return fmt.Sprintf("actor %d server=%v", actor, srv == 1) }, func() error {
				c.Step(len(actionsT05) * 8)
				return seqCfg(vrt.Config{MaxSteps: 400000, MaxTimers: 10000}, func(x *vrt.Exec) error {
					w := newTW(x, transport.Config{}, srv == 1)
					if w.cl == nil {
						return fmt.Errorf("set-up failed")
					}
					n := 100
					for _, action := range actionsT05 {
						for k := 0; k < 12; k++ {
							errc := []int64{0, -17, 5, 0}[k%4]
							if actor == actSendTarget && action == "ConnectionAuth" && errc != 0 {
								continue // a refusal, see T09
							}
							n++
							m := &rmsg{id: mid(n), actor: actor, action: action, errc: errc, fault: errc != 0, expect: k%4 == 3}
							if k%2 == 1 {
								m.body = []byte(fmt.Sprint("body", n))
							}
							what := fmt.Sprintf("a message of actor %d, action %q, error code %d", actor, action, errc)
							from := len(w.got)
							switch k / 4 {
							case 0, 1:
								if k/4 == 1 {
									m.rel = mid(n + 100000)
								}
								w.a.Feed(m.frame(plainOpt))
								idle()
								if len(w.got) != from+1 || w.got[from].key() != m.key() {
									return fmt.Errorf("%s, related to nothing pending, was delivered to the callback %d times: %s", what, len(w.got)-from, allKeys(w.got[from:]))
								}
							case 2:
								q := mid(n + 200000)
								m.rel = q
								var r *rmsg
								var rerr error
								done := false
								vrt.GoNamed("request", func() {
									b, err := w.cl.RequestReply(context.Background(), toMsg(&rmsg{id: q, actor: 7, action: "req"}))
									if rerr = err; err == nil {
										r = fromReply(b)
									}
									done = true
								})
								idle()
								w.a.Feed(m.frame(plainOpt))
								idle()
								if !done || r == nil || r.key() != m.key() {
									return fmt.Errorf("%s, related to a pending request, did not complete it (%v, %v)", what, done, rerr)
								}
								if len(w.got) != from {
									return fmt.Errorf("%s completed a request and went to the callback as well", what)
								}
							}
						}
					}
					c.Obs(actor, srv)
					w.a.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

func allKeys(l []*rmsg) (s string) {
	for _, m := range l {
		s += "\n " + m.key()
	}
	return
}

// ---- the callback changes

type t05c struct {
	*tw
	how int
	cbs [3][]*rmsg // delivered to callback 1, 2
	log []int      // callbacks in order of delivery
	fed []*rmsg    // unrelated messages
	set []int      // callback certainly set when the message was fed, -1 unknown
	res *rmsg
	err error
}

func t05cb(x *vrt.Exec) {
	how := script(5, "change")
	d := &t05c{tw: &tw{x: x}, how: how}
	x.Data = d
	a, _ := vnet.Pipe("conn", "peer")
	d.a = a
	cbk := func(i int) transport.MessageCallback {
		return func(c transport.Conn, m *transport.ByteArrayMessage) {
			d.cbs[i] = append(d.cbs[i], fromReply(m))
			d.log = append(d.log, i)
		}
	}
	cfg := transport.ClientConfig{}
	now := 0
	if how > 0 {
		cfg.MessageCallback = cbk(1)
		now = 1
	}
	cl, err := transport.Connect(a, cfg)
	if err != nil {
		vrt.Fail("connecting: %v", err)
		return
	}
	d.cl = cl
	vrt.GoNamed("wait", func() { cl.Wait() })
	if how == 4 {
		idle() // the receive loop runs already
	}
	vrt.Branch(true)
	set := func(i int) {
		now = -1
		vrt.Point("change")
		if i == 0 {
			cl.SetMessageCallback(nil)
		} else {
			cl.SetMessageCallback(cbk(i))
		}
		now = i
	}
	feed := func(m *rmsg) {
		vrt.Point("peer sends " + m.action)
		if m.rel == (transport.MessageId{}) || m.action == "late" {
			d.fed = append(d.fed, m)
			d.set = append(d.set, now)
		}
		a.Feed(m.frame(plainOpt))
	}
	par(map[string]func(){
		"set": func() {
			switch how {
			case 0:
				set(2) // the first one
			case 1, 4:
				set(2)
			case 2:
				set(0)
			case 3:
				set(0)
				set(2)
			}
		},
		"r": func() {
			r, err := cl.RequestReply(context.Background(), toMsg(&rmsg{id: mid(1), actor: 7, action: "r"}))
			if d.err = err; err == nil {
				d.res = fromReply(r)
			}
		},
		"peer": func() {
			feed(&rmsg{id: mid(20), actor: 5, action: "a"})
			feed(&rmsg{id: mid(21), actor: 5, action: "b"})
			d.sawId(mid(1))
			feed(&rmsg{id: mid(22), rel: mid(1), actor: 5, action: "reply"})
			feed(&rmsg{id: mid(23), rel: mid(1), actor: 5, action: "late"})
			feed(&rmsg{id: mid(24), actor: 5, action: "c"})
		},
	})
	idle()
	// whatever happened, the last callback set gets what comes now
	feed(&rmsg{id: mid(25), actor: 5, action: "last"})
	idle()
	vrt.Branch(false)
	a.FeedEOF()
}

func judgeT05cb(x *vrt.Exec) vrt.Outcome {
	d, ok := x.Data.(*t05c)
	if !ok || d.cl == nil {
		return vrt.Outcome{Viol: []string{"set-up failed"}}
	}
	return d.judge(x, func(*tw) (string, []string) {
		var v []string
		key := fmt.Sprint(d.log)
		if d.res == nil || d.res.action != "reply" {
			v = append(v, fmt.Sprintf("the request returned %v, not its reply", d.err))
		}
		where := map[string][]int{}
		for i, l := range d.cbs {
			at := -1
			for _, m := range l {
				where[m.key()] = append(where[m.key()], i)
				for j, f := range d.fed {
					if f.key() == m.key() {
						if j < at {
							v = append(v, "delivered out of order: "+m.key())
						}
						at = j
					}
				}
			}
		}
		for j, f := range d.fed {
			w := where[f.key()]
			delete(where, f.key())
			key += fmt.Sprint(w)
			if len(w) > 1 {
				v = append(v, fmt.Sprintf("delivered %d times: %s", len(w), f.key()))
			}
			// it may see a callback set later, but none replaced before, and is only lost while none is set
			switch s := d.set[j]; {
			case len(w) > 0 && w[0] < s:
				v = append(v, fmt.Sprintf("received while callback %d was set but delivered to callback %d: %s", s, w[0], f.key()))
			case len(w) > 0 && s == 0 && w[0] == 1:
				v = append(v, "delivered to a callback removed before it was received: "+f.key())
			case len(w) == 0 && (s == 2 || d.how == 1 || d.how == 4):
				v = append(v, "not delivered although a callback was set: "+f.key())
			}
		}
		for k := range where {
			v = append(v, "delivered but never received: "+k)
		}
		for j := 1; j < len(d.log); j++ {
			if d.log[j] < d.log[j-1] {
				v = append(v, fmt.Sprintf("a replaced callback ran after the one replacing it: %v", d.log))
			}
		}
		return key, v
	})
}

// ---- replies to requests given up

type t05g struct {
	*tw
	res, res2 *rmsg
	err, err2 error
	fed       []*rmsg
	after     bool // the first reply was fed after the request had returned
}

func t05gone(x *vrt.Exec) {
	how := script(4, "giving up")
	hold := script(3, "peer")
	when := script(3, "reply")
	srv := 0
	if deep {
		srv = script(2, "side")
	} else {
		srv = (how + hold + when) % 2
	}
	d := &t05g{tw: newTW(x, transport.Config{}, srv == 1)}
	x.Data = d
	if d.cl == nil {
		return
	}
	idle()
	var ctx context.Context
	cancel := func() {}
	switch how {
	case 0:
		c, cn := vctx.WithCancel(context.Background())
		cn()
		ctx = c
	case 1, 2:
		ctx, cancel = vctx.WithCancel(context.Background())
	case 3:
		ctx, cancel = vctx.WithTimeout(context.Background(), time.Second)
	}
	if hold > 0 {
		d.a.Stall, d.a.StallHalf = true, hold == 2
	}
	if hold == 2 {
		vrt.GoNamed("other", func() { d.cl.SendOneWay(toMsg(&rmsg{id: mid(9), actor: 7, action: "other"})) })
		idle()
	}
	returned := false
	feed := func(n int, rel int, action string) {
		m := &rmsg{id: mid(n), actor: 5, action: action, body: []byte(action)}
		if rel > 0 {
			m.rel = mid(rel)
		}
		vrt.Point("peer sends " + action)
		d.fed = append(d.fed, m)
		if action == "reply" && returned {
			d.after = true
		}
		d.a.Feed(m.frame(plainOpt))
	}
	vrt.Branch(true)
	par(map[string]func(){
		"r1": func() {
			r, err := d.cl.RequestReply(ctx, toMsg(&rmsg{id: mid(1), actor: 7, action: "r1"}))
			if d.err = err; err == nil {
				d.res = fromReply(r)
			}
			returned = true
		},
		"cancel": func() {
			switch how {
			case 1:
				cancel()
			case 2:
				vtime.Sleep(time.Second / 2)
				cancel()
			}
		},
		"peer": func() {
			if when > 0 {
				vtime.Sleep(2 * time.Second)
				idle()
				if !returned {
					vrt.Fail("the request goes on although its context is done")
				}
			}
			if when == 1 {
				d.a.Stall = false // what was begun is sent
				idle()
			}
			feed(20, 1, "reply")
			feed(21, 1, "again")
			feed(22, 0, "plain")
		},
	})
	d.a.Stall = false
	idle()
	vrt.Branch(false)
	done := false
	vrt.GoNamed("r2", func() {
		r, err := d.cl.RequestReply(context.Background(), toMsg(&rmsg{id: mid(2), actor: 7, action: "r2"}))
		if d.err2 = err; err == nil {
			d.res2 = fromReply(r)
		}
		done = true
	})
	d.sawId(mid(2))
	feed(23, 2, "second")
	feed(24, 1, "much later")
	idle()
	if !done {
		vrt.Fail("a later request that was answered does not return")
	}
	cancel()
	d.a.FeedEOF()
}

func judgeT05gone(x *vrt.Exec) vrt.Outcome {
	d, ok := x.Data.(*t05g)
	if !ok {
		return vrt.Outcome{Viol: []string{"set-up failed"}}
	}
	return d.judge(x, func(w *tw) (string, []string) {
		var v []string
		key := fmt.Sprint(d.err, d.after)
		if d.res2 == nil || d.res2.action != "second" {
			v = append(v, fmt.Sprintf("the second request returned %v, not its reply", d.err2))
		}
		if d.res != nil && d.res.rel != mid(1) {
			v = append(v, "the request returned "+d.res.key())
		}
		if d.res != nil && d.after {
			v = append(v, "the request had returned before its reply was sent, yet returned it")
		}
		n := map[string]int{}
		for _, m := range w.got {
			n[m.action]++
			key += m.action
		}
		for _, a := range []string{"reply", "again", "plain", "much later", "second"} {
			c, want := n[a], 1
			if d.res != nil && d.res.action == a || a == "second" {
				want = 0
			}
			if c > 1 || c != want && !(a == "reply" && c == 0 && !d.after) {
				// the first reply may be taken by the request just given up
				if a == "again" && c == 0 && n["reply"] == 1 && d.res == nil && !d.after {
					continue // it was too early for the request, the second was not
				}
				v = append(v, fmt.Sprintf("the message %q was delivered to the callback %d times, want %d (request: %v)", a, c, want, d.err))
			}
		}
		return key, v
	})
}
