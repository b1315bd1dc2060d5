package main

// Federation node, second part: F06-F08.

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

// ---------------------------------------------------------------- F06

func init() {
	add(&Scenario{Prop: "F06", Name: "shared-dial", Shards: 8,
		Bounds: "three concurrent sends to one partner (or two and one routed request), the first 0, 1 or 2 dials failing, then one more send; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body:   bodyF06, Judge: judgeF06})
	add(&Scenario{Prop: "F06", Name: "dial-steps", Shards: 8,
		Bounds: "two concurrent sends to one partner, the first dial failing or not; every memory access of the package is a scheduling point; all schedules with at most 3 (thorough 4) deviations",
		Cfg: func(t bool) vrt.Config {
			c := schedCfg(bnd(3, 1), bnd(4, 1))(t)
			c.Access, c.In = true, []string{"federation/sitenode_sender", "federation/sitenode.go"}
			return c
		},
		Body: func(x *vrt.Exec) { bodyF06steps(x) }, Judge: judgeF06})
	add(&Scenario{Prop: "F06", Name: "broken", Shards: 8,
		Bounds: "two goroutines with two sends each to one partner while the partner ends or resets the connection, then one more send; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body:   bodyF06b, Judge: judgeF06})
	add(&Scenario{Prop: "F06", Name: "closing", Shards: 8,
		Bounds: "sends to two partners and a repeated one while the node is closed, dials instant, slow or failing, then a send after the close; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body:   bodyF06c, Judge: judgeF06})
	add(&Scenario{Prop: "F06", Name: "histories", Shards: 8,
		Bounds: "every history of up to 5 (thorough 6) operations over {send to A, routed request to B, A's connection ends, B's is reset, dialling A fails from now on, works again, A moves to a new address, close}, against a model of the connections",
		Enum:   enumF06})
	add(&Scenario{Prop: "F06", Name: "addresses",
		Bounds: "every ordered pair of 24 addresses, many of which differ only in case, spaces, dots, leading zeros, brackets or Unicode form; messages to a partner at each, twice, over connections dialled to exactly these addresses, also after one broke",
		Enum:   enumF06d})
}

var alike = []string{"a:1", "A:1", "a:01", "a:1 ", " a:1", "a.:1", "a:10", "a", "a:", ":1", "", "aa:1", "a::1", "[a]:1", "[::1]:1", "::1:1", "[::0001]:1", "127.0.0.1:1", "127.1:1",
	"localhost:1", "\u00e4:1", "a\u0308:1", "a:1\x00", "tcp://a:1"}

func enumF06d(c *Ctx) {
	for i := range alike {
		for j := range alike {
			if i == j {
				continue
			}
			for brk := 0; brk < 3; brk++ {
				p, q, brk := alike[i], alike[j], brk
				if !c.Case(func() string { return fmt.Sprintf("%q and %q, broken: %d", p, q, brk) }, func() error {
					c.Step(4)
					c.Obs(p, q, brk)
					return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
						w := newFW(x, selfInst, seedAt(nid(9, 9), "seed:0"))
						in := w.incoming()
						pa, pb := partner(idA, 4, phInserting), partner(idB, 6, phInserting)
						pa.Address, pb.Address = p, q
						in.Feed(announce(1, pa, pb).frame(plainOpt))
						idle()
						want := map[string][]string{}
						for k := 0; k < 4; k++ {
							id, a := idA, p
							if k%2 == 1 {
								id, a = idB, q
							}
							if k == 2 && brk > 0 {
								for _, y := range w.dials {
									if y.addr == []string{p, q}[brk-1] {
										y.c.FeedEOF()
									}
								}
								idle()
							}
							act := fmt.Sprint("to ", k)
							if err := w.n.SendOneWay(id, toMsg(&rmsg{actor: 9, action: act})); err != nil {
								return fmt.Errorf("message %d: %v", k, err)
							}
							idle()
							want[a] = append(want[a], act)
						}
						n := 2
						if brk > 0 {
							n = 3
						}
						if len(w.dials) != n {
							return fmt.Errorf("%d connections opened (%q), want %d", len(w.dials), w.tries, n)
						}
						got := map[string][]string{}
						for _, y := range w.dials {
							ms, err := y.sent()
							if err != nil {
								return err
							}
							for _, m := range ms {
								got[y.addr] = append(got[y.addr], m.action)
							}
						}
						if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
							return fmt.Errorf("messages by address %q, want %q", got, want)
						}
						w.finish()
						return nil
					}, nil)
				}) {
					return
				}
			}
		}
	}
}

type f06send struct {
	to    federation.NodeID
	id    transport.MessageId
	err   error
	late  bool // started after the close returned
	ended bool
}

type f06d struct {
	*fworld
	sends   []*f06send
	broken  map[*fdial]bool
	flight  map[string]int
	fails   int // dials that failed
	closing bool
	closed  bool
	final   *f06send
	nfail   int // dials to fail
	slow    bool
	gate    bool
}

const errTimeout = int64(-2147017729) // any failure code

var errDown = errors.New("unreachable for now")

func newF06(x *vrt.Exec) *f06d {
	d := &f06d{broken: map[*fdial]bool{}, flight: map[string]int{}}
	d.fworld = newFW(x, selfInst, seedAt(idA, "a:1"), seedAt(idB, "b:1"))
	x.Data = d
	d.onDial = func(addr string) error {
		if !d.closing {
			if d.flight[addr] > 0 {
				vrt.Fail("%s is dialled while another dial to it is under way", addr)
			}
			for _, y := range d.dials {
				if y.addr == addr && y.err == nil && y.cl != nil && !y.c.Closed() && !d.broken[y] {
					vrt.Fail("%s is dialled although a connection to it is alive", addr)
				}
			}
		}
		d.flight[addr]++
		if d.slow {
			vrt.Block("slow dial", func() bool { return d.gate })
		}
		vrt.Point("dialled " + addr)
		d.flight[addr]--
		if d.nfail > 0 {
			d.nfail--
			d.fails++
			return errDown
		}
		return nil
	}
	return d
}

func (d *f06d) send(to federation.NodeID) *f06send {
	s := &f06send{to: to, id: mid(100 + len(d.sends)), late: d.closed}
	d.sends = append(d.sends, s)
	s.err = d.n.SendOneWay(to, toMsg(&rmsg{id: s.id, actor: 9, action: "s"}))
	s.ended = true
	return s
}

// end is what every scenario does last: one more send, then close.
func (d *f06d) end() {
	vrt.Branch(false)
	idle()
	if !d.closing {
		d.nfail = 0
		d.final = d.send(idA)
		d.closing = true
		d.finish()
	}
	d.closed = true
	idle()
	d.send(idA)
	idle()
}

func bodyF06(x *vrt.Exec) {
	nf := script(3, "failing dials")
	routed := script(2, "one routed")
	d := newF06(x)
	d.quiet = true
	d.nfail = nf
	idle()
	fs := map[string]func(){}
	for i := 0; i < 3; i++ {
		if i == 2 && routed == 1 {
			fs["route"] = func() {
				s := &f06send{to: idA, id: mid(50)}
				d.sends = append(d.sends, s)
				ctx, cancel := vctx.WithTimeout(context.Background(), time.Second)
				_, err := d.n.Route(ctx, idA, toMsg(&rmsg{id: s.id, actor: 9, action: "s"}))
				cancel()
				if !errors.Is(err, context.DeadlineExceeded) {
					s.err = err
					if err == nil {
						vrt.Fail("a routed request without reply succeeded")
					}
				}
				s.ended = true
			}
			continue
		}
		fs[fmt.Sprint("send", i)] = func() { d.send(idA) }
	}
	vrt.Branch(true)
	par(fs)
	d.end()
}

func bodyF06steps(x *vrt.Exec) {
	nf := script(2, "failing dials")
	d := newF06(x)
	d.quiet = true
	d.nfail = nf
	idle()
	vrt.Branch(true)
	par(map[string]func(){"send1": func() { d.send(idA) }, "send2": func() { d.send(idA) }})
	d.end()
}

func bodyF06b(x *vrt.Exec) {
	how := script(2, "break")
	d := newF06(x)
	d.quiet = true
	idle()
	vrt.Branch(true)
	fs := map[string]func(){"break": func() {
		vrt.Block("connection", func() bool { return len(d.dials) > 0 && d.dials[0].cl != nil })
		d.broken[d.dials[0]] = true
		if how == 0 {
			d.dials[0].c.FeedEOF()
		} else {
			d.dials[0].c.ResetIn()
		}
	}}
	for i := 0; i < 2; i++ {
		fs[fmt.Sprint("send", i)] = func() { d.send(idA); d.send(idA) }
	}
	par(fs)
	d.end()
}

func bodyF06c(x *vrt.Exec) {
	kind := script(4, "dials")
	d := newF06(x)
	d.quiet = true
	if kind == 1 {
		d.nfail = 1
	}
	d.slow = kind >= 2
	idle()
	vrt.Branch(true)
	fs := map[string]func(){
		"sendA": func() { d.send(idA); d.send(idA) },
		"sendB": func() { d.send(idB) },
		"close": func() {
			if kind == 3 {
				vrt.Block("dialling", func() bool { return len(d.tries) > 0 })
			}
			d.closing = true
			d.n.Close()
			d.closed = true
		},
	}
	if d.slow {
		fs["net"] = func() { idle(); d.gate = true }
	}
	par(fs)
	d.end()
}

func (d *f06d) wire() (map[transport.MessageId]int, error) {
	on := map[transport.MessageId]int{}
	for _, y := range d.dials {
		ms, err := y.sent()
		if err != nil {
			return nil, err
		}
		for _, m := range ms {
			on[m.id]++
		}
	}
	return on, nil
}

func judgeF06(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*f06d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	bad := func(f string, a ...interface{}) { o.Viol = append(o.Viol, fmt.Sprintf(f, a...)) }
	on, err := d.wire()
	if err != nil {
		bad("%v", err)
		return o
	}
	nerr := 0
	for _, s := range d.sends {
		if s.err != nil {
			nerr++
			if on[s.id] > 0 && len(d.broken) == 0 {
				bad("a send that failed with %v is on the wire", s.err)
			}
			if !d.closing && d.fails == 0 && len(d.broken) == 0 {
				bad("a send failed: %v", s.err)
			}
			if s == d.final {
				bad("with the partner reachable again a send failed: %v", s.err)
			}
			continue
		}
		if on[s.id] != 1 && !s.late {
			bad("a successful send is %d times on the wire", on[s.id])
		}
	}
	if d.fails > 0 && len(d.broken) == 0 && d.final != nil {
		for _, s := range d.sends {
			if s.err != nil && !s.late && !strings.Contains(s.err.Error(), errDown.Error()) {
				bad("dialling failed, the send returned %v", s.err)
			}
		}
	}
	for _, y := range d.dials {
		if y.c != nil && !y.c.Closed() {
			bad("the connection to %s (dial %d) is still open after the node was closed", y.addr, y.at)
		}
	}
	o.Key = fmt.Sprintf("dials %d fails %d errors %d", len(d.tries), d.fails, nerr)
	return o
}

func enumF06(c *Ctx) {
	ops := []string{"sendA", "routeB", "endA", "resetB", "failA", "healA", "moveA", "close"}
	depth := 5
	if c.Thorough {
		depth = 6
	}
	var rec func(p []int)
	run := func(p []int) bool {
		return c.Case(func() string {
			var n []string
			for _, i := range p {
				n = append(n, ops[i])
			}
			return strings.Join(n, " ")
		}, func() error {
			c.Step(len(p))
			return seqCfg(vrt.Config{MaxSteps: 200000, MaxTimers: 200}, func(x *vrt.Exec) error {
				d := newF06(x)
				in := d.incoming()
				idle()
				addrA, inst := "a:1", uint64(0)
				live := map[string]*fdial{} // by address
				failA := false
				inner := d.onDial
				d.onDial = func(a string) error {
					if err := inner(a); err != nil {
						return err
					}
					if failA && a != "b:1" {
						return errDown
					}
					return nil
				}
				var obs []string
				for _, i := range p {
					switch ops[i] {
					case "sendA", "routeB":
						to, addr := idA, addrA
						if ops[i] == "routeB" {
							to, addr = idB, "b:1"
						}
						n := len(d.tries)
						s := &f06send{to: to, id: mid(200 + n + len(d.sends)*50)}
						d.sends = append(d.sends, s)
						if to == idA {
							s.err = d.n.SendOneWay(to, toMsg(&rmsg{id: s.id, actor: 9, action: "s"}))
						} else {
							ctx, cancel := vctx.WithTimeout(context.Background(), time.Millisecond)
							_, s.err = d.n.Route(ctx, to, toMsg(&rmsg{id: s.id, actor: 9, action: "s"}))
							cancel()
							if errors.Is(s.err, context.DeadlineExceeded) {
								s.err = nil
							}
						}
						idle()
						dialled := len(d.tries) - n
						on, err := d.wire()
						if err != nil {
							return err
						}
						switch {
						case d.closed:
							if s.err == nil && on[s.id] != 1 {
								return fmt.Errorf("sending after the close succeeded without sending")
							}
						case live[addr] != nil:
							if dialled != 0 || s.err != nil || on[s.id] != 1 {
								return fmt.Errorf("with a live connection to %s: %d dials, error %v, %d times sent", addr, dialled, s.err, on[s.id])
							}
						case to == idA && failA:
							if dialled != 1 || s.err == nil || !strings.Contains(s.err.Error(), errDown.Error()) {
								return fmt.Errorf("with %s unreachable: %d dials, error %v", addr, dialled, s.err)
							}
						default:
							if dialled != 1 || s.err != nil || on[s.id] != 1 || d.tries[n] != addr {
								return fmt.Errorf("without a connection to %s: dialled %v, error %v, %d times sent", addr, d.tries[n:], s.err, on[s.id])
							}
							live[addr] = d.dials[len(d.dials)-1]
						}
					case "endA", "resetB":
						a := addrA
						if ops[i] == "resetB" {
							a = "b:1"
						}
						if y := live[a]; y != nil {
							d.broken[y] = true
							if ops[i] == "endA" {
								y.c.FeedEOF()
							} else {
								y.c.ResetIn()
							}
							delete(live, a)
							idle()
							if !y.c.Closed() {
								return fmt.Errorf("the broken connection to %s was not closed", a)
							}
						}
					case "failA":
						failA = true
					case "healA":
						failA = false
					case "moveA":
						inst++
						pt := partner(idA, inst, phJoining)
						pt.Address = fmt.Sprintf("a:%d", 1+inst)
						in.Feed(announce(int(inst), pt).frame(plainOpt))
						idle()
						addrA = pt.Address
						if d.closed {
							addrA = "?"
						}
					case "close":
						d.closing = true
						d.n.Close()
						d.closed = true
						idle()
						live = map[string]*fdial{}
						for _, y := range d.dials {
							if y.c != nil && !y.c.Closed() {
								return fmt.Errorf("the connection to %s is open after closing the node", y.addr)
							}
						}
					}
					obs = append(obs, fmt.Sprint(ops[i], len(live), len(d.tries)))
				}
				c.Obs(strings.Join(obs, " "))
				d.closing = true
				if len(p)%2 == 0 {
					d.l.Close() // the node still closes the rest
				}
				if !d.closed {
					d.n.Close()
				}
				in.FeedEOF()
				idle()
				for _, y := range d.dials {
					if y.c != nil && !y.c.Closed() {
						return fmt.Errorf("the connection to %s is open after closing the node", y.addr)
					}
				}
				return nil
			}, nil)
		})
	}
	rec = func(p []int) {
		if len(p) > 0 && !run(p) {
			return
		}
		if len(p) == depth || c.stop {
			return
		}
		for i := range ops {
			rec(append(append([]int(nil), p...), i))
		}
	}
	rec(nil)
}

// ---------------------------------------------------------------- F07

func init() {
	add(&Scenario{Prop: "F07", Name: "replies", Shards: 8,
		Bounds: "two concurrent routed requests to different partners; replies arrive on the same or the other connection or an accepted one, in either order, with or without error code, twice, after strays with other relations; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body:   bodyF07, Judge: judgeF07})
	add(&Scenario{Prop: "F07", Name: "ending", Shards: 8,
		Bounds: "a routed request whose reply races with cancellation, a broken connection, closing the node or a second identical reply, followed by another request; all schedules with at most 3 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body:   bodyF07e, Judge: judgeF07})
	add(&Scenario{Prop: "F07", Name: "hanging", Shards: 8,
		Bounds: "two requests to a partner whose dial hangs or that takes no data, one with a context that is cancelled or times out and one without, and a request to another partner meanwhile; then the partner goes on and answers, or the node is closed; all schedules with at most 1 (thorough 2) deviations",
		Cfg:    schedCfg(vrt.Config{Bound: 1, NPCost: 1, MaxTimers: 20}, vrt.Config{Bound: 2, NPCost: 1, MaxTimers: 20}),
		Body:   bodyF07h, Judge: judgeF07})
	add(&Scenario{Prop: "F07", Name: "answers", Shards: 4,
		Bounds: "one routed request answered by each of the 9 error codes around the named ones x fault flag x body x action x actor, on each of 3 connections, preceded by each of 8 stray messages; headers of the request compared with the reference",
		Enum:   enumF07})
	add(&Scenario{Prop: "F07", Name: "addressing", Shards: 8,
		Bounds: "every sequence of up to 3 (thorough 4) operations over {routed request to each of 6 targets (partners, ids beside them, the node itself), direct message to each of 4, a newer instance of a partner announced at a new address} x 4 kinds of message identity, with new message objects or the same one sent again; headers of every message on the wire compared with the reference, every routed request answered",
		Enum:   enumF07a})
}

// enumF07a checks what sent messages say about sender, receiver and request.
func enumF07a(c *Ctx) {
	idD := nidAdd(idA, 100)
	targets := []federation.NodeID{idA, idD, nidAdd(idA, 1), nidAdd(idD, 1), selfInst.Id, nidAdd(idA, -1)}
	directs := []federation.NodeID{idA, idD, nidAdd(idD, 1), selfInst.Id}
	nops := len(targets) + len(directs) + 1
	depth := 3
	if c.Thorough {
		depth = 4
	}
	g := mid(60).Id
	ids := []transport.MessageId{{}, {Id: g, Index: 60}, {Id: g}, {Index: 60}}
	run := func(seq []int, kind int, same bool) error {
		return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
			w := newFW(x, selfInst, seedAt(idA, "a:1"))
			in := w.incoming()
			pd := partner(idD, 4, phInserting)
			pd.Address = "d:4"
			in.Feed(announce(1, pd).frame(plainOpt))
			idle()
			inst := map[federation.NodeID]uint64{idA: 0, idD: 4}
			addr := map[federation.NodeID]string{idA: "a:1", idD: "d:4"}
			var obj *transport.Message
			var used transport.MessageId
			for k, op := range seq {
				if op == nops-1 {
					pd = partner(idD, inst[idD]+3, phInserting)
					pd.Address = fmt.Sprintf("d:%d", inst[idD]+3)
					in.Feed(announce(2+k, pd).frame(plainOpt))
					idle()
					inst[idD], addr[idD] = inst[idD]+3, pd.Address
					continue
				}
				direct := op >= len(targets)
				var t federation.NodeID
				if direct {
					t = directs[op-len(targets)]
				} else {
					t = targets[op]
				}
				id := ids[kind]
				if obj == nil || !same {
					used = transport.MessageId{}
					obj = toMsg(&rmsg{actor: actFederation, action: "op", body: []byte{byte(k)}})
					if kind > 0 && !same {
						id.Index += uint32(k) << 8
					}
					obj.Headers.Id = id
				}
				n := map[*fdial]int{}
				for _, y := range w.dials {
					ms, _ := y.sent()
					n[y] = len(ms)
				}
				want := nearest(t, []federation.NodeID{idA, idD})
				var rep *transport.ByteArrayMessage
				var err error
				done := false
				m := obj
				vrt.GoNamed("op", func() {
					if direct {
						err = w.n.SendOneWay(t, m)
					} else {
						rep, err = w.n.Route(context.Background(), t, m)
					}
					done = true
				})
				idle()
				var q *rmsg
				var on *fdial
				for _, y := range w.dials {
					ms, e := y.sent()
					if e != nil {
						return e
					}
					for _, v := range ms[n[y]:] {
						if q != nil {
							return fmt.Errorf("operation %d: two messages on the wire", k)
						}
						q, on = v, y
					}
				}
				if direct && want != t {
					if !done || err == nil || q != nil {
						return fmt.Errorf("operation %d: sending directly to the unknown %v: ended %v, %v", k, t, done, err)
					}
					continue
				}
				if q == nil || on.addr != addr[want] {
					return fmt.Errorf("operation %d: message to %v is not on the wire to %s: %v", k, t, addr[want], err)
				}
				if q.id.IsEmpty() || !id.IsEmpty() && q.id != id && !(same && q.id == used) {
					return fmt.Errorf("operation %d: message with identity %v has %v on the wire", k, id, q.id)
				}
				used = q.id
				var p wPToP
				if e := q.header(hdPToP, &p); e != nil {
					return fmt.Errorf("operation %d: %v", k, e)
				}
				if p.From != w.self || p.To != (wInst{want, inst[want]}) || (p.Actor == int64(federation.PToPActorDirect)) != direct || p.ExactInstance != direct {
					return fmt.Errorf("operation %d to %v: addressing header %+v", k, t, p)
				}
				if _, _, e := w.gossip(q); e != nil {
					return fmt.Errorf("operation %d: %v", k, e)
				}
				if direct {
					if !done || err != nil {
						return fmt.Errorf("operation %d: sending directly to %v: ended %v, %v", k, t, done, err)
					}
					if q.expect {
						return fmt.Errorf("operation %d: a direct message asks for a reply", k)
					}
					for _, h := range q.custom {
						if h.typ == hdRouting {
							return fmt.Errorf("operation %d: a direct message has a routing header", k)
						}
					}
					continue
				}
				if e := w.routed(q, t, want, inst[want]); e != nil {
					return fmt.Errorf("operation %d to %v: %v", k, t, e)
				}
				r := reply(70+k, q.id, 0)
				on.c.Feed(r.frame(plainOpt))
				idle()
				if !done || err != nil || rep == nil || fromReply(rep).key() != r.key() {
					return fmt.Errorf("operation %d: request %v to %v: ended %v, %v", k, q.id, t, done, err)
				}
			}
			w.finish()
			return nil
		}, nil)
	}
	var seqs [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			seqs = append(seqs, append([]int(nil), p...))
		}
		if len(p) == depth {
			return
		}
		for i := 0; i < nops; i++ {
			rec(append(p, i))
		}
	}
	rec(nil)
	for _, s := range seqs {
		for kind := range ids {
			for k := 0; k < 2; k++ {
				if k == 1 && len(s) == 1 {
					continue
				}
				s, kind, same := s, kind, k == 1
				if !c.Case(func() string { return fmt.Sprintf("operations %v, identity %v, same object %v", s, ids[kind], same) }, func() error {
					c.Step(len(s))
					c.Obs(fmt.Sprint(s), kind, same)
					return run(s, kind, same)
				}) {
					return
				}
			}
		}
	}
}

type f07req struct {
	to    federation.NodeID
	id    transport.MessageId
	rep   *rmsg
	err   error
	ended bool
	at    time.Duration
}

type f07d struct {
	*fworld
	reqs   []*f07req
	fed    []*rmsg // replies, in the order given to the node
	cancel bool    // the context of request 0 was cancelled
	closed bool
	// the node is closed with request 13 under way
	closed2 bool
	broke   bool
	faulty  map[transport.MessageId]int64
	exact   bool // every request gets exactly one distinguishable outcome
}

func (d *f07d) route(ctx context.Context, to federation.NodeID, n int) *f07req {
	r := &f07req{to: to, id: mid(n)}
	d.reqs = append(d.reqs, r)
	m, err := d.n.Route(ctx, to, toMsg(&rmsg{id: r.id, actor: actFederation, action: "ask", body: []byte{byte(n)}}))
	r.err = err
	if err == nil && m != nil {
		r.rep = fromReply(m)
	}
	r.ended = true
	return r
}

func reply(n int, to transport.MessageId, errc int64) *rmsg {
	return &rmsg{id: mid(n), rel: to, actor: actFederation, action: "answer", errc: errc, body: []byte{byte(n), byte(n >> 8), 7}}
}

// asked waits until the request is on the wire and returns its connection.
func (d *f07d) asked(id transport.MessageId) *fdial {
	var hit *fdial
	looked := map[*fdial]int{}
	vrt.Block("request", func() bool {
		if hit != nil {
			return true
		}
		for _, y := range d.dials {
			if y.c == nil || looked[y] == len(y.c.Sent()) {
				continue
			}
			looked[y] = len(y.c.Sent())
			ms, _ := y.sent()
			for _, m := range ms {
				if m.id == id {
					hit = y
					return true
				}
			}
		}
		return false
	})
	return hit
}

func bodyF07(x *vrt.Exec) {
	k := 0
	if deep {
		k = script(12, "replies")
	} else {
		k = []int{0, 4, 7, 9, 11}[script(5, "replies")]
	}
	via, code, order := k/4, k/2%2, k%2
	d := &f07d{faulty: map[transport.MessageId]int64{}, exact: true}
	d.fworld = newFW(x, selfInst, seedAt(idA, "a:1"), seedAt(idB, "b:1"))
	d.quiet = true
	x.Data = d
	in := d.incoming()
	idle()
	vrt.Branch(true)
	par(map[string]func(){
		"askA": func() { d.route(context.Background(), idA, 11) },
		"askB": func() { d.route(context.Background(), idB, 12) },
		"peer": func() {
			a, b := d.asked(mid(11)), d.asked(mid(12))
			if via == 1 {
				a, b = b, a
			}
			ca, cb := a.c, b.c
			if via == 2 {
				ca, cb = in, in
			}
			give := func(m *rmsg, first bool) {
				d.fed = append(d.fed, m)
				if first {
					ca.Feed(m.frame(plainOpt))
				} else {
					cb.Feed(m.frame(plainOpt))
				}
			}
			errc := int64(0)
			if code == 1 {
				errc = errTimeout
				d.faulty[mid(11)] = errc
			}
			ca.Feed(reply(30, mid(99), 0).frame(plainOpt))
			if order == 0 {
				give(reply(21, mid(11), errc), true)
				give(reply(22, mid(12), 0), false)
			} else {
				give(reply(22, mid(12), 0), false)
				give(reply(23, mid(12), 0), false)
				give(reply(21, mid(11), errc), true)
			}
			cb.Feed(reply(31, transport.MessageId{}, 0).frame(plainOpt))
		},
	})
	idle()
	vrt.Branch(false)
	d.finish()
}

func bodyF07e(x *vrt.Exec) {
	what := script(5, "event")
	d := &f07d{faulty: map[transport.MessageId]int64{}}
	d.fworld = newFW(x, selfInst, seedAt(idA, "a:1"), seedAt(idB, "b:1"))
	d.quiet = true
	x.Data = d
	in := d.incoming()
	idle()
	ctx, cancel := vctx.WithCancel(context.Background())
	give := func(y *fdial, m *rmsg) {
		d.fed = append(d.fed, m)
		y.c.Feed(m.frame(plainOpt))
	}
	vrt.Branch(true)
	fs := map[string]func(){
		"ask": func() { d.route(ctx, idA, 11) },
		"event": func() {
			switch what {
			case 0: // cancellation, the reply races
				d.cancel = true
				cancel()
			case 1: // connection breaks; the reply comes on another one
				y := d.asked(mid(11))
				d.broke = true
				y.c.FeedEOF()
				m := reply(22, mid(11), 0)
				d.fed = append(d.fed, m)
				in.Feed(m.frame(plainOpt))
			case 2: // closing the node
				d.closed = true
				d.n.Close()
			case 3: // a reply on another connection, too
				d.asked(mid(11))
				m := reply(23, mid(11), 0)
				d.fed = append(d.fed, m)
				in.Feed(m.frame(plainOpt))
			case 4: // a deadline
				d.cancel = true
				vtime.Sleep(time.Second)
				cancel()
			}
		},
	}
	if what == 0 || what == 3 {
		fs["reply"] = func() { give(d.asked(mid(11)), reply(21, mid(11), 0)) }
	}
	if what == 0 {
		// the request may never be sent: the peer then has nothing to answer
		fs["reply"] = func() {
			vrt.Block("request or end", func() bool {
				if len(d.reqs) > 0 && d.reqs[0].ended {
					return true
				}
				for _, y := range d.dials {
					if ms, _ := y.sent(); y.c != nil && len(ms) > 0 {
						return true
					}
				}
				return false
			})
			for _, y := range d.dials {
				if ms, _ := y.sent(); y.c != nil && len(ms) > 0 {
					give(y, reply(21, mid(11), 0))
					break
				}
			}
		}
	}
	par(fs)
	idle()
	vrt.Branch(false)
	// the node still works
	if !d.closed {
		vrt.GoNamed("ask2", func() { d.route(context.Background(), idB, 12) })
		idle()
		for _, y := range d.dials {
			ms, _ := y.sent()
			for _, m := range ms {
				if m.id == mid(12) {
					give(y, reply(24, mid(12), 0))
				}
			}
		}
		idle()
		if len(d.reqs) < 2 || !d.reqs[1].ended || d.reqs[1].err != nil {
			vrt.Fail("after that the next request is not answered")
		}
	}
	d.finish()
}

func bodyF07h(x *vrt.Exec) {
	how := script(3, "hanging")
	limit := script(2, "time-out")
	goes := script(2, "goes on") == 1
	d := &f07d{faulty: map[transport.MessageId]int64{}, cancel: true, closed2: !goes}
	d.fworld = newFW(x, selfInst, seedAt(idA, "a:1"), seedAt(idB, "b:1"))
	d.quiet = true
	x.Data = d
	if how == 0 {
		d.hang = map[string]bool{"a:1": true}
	} else {
		d.stall = map[string]bool{"a:1": true}
	}
	idle()
	if how == 2 { // connected before
		d.stall = nil
		if err := d.n.SendOneWay(idA, toMsg(&rmsg{id: mid(5), actor: 9, action: "s"})); err != nil {
			vrt.Fail("sending before: %v", err)
		}
		for _, y := range d.dials {
			y.c.Stall = true
		}
	}
	ctx, cancel := vctx.WithCancel(context.Background())
	if limit == 1 {
		ctx, cancel = vctx.WithTimeout(ctx, time.Second)
	}
	defer cancel()
	vrt.Branch(true)
	var first, last *f07req
	answered := false
	par(map[string]func(){
		"ask":  func() { first = d.route(ctx, idA, 11) },
		"ask3": func() { last = d.route(context.Background(), idA, 13) },
		"askB": func() { d.route(context.Background(), idB, 12); answered = true },
		"B": func() {
			m := reply(22, mid(12), 0)
			d.fed = append(d.fed, m)
			d.asked(mid(12)).c.Feed(m.frame(plainOpt))
		},
		"stop": func() {
			if limit == 0 {
				cancel()
			}
			vtime.Sleep(1500 * time.Millisecond)
			idle()
			if first == nil {
				vrt.Fail("a routed request goes on although its context is done")
			}
			if !answered {
				vrt.Fail("a request is held up by another one whose partner hangs")
			}
			if last != nil {
				vrt.Fail("a request ended with %v before anything happened", last.err)
			}
			if !goes {
				d.n.Close()
				idle()
				d.release()
				return
			}
			d.release()
			m := reply(23, mid(13), 0)
			d.fed = append(d.fed, m)
			d.asked(mid(13)).c.Feed(m.frame(plainOpt))
		},
	})
	idle()
	vrt.Branch(false)
	d.finish()
}

func judgeF07(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*f07d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	bad := func(f string, a ...interface{}) { o.Viol = append(o.Viol, fmt.Sprintf(f, a...)) }
	for i, r := range d.reqs {
		if !r.ended {
			bad("request %d never ended", i)
			continue
		}
		o.Key += fmt.Sprintf("%d: %v/%v ", i, r.err != nil, r.rep != nil)
		if want := d.faulty[r.id]; want != 0 {
			if r.err == nil {
				bad("request %d was answered with error code %d and succeeded", i, want)
			}
			continue
		}
		if r.err != nil {
			switch {
			case r.id == mid(11) && d.cancel && (errors.Is(r.err, context.Canceled) || errors.Is(r.err, context.DeadlineExceeded)):
			case r.id == mid(13) && d.closed2:
			case i == 0 && d.closed:
			case i == 0 && d.broke && len(d.fed) == 0:
			default:
				bad("request %d failed: %v", i, r.err)
			}
			continue
		}
		if r.rep == nil {
			bad("request %d ended without reply or error", i)
			continue
		}
		ok := false
		for _, f := range d.fed {
			if f.rel == r.id && f.key() == r.rep.key() {
				ok = true
			}
		}
		if !ok {
			bad("request %d returned %s, which is none of its replies", i, r.rep.key())
		}
	}
	for _, y := range d.dials {
		ms, err := y.sent()
		if err != nil {
			bad("%v", err)
		}
		for _, m := range ms {
			for _, r := range d.reqs {
				if m.id != r.id {
					continue
				}
				if err := d.routed(m, r.to, r.to, 0); err != nil {
					bad("request on the wire: %v", err)
				}
			}
		}
	}
	return o
}

// routed checks the headers of a routed request.
func (w *fworld) routed(m *rmsg, target, to federation.NodeID, inst uint64) error {
	var p wPToP
	var r wRouting
	if err := m.header(hdPToP, &p); err != nil {
		return err
	}
	if err := m.header(hdRouting, &r); err != nil {
		return err
	}
	if p.From != w.self || p.To != (wInst{to, inst}) || p.Actor != int64(federation.PToPActorRouting) {
		return fmt.Errorf("addressing header %+v", p)
	}
	if r.From != w.self || r.Id != m.id.Id || r.Index != m.id.Index || !r.ExpectsReply {
		return fmt.Errorf("routing header %+v of request %v", r, m.id)
	}
	if r.To.Id != to && r.To.Id != target {
		return fmt.Errorf("the routing header of a request to %v over %v names %v as receiver", target, to, r.To)
	}
	if !m.expect {
		return fmt.Errorf("the request does not ask for a reply")
	}
	if _, _, err := w.gossip(m); err != nil {
		return err
	}
	return nil
}

func enumF07(c *Ctx) {
	actors := []int64{actFederation, 0, 3, 9, 16, 99}
	codes := []int64{0, 1, -1, errTimeout, errTimeout + 1, -2147483648, 2147483647, 1 << 40, -1 << 62}
	type stray struct {
		name string
		f    func(id transport.MessageId) *rmsg
	}
	strays := []stray{
		{"none", nil},
		{"unrelated", func(id transport.MessageId) *rmsg { return &rmsg{id: mid(40), actor: actFederation, action: "x"} }},
		{"other relation", func(id transport.MessageId) *rmsg { return reply(41, mid(77), 0) }},
		{"same guid, other index", func(id transport.MessageId) *rmsg {
			id.Index++
			return reply(42, id, 0)
		}},
		{"other guid, same index", func(id transport.MessageId) *rmsg {
			id.Id.Data4[7]++
			return reply(43, id, 0)
		}},
		{"the request itself", func(id transport.MessageId) *rmsg {
			return &rmsg{id: id, actor: actFederation, action: "ask", expect: true}
		}},
		{"announcement", func(id transport.MessageId) *rmsg { return announce(44, partner(idC, 3, phJoining)) }},
		{"transport message related to it", func(id transport.MessageId) *rmsg {
			m := reply(45, id, 0)
			m.actor = actTransport
			return m
		}},
	}
	for ci, code := range codes {
		for fault := 0; fault < 2; fault++ {
			for body := 0; body < 3; body++ {
				for via := 0; via < 3; via++ {
					for si := range strays {
						if (ci > 1 || fault > 0) && (si > 0 || body > 0) && (ci+fault+body+via+si)%5 != 0 && !c.Thorough {
							continue
						}
						for ai, ac := range actors {
							if ai > 0 && (si > 0 || ci > 1 || fault > 0) && !c.Thorough && (ci+fault+body+via+si+ai)%5 != 0 {
								continue
							}
							code, fault, body, via, st, ac := code, fault, body, via, strays[si], ac
							if !c.Case(func() string {
								return fmt.Sprintf("error code %d fault %d body %d via %d stray %s actor %d", code, fault, body, via, st.name, ac)
							}, func() error {
								c.Step(1)
								c.Obs(code, fault, body, via, st.name, ac)
								return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
									d := &f07d{}
									d.fworld = newFW(x, selfInst, seedAt(idA, "a:1"), seedAt(idB, "b:1"))
									in := d.incoming()
									if err := d.n.SendOneWay(idB, toMsg(&rmsg{actor: 9, action: "open"})); err != nil {
										return err
									}
									pa := partner(idA, 6, phInserting)
									pa.Address = "a:1"
									in.Feed(announce(1, pa).frame(plainOpt))
									idle()
									m := toMsg(&rmsg{actor: actFederation, action: "ask", body: []byte{1, 2}})
									if fault == 0 {
										m.Headers.Id = mid(11)
									}
									var rep *transport.ByteArrayMessage
									var err error
									done := false
									vrt.GoNamed("ask", func() {
										rep, err = d.n.Route(context.Background(), idA, m)
										done = true
									})
									idle()
									if len(d.dials) != 2 {
										return fmt.Errorf("%d dials", len(d.dials))
									}
									ms, e := d.dials[1].sent()
									if e != nil || len(ms) != 1 {
										return fmt.Errorf("%d messages: %v", len(ms), e)
									}
									q := ms[0]
									if q.id.IsEmpty() || (fault == 0 && q.id != mid(11)) || q.action != "ask" || q.actor != actFederation || string(q.body) != "\x01\x02" {
										return fmt.Errorf("the request on the wire is %s", q.key())
									}
									if e := d.routed(q, idA, idA, 6); e != nil {
										return e
									}
									to := in
									if via < 2 {
										to = d.dials[via].c
									}
									if st.f != nil {
										to.Feed(st.f(q.id).frame(plainOpt))
										idle()
										if done {
											return fmt.Errorf("the request ended on a stray: %v", err)
										}
									}
									r := reply(21, q.id, code)
									r.actor = ac
									r.action = []string{"answer", "", "ask"}[body]
									r.fault = fault == 1
									r.body = [][]byte{nil, {1}, refMarshal(&wStr{"text"})}[body]
									to.Feed(r.frame(plainOpt))
									idle()
									if !done {
										return fmt.Errorf("the request did not end on its reply")
									}
									if (err != nil) != (code != 0) {
										return fmt.Errorf("reply with error code %d: error %v", code, err)
									}
									if code == 0 {
										if rep == nil {
											return fmt.Errorf("neither reply nor error")
										}
										if got := fromReply(rep); got.key() != r.key() {
											return fmt.Errorf("returned %s, the reply is %s", got.key(), r.key())
										}
									}
									d.finish()
									return nil
								}, nil)
							}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- F08

func init() {
	add(&Scenario{Prop: "F08", Name: "histories", Shards: 8,
		Bounds: "1 to 3 seeds, every subset unreachable, hanging or taking no data, 0 to 3 partners announced (an unknown one, a newer instance of a seed, an older one of a known partner, the node itself) at each of 6 times, by an incoming message or in answer to a probe; on the virtual clock",
		Enum:   enumF08})
	add(&Scenario{Prop: "F08", Name: "chains", Shards: 8,
		Bounds: "news every second for 1 to 12 rounds or every 2 seconds for 1 to 4 rounds, each time 1 to 3 of {an unknown partner, a newer instance of the last one or of the seed, in place or at another address, two unknown ones at one address or one at the seed's, a newer instance in the phase shutdown, both} in every order, then a last unknown partner; on the virtual clock",
		Enum:   enumF08n})
	add(&Scenario{Prop: "F08", Name: "schedules", Shards: 8,
		Bounds: "three seeds, one unreachable, two announcements (one a newer instance of the other) while discovery runs; all schedules of the first rounds with at most 2 (thorough 3) deviations",
		Cfg: func(t bool) vrt.Config {
			c := schedCfg(bnd(2, 1), bnd(3, 1))(t)
			c.MaxTimers = 40
			return c
		},
		Body: bodyF08, Judge: judgeF08})
	add(&Scenario{Prop: "F08", Name: "cancellation", Shards: 8,
		Bounds: "two seeds, cancellation or deadline before, during or after each of the first rounds, with or without an announcement, or with a seed that hangs or takes no data; all schedules with at most 2 (thorough 3) deviations",
		Cfg: func(t bool) vrt.Config {
			c := schedCfg(bnd(2, 1), bnd(3, 1))(t)
			c.MaxTimers = 40
			return c
		},
		Body: bodyF08c, Judge: judgeF08c})
}

func (w *fworld) probes() map[string]int {
	n := map[string]int{}
	for _, y := range w.dials {
		if y.err != nil {
			n[y.addr]++
			continue
		}
		ms, _ := y.sent()
		for _, m := range ms {
			if m.action == "VotePing" && m.actor == actFederation {
				n[y.addr]++
			}
		}
	}
	return n
}

type f08d struct {
	*fworld
	seeds []federation.SeedNodeInfo
	got   []federation.PartnerNodeInfo
	err   error
	done  bool
	at    time.Duration
	stop  time.Duration
	want  map[federation.NodeID]wPartner
	alt   map[string]bool // other acceptable details
}

func (d *f08d) discover(ctx context.Context, base time.Time) {
	d.got, d.err = d.n.Discover(ctx)
	d.done, d.at = true, now(base)
}

func (d *f08d) check() error {
	seen := map[federation.NodeID]bool{}
	for _, p := range d.got {
		q := partnerInfo(p)
		if seen[q.Instance.Id] {
			return fmt.Errorf("%v is listed twice", q.Instance.Id)
		}
		seen[q.Instance.Id] = true
		w, ok := d.want[q.Instance.Id]
		if !ok {
			return fmt.Errorf("lists %s, which nobody announced", q.key())
		}
		if w.key() != q.key() {
			return fmt.Errorf("lists %s, announced was %s", q.key(), w.key())
		}
	}
	for id, w := range d.want {
		if !seen[id] {
			return fmt.Errorf("does not list %s", w.key())
		}
	}
	return nil
}

func enumF08(c *Ctx) {
	times := []time.Duration{-1, 0, 500 * time.Millisecond, 1500 * time.Millisecond, 2500 * time.Millisecond, 4500 * time.Millisecond}
	for n := 1; n <= 3; n++ {
		for down := 0; down < 3<<n; down++ {
			hang := down >> n // 0 unreachable, 1 hanging, 2 taking no data
			down := down & (1<<n - 1)
			if hang > 0 && down == 0 {
				continue
			}
			for ann := 0; ann < 8; ann++ {
				for ti := range times {
					for how := 0; how < 2; how++ {
						if ann == 0 && (ti > 0 || how > 0) {
							continue
						}
						if how == 1 && (times[ti] < 0 || down&1 != 0) {
							continue
						}
						n, down, ann, at, how := n, down, ann, times[ti], how
						if !c.Case(func() string {
							return fmt.Sprintf("%d seeds, %s: %b, announcements %b at %v way %d", n, []string{"unreachable", "hanging", "taking no data"}[hang], down, ann, at, how)
						}, func() error {
							c.Step(1)
							c.Obs(n, hang, down, ann, at, how)
							return seqCfg(vrt.Config{MaxSteps: 500000, MaxTimers: 300}, func(x *vrt.Exec) error {
								d := &f08d{want: map[federation.NodeID]wPartner{}}
								for i := 0; i < n; i++ {
									s := seedAt(nid(uint64(i), 5), fmt.Sprintf("seed:%d", i))
									d.seeds = append(d.seeds, s)
									d.want[s.Id] = seedPartner(s)
								}
								d.fworld = newFW(x, selfInst, d.seeds...)
								d.onDial = func(a string) error {
									for i := 0; i < n; i++ {
										if a == fmt.Sprintf("seed:%d", i) && hang == 0 && down>>i&1 == 1 {
											return errors.New("unreachable")
										}
									}
									return nil
								}
								d.hang, d.stall = map[string]bool{}, map[string]bool{}
								for i, s := range d.seeds {
									if down>>i&1 == 1 {
										d.hang[s.Address], d.stall[s.Address] = hang == 1, hang == 2
									}
								}
								in := d.incoming()
								idle()
								base := vtime.Now()
								ps := []wPartner{{Instance: selfInst, Address: fAddr, Phase: phJoining}}
								old := partner(idC, 2, phJoining)
								if ann&1 != 0 {
									ps = append(ps, partner(idC, 9, phRouting))
								}
								if ann&2 != 0 { // a seed tells about itself
									p := partner(d.seeds[0].Id, 4, phRouting)
									p.Address = d.seeds[0].Address
									ps = append(ps, p)
								}
								if ann&4 != 0 {
									ps = append(ps, old)
								}
								feed := func() {
									if ann == 0 {
										return
									}
									to := in
									if how == 1 {
										for _, y := range d.dials {
											if y.addr == "seed:0" && y.cl != nil {
												to = y.c
											}
										}
									}
									to.Feed(announce(1, ps...).frame(plainOpt))
									for _, p := range ps[1:] {
										if o, ok := d.want[p.Instance.Id]; !ok || better(o, p) {
											d.want[p.Instance.Id] = p
										}
									}
								}
								if at < 0 {
									feed()
									idle()
								}
								ctx, cancel := vctx.WithCancel(context.Background())
								defer cancel()
								vrt.GoNamed("discover", func() { d.discover(ctx, base) })
								if at >= 0 {
									if at == 0 {
										idle()
									}
									vtime.Sleep(at)
									feed()
								}
								idle()
								mid := d.probes()
								vtime.Sleep(2 * time.Minute)
								if !d.done {
									return fmt.Errorf("discovery does not end: %v without news", now(base)-at)
								}
								if d.err != nil {
									return fmt.Errorf("discovery failed: %v", d.err)
								}
								if err := d.check(); err != nil {
									return err
								}
								last := d.probes()
								for _, p := range d.want {
									a := p.Address
									if d.hang[a] || d.stall[a] {
										continue
									}
									if last[a] <= mid[a] && last[a] < 3 {
										return fmt.Errorf("%s was probed %d times, %d before the announcements", a, last[a], mid[a])
									}
								}
								// partners that recover after the end get at most what had begun
								stalled := d.stall
								d.release()
								idle()
								for _, p := range d.want {
									a, more := p.Address, 0
									if stalled[a] {
										more = 1
									}
									if n := d.probes()[a] - last[a]; n > more {
										return fmt.Errorf("%s was probed %d times more after discovery had ended", a, n)
									}
								}
								d.finish()
								return nil
							}, nil)
						}) {
							return
						}
					}
				}
			}
		}
	}
}

// enumF08n: discovery goes on while there are news.
func enumF08n(c *Ctx) {
	kinds := []string{"new", "newer", "newer, shut down", "two new", "new and newer", "three new", "new and a newer one of the seed", "newer at another address", "newer one of the seed at another address", "two new at one address", "a new one at the address of the seed"}
	for rounds := 1; rounds <= 12; rounds++ {
		for _, gap := range []int{1, 2} {
			if gap > 1 && rounds > 4 { // rounds without news are counted, not only the last ones
				continue
			}
			for k1 := range kinds {
				for k2 := range kinds {
					if k2 != k1 && !c.Thorough && (rounds%3 != 0 || gap > 1) {
						continue
					}
					if !c.Case(func() string {
						return fmt.Sprintf("%d rounds of news every %d s: %s, %s", rounds, gap, kinds[k1], kinds[k2])
					}, func() error {
						c.Step(rounds)
						c.Obs(rounds, gap, k1, k2)
						return f08chain(rounds, gap, k1, k2)
					}) {
						return
					}
				}
			}
		}
	}
}

func f08chain(rounds, gap, k1, k2 int) error {
	return seqCfg(vrt.Config{MaxSteps: 500000, MaxTimers: 300}, func(x *vrt.Exec) error {
		d := &f08d{want: map[federation.NodeID]wPartner{}}
		s := seedAt(nid(0, 5), "seed:0")
		d.seeds = []federation.SeedNodeInfo{s}
		d.want[s.Id] = seedPartner(s)
		d.fworld = newFW(x, selfInst, s)
		in := d.incoming()
		idle()
		base := vtime.Now()
		vrt.GoNamed("discover", func() { d.discover(context.Background(), base) })
		vtime.Sleep(500 * time.Millisecond)
		next := uint64(0)
		tell := func(ps ...wPartner) {
			in.Feed(announce(1+int(next), ps...).frame(plainOpt))
			for _, p := range ps {
				d.want[p.Instance.Id] = p
			}
			vtime.Sleep(time.Duration(gap) * time.Second)
		}
		fresh := func() wPartner {
			next++
			p := partner(nid(next, 77), 3, phJoining)
			p.Address = fmt.Sprintf("p:%d", next)
			return p
		}
		newer := func(id federation.NodeID, addr string, ph int64) wPartner {
			p := partner(id, d.want[id].Instance.InstanceId+2, ph)
			p.Address = addr
			return p
		}
		last := func(ph int64) wPartner {
			if next == 0 {
				return fresh()
			}
			return newer(nid(next, 77), fmt.Sprintf("p:%d", next), ph)
		}
		for r := 0; r < rounds; r++ {
			k := k1
			if r%2 == 1 {
				k = k2
			}
			if d.done {
				return fmt.Errorf("discovery ended after %v although every round brought news", d.at)
			}
			switch k {
			case 0:
				tell(fresh())
			case 1:
				tell(last(phInserting))
			case 2:
				tell(last(phShutdown))
			case 3:
				tell(fresh(), fresh())
			case 4:
				p := last(phInserting)
				tell(fresh(), p)
			case 5:
				tell(fresh(), fresh(), fresh())
			case 6:
				tell(fresh(), newer(s.Id, s.Address, phRouting))
			case 7:
				p := last(phInserting)
				p.Address = fmt.Sprint("moved:", r)
				tell(p)
			case 8:
				tell(newer(s.Id, fmt.Sprint("seed:0", r), phInserting))
			case 9:
				p, q := fresh(), fresh()
				q.Address = p.Address
				tell(p, q)
			case 10:
				p := fresh()
				p.Address = s.Address
				tell(p)
			}
		}
		if d.done {
			return fmt.Errorf("discovery ended after %v although every round brought news", d.at)
		}
		tell(fresh())
		vtime.Sleep(time.Minute)
		if !d.done {
			return fmt.Errorf("discovery does not end")
		}
		if d.err != nil {
			return fmt.Errorf("discovery failed: %v", d.err)
		}
		if err := d.check(); err != nil {
			return err
		}
		pr := d.probes()
		for _, p := range d.want {
			if pr[p.Address] == 0 {
				return fmt.Errorf("%s was not probed", p.Address)
			}
		}
		to := map[federation.NodeID]int{}
		for _, y := range d.dials {
			ms, _ := y.sent()
			for _, m := range ms {
				var h wPToP
				if m.action == "VotePing" && m.header(hdPToP, &h) == nil {
					to[h.To.Id]++
				}
			}
		}
		for id, p := range d.want {
			if to[id] == 0 {
				return fmt.Errorf("no probe is for %v (%s)", id, p.Address)
			}
		}
		d.finish()
		return nil
	}, nil)
}

func newF08(x *vrt.Exec, n int) *f08d {
	d := &f08d{want: map[federation.NodeID]wPartner{}, stop: -1}
	for i := 0; i < n; i++ {
		s := seedAt(nid(uint64(i), 5), fmt.Sprintf("seed:%d", i))
		d.seeds = append(d.seeds, s)
		d.want[s.Id] = seedPartner(s)
	}
	d.fworld = newFW(x, selfInst, d.seeds...)
	d.quiet = true
	d.onDial = func(a string) error {
		if a == "seed:2" {
			return errors.New("unreachable")
		}
		return nil
	}
	x.Data = d
	return d
}

func bodyF08(x *vrt.Exec) {
	d := newF08(x, 3)
	c1, c2 := d.incoming(), d.incoming()
	idle()
	base := vtime.Now()
	vrt.Branch(true)
	par(map[string]func(){
		"discover": func() { d.discover(context.Background(), base) },
		"peer": func() {
			p, q := partner(idC, 3, phJoining), partner(idC, 4, phJoining)
			c1.Feed(announce(1, q).frame(plainOpt))
			c2.Feed(announce(2, p).frame(plainOpt))
			d.want[idC] = q
			vtime.Sleep(1500 * time.Millisecond)
			vrt.Branch(false)
		},
	})
	d.finish()
}

func judgeF08(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*f08d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	if d.err != nil {
		o.Viol = append(o.Viol, fmt.Sprintf("discovery failed: %v", d.err))
		return o
	}
	if err := d.check(); err != nil {
		o.Viol = append(o.Viol, err.Error())
	}
	pr := d.probes()
	var ks []string
	for k, n := range pr {
		ks = append(ks, fmt.Sprint(k, "=", n))
	}
	sort.Strings(ks)
	o.Key = strings.Join(ks, " ")
	for _, p := range d.want {
		if pr[p.Address] < 2 {
			o.Viol = append(o.Viol, fmt.Sprintf("%s was probed %d times (%v)", p.Address, pr[p.Address], ks))
		}
	}
	return o
}

func bodyF08c(x *vrt.Exec) {
	at := []time.Duration{-1, 0, 500 * time.Millisecond, time.Second, 1500 * time.Millisecond, 3 * time.Second}[script(6, "cancel at")]
	kind := script(4, "announcement")
	d := newF08(x, 2)
	if kind == 2 {
		d.hang = map[string]bool{"seed:1": true}
	} else if kind == 3 {
		d.stall = map[string]bool{"seed:1": true}
	}
	in := d.incoming()
	idle()
	base := vtime.Now()
	ctx, cancel := vctx.WithCancel(context.Background())
	if at == time.Second {
		ctx, cancel = vctx.WithTimeout(context.Background(), at)
	} else if at < 0 {
		cancel()
	}
	if kind == 1 {
		in.Feed(announce(1, partner(idC, 3, phJoining)).frame(plainOpt))
	}
	vrt.Branch(at < 3*time.Second)
	par(map[string]func(){
		"discover": func() { d.discover(ctx, base) },
		"stop": func() {
			if at == 3*time.Second {
				vtime.Sleep(at - 600*time.Millisecond)
				vrt.Branch(true)
				vtime.Sleep(600 * time.Millisecond)
			} else if at > 0 {
				vtime.Sleep(at)
			}
			if at >= 0 && at != time.Second {
				cancel()
			}
			d.stop = now(base)
		},
	})
	vrt.Branch(false)
	cancel()
	idle()
	n := fmt.Sprint(d.probes())
	if kind < 3 {
		d.release()
	}
	vtime.Sleep(10 * time.Second)
	if m := fmt.Sprint(d.probes()); n != m {
		vrt.Fail("probed until discovery ended: %s, later: %s", n, m)
	}
	d.finish()
}

func judgeF08c(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*f08d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	o.Key = fmt.Sprintf("%v", d.err)
	if !errors.Is(d.err, context.Canceled) && !errors.Is(d.err, context.DeadlineExceeded) {
		o.Viol = append(o.Viol, fmt.Sprintf("cancelled at %v, discovery returned %v", d.stop, d.err))
	} else if d.at-d.stop >= 500*time.Millisecond {
		o.Viol = append(o.Viol, fmt.Sprintf("cancelled at %v, discovery returned at %v", d.stop, d.at))
	}
	return o
}
