package main

// Federation node: F03-F08. The harness plays the partners, on connections the node
// accepts and on connections it dials.

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

// wire shapes, independent of the library's structs

type wInst struct {
	Id         federation.NodeID
	InstanceId uint64
}

type wTok struct {
	Range   federation.NodeIdRange
	Version uint64
}

type wPartner struct {
	Instance             wInst
	Phase                int64
	Address              string
	Token                wTok
	LeaseAgentAddress    string
	LeaseAgentInstanceId int64
	EndToEnd             bool
	NodeFaultDomainId    common.Uri
	RingName             string
	Flags                int32
}

type wPToP struct {
	From, To      wInst
	Actor         int64
	FromRing      string
	ToRing        string
	ExactInstance bool
}

type wRouting struct {
	From, To        wInst
	Id              serialization.GUID
	Index           uint32
	UseExactRouting bool
	ExpectsReply    bool
	Expiration      int64
	RetryTimeout    int64
	FromRing        string
	ToRing          string
}

const (
	hdPartner = 0x800c
	hdRouting = 0x8010
	hdPToP    = 0x8013

	phBooting   = int64(federation.NodePhaseBooting)
	phJoining   = int64(federation.NodePhaseJoining)
	phInserting = int64(federation.NodePhaseInserting)
	phRouting   = int64(federation.NodePhaseRouting)
	phShutdown  = int64(federation.NodePhaseShutdown)
)

const actFederation = int64(transport.MessageActorTypeFederation)

func (p wPartner) key() string {
	return fmt.Sprintf("%v#%d phase=%d addr=%q tok=%v..%v/%d lease=%q/%d e2e=%v fd=%v ring=%q", p.Instance.Id, p.Instance.InstanceId, p.Phase, p.Address,
		p.Token.Range.Begin, p.Token.Range.End, p.Token.Version, p.LeaseAgentAddress, p.LeaseAgentInstanceId, p.EndToEnd, p.NodeFaultDomainId, p.RingName)
}

func partnerInfo(p federation.PartnerNodeInfo) wPartner {
	return wPartner{
		Instance: wInst{p.Instance.Id, p.Instance.InstanceId}, Phase: int64(p.Phase), Address: p.Address,
		Token:             wTok{p.Token.Range, p.Token.Version},
		LeaseAgentAddress: p.LeaseAgentAddress, LeaseAgentInstanceId: p.LeaseAgentInstanceId, EndToEnd: p.EndToEnd,
		NodeFaultDomainId: p.NodeFaultDomainId, RingName: p.RingName}
}

// partner makes an announcement whose every field tells its id and instance.
func partner(id federation.NodeID, inst uint64, phase int64) wPartner {
	return wPartner{
		Instance: wInst{id, inst}, Phase: phase, Address: fmt.Sprintf("p%d.%d:%d", id.Lo%1000, id.Hi%1000, 100+inst%50),
		Token:             wTok{federation.NodeIdRange{Begin: nidAdd(id, -3), End: nidAdd(id, int64(inst%100))}, inst + 10},
		LeaseAgentAddress: fmt.Sprintf("l%d:%d", id.Lo%1000, inst%1000), LeaseAgentInstanceId: int64(inst) + 5, EndToEnd: inst%2 == 1,
		NodeFaultDomainId: common.Uri{Scheme: "fd", Path: fmt.Sprintf("/r%d", inst), PathSegments: []string{"r", fmt.Sprint(inst)}},
		RingName:          fmt.Sprintf("ring%d", inst%3), Flags: int32(inst)}
}

// announce is a message carrying announcements.
func announce(n int, ps ...wPartner) *rmsg {
	m := &rmsg{id: mid(n), actor: actFederation, action: "VotePingReply"}
	for i := range ps {
		m.custom = append(m.custom, rhdr{hdPartner, refMarshal(&ps[i])})
	}
	return m
}

type fdial struct {
	addr string
	c    *vnet.Conn // the node's end
	cl   *transport.Client
	err  error
	at   int // position among dials
}

type fworld struct {
	x      *vrt.Exec
	l      *vnet.Listener
	ll     *vnet.Listener
	n      *federation.SiteNode
	ag     *lease.Agent
	self   wInst
	dials  []*fdial
	tries  []string
	in     []*vnet.Conn
	onDial func(addr string) error
	quiet  bool // operations on dialled connections are no scheduling points
	pre    func(d *fdial)
	evs    []string
	served bool
	hang   map[string]bool // dials to these wait
	stall  map[string]bool // connections to these take no data once open
}

const fAddr, flAddr = "self:1", "self:2"

var selfInst = wInst{nid(0, 1000), 77}

func newFW(x *vrt.Exec, self wInst, seeds ...federation.SeedNodeInfo) *fworld {
	w := &fworld{x: x, self: self, l: vnet.NewListener(fAddr), ll: vnet.NewListener(flAddr)}
	if x != nil {
		x.Data = w
	}
	srv, err := transport.Listen(w.l, transport.ServerConfig{})
	if err != nil {
		vrt.Fail("listening: %v", err)
		return w
	}
	w.ag, err = lease.NewAgent(ldefault(), w.ll, func(string) (net.Conn, error) { return nil, errors.New("no lease peers") })
	if err != nil {
		vrt.Fail("creating the lease agent: %v", err)
		return w
	}
	cfg := federation.SiteNodeConfig{ClientDialer: w.dial, TransportServer: srv, LeaseAgent: w.ag,
		Instance: federation.NodeInstance{Id: self.Id, InstanceId: self.InstanceId}, SeedNodes: append([]federation.SeedNodeInfo(nil), seeds...)}
	w.n, err = federation.NewSiteNode(cfg)
	for i := range cfg.SeedNodes { // the list is the caller's again
		cfg.SeedNodes[i] = federation.SeedNodeInfo{Id: nid(77, uint64(i)), Address: "changed"}
	}
	if err != nil {
		vrt.Fail("creating the node: %v", err)
		return w
	}
	vrt.GoNamed("serve", func() { w.n.Serve(); w.served = true })
	return w
}

func (w *fworld) dial(addr string) (*transport.Client, error) {
	w.tries = append(w.tries, addr)
	d := &fdial{addr: addr, at: len(w.tries)}
	vrt.Point("dial " + addr)
	if w.onDial != nil {
		if err := w.onDial(addr); err != nil {
			d.err = err
			w.dials = append(w.dials, d)
			return nil, err
		}
	}
	if w.hang[addr] {
		vrt.Block("hanging dial", func() bool { return !w.hang[addr] })
	}
	a, _ := vnet.Pipe(fmt.Sprintf("out%d", len(w.dials)), addr)
	a.NoPoint = w.quiet
	d.c = a
	if w.pre != nil {
		w.pre(d)
	}
	w.dials = append(w.dials, d)
	cl, err := transport.Connect(a, transport.ClientConfig{})
	d.cl, d.err = cl, err
	a.Stall = w.stall[addr]
	return cl, err
}

// release ends every hanging dial and lets stalled connections go on.
func (w *fworld) release() {
	w.hang, w.stall = nil, nil
	for _, y := range w.dials {
		if y.c != nil {
			y.c.Stall = false
		}
	}
}

// incoming is a connection the node accepts.
func (w *fworld) incoming() *vnet.Conn {
	a, _ := vnet.Pipe("in"+fmt.Sprint(len(w.in)), "remote")
	a.NoPoint = w.quiet
	w.in = append(w.in, a)
	w.l.Queue(a)
	return a
}

func (w *fworld) finish() {
	w.n.Close()
	w.release()
	for _, c := range w.in {
		c.FeedEOF()
	}
}

// sent parses what the node sent on a dialled connection, without the opening message.
func (d *fdial) sent() ([]*rmsg, error) {
	if d.c == nil {
		return nil, nil
	}
	ms, _, err := parseStream(d.c.Sent(), plainOpt)
	if len(ms) > 0 {
		ms = ms[1:]
	}
	return ms, err
}

func (w *fworld) knows() map[federation.NodeID]wPartner {
	m := map[federation.NodeID]wPartner{}
	for _, p := range w.n.KnownPartnerNodes(func(federation.PartnerNodeInfo) bool { return true }) {
		m[p.Instance.Id] = partnerInfo(p)
	}
	return m
}

// script enumerates what the environment does in an execution.
func script(n int, what string) int {
	vrt.Branch(true)
	k := vrt.Choose(n, 0, what)
	vrt.Branch(false)
	return k
}

func seedAt(id federation.NodeID, addr string) federation.SeedNodeInfo {
	return federation.SeedNodeInfo{Id: id, Address: addr}
}

func seedPartner(s federation.SeedNodeInfo) wPartner {
	return wPartner{Instance: wInst{Id: s.Id}, Address: s.Address}
}

// gossip splits the announcements of a sent message: the node itself, the others.
func (w *fworld) gossip(m *rmsg) (self *wPartner, others []wPartner, err error) {
	first := true
	for _, h := range m.custom {
		if h.typ != hdPartner {
			continue
		}
		var p wPartner
		if e := refDecode(h.val, &p); e != nil {
			return nil, nil, fmt.Errorf("announcement %x: %v", clip(h.val), e)
		}
		if first {
			first = false
			if p.Instance != w.self {
				return nil, nil, fmt.Errorf("the first announcement of a message is %s, not the node itself", p.key())
			}
			if p.Address != fAddr || p.LeaseAgentAddress != flAddr {
				return nil, nil, fmt.Errorf("the node announces itself as %s", p.key())
			}
			p := p
			self = &p
			continue
		}
		if p.Instance.Id == w.self.Id {
			continue
		}
		others = append(others, p)
	}
	if self == nil {
		return nil, nil, fmt.Errorf("a message without announcement of the node itself: %s", m.key())
	}
	return self, others, nil
}

func (m *rmsg) header(t uint16, v interface{}) error {
	n := 0
	for _, h := range m.custom {
		if h.typ == t {
			n++
			if err := refDecode(h.val, v); err != nil {
				return fmt.Errorf("header %#x %x: %v", t, clip(h.val), err)
			}
		}
	}
	if n != 1 {
		return fmt.Errorf("header %#x %d times", t, n)
	}
	return nil
}

// better: b replaces a as knowledge of one partner.
func better(a, b wPartner) bool {
	return b.Instance.InstanceId > a.Instance.InstanceId || (b.Instance.InstanceId == a.Instance.InstanceId && b.Phase > a.Phase)
}

// ---------------------------------------------------------------- F03

func init() {
	add(&Scenario{Prop: "F03", Name: "histories", Shards: 8,
		Bounds: "every history of up to 3 (thorough 4) announcements over 2 partners (one of them a seed) x 3-5 instances up to the largest, one of them in 3-4 phases, with full or few details, delivered in separate messages, all in one message, over an accepted and a dialled connection in turn, or in replies to routed requests (histories of 2, thorough 4); after each the known partners and at the end the announcements of a sent message",
		Enum:   enumF03})
	add(&Scenario{Prop: "F03", Name: "concurrent", Shards: 8,
		Bounds: "three messages over two accepted connections announcing 2 partners at 2-3 instances, in every order of arrival, with a goroutine reading the known partners twice and one sending; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body:   bodyF03, Judge: judgeF03})
	add(&Scenario{Prop: "F03", Name: "steps", Shards: 8,
		Bounds: "two messages announcing an older and a newer instance (or an earlier and a later phase) of one partner processed at the same time, in either order; every memory access of the package is a scheduling point; all schedules with at most 4 (thorough 5) deviations",
		Cfg: func(t bool) vrt.Config {
			c := schedCfg(bnd(4, 1), bnd(5, 1))(t)
			c.Access, c.In = true, []string{"federation/"}
			return c
		},
		Body: bodyF03s, Judge: judgeF03})
	add(&Scenario{Prop: "F03", Name: "many", Bounds: "0 to 40, 63 to 65, 100, 127 to 129 and 200 (thorough up to 300) known partners, learned in one message or one by one in ascending, descending or interleaved order: all known, all announced once in a sent message",
		Enum: enumF03many})
}

var (
	idA = nid(0, 50)
	idB = nid(7, 3)
	idC = nid(1<<63, 900)
)

func enumF03(c *Ctx) {
	var alpha []wPartner
	for _, id := range []federation.NodeID{idA, idB} {
		for _, in := range []uint64{1, 2, 1 << 40} {
			alpha = append(alpha, partner(id, in, phJoining))
			if in == 2 {
				alpha = append(alpha, partner(id, in, phRouting), partner(id, in, phShutdown))
			}
		}
	}
	// announcements with few details, and the largest instances
	bare := func(id federation.NodeID, in uint64, ph int64) wPartner {
		return wPartner{Instance: wInst{id, in}, Phase: ph}
	}
	alpha = append(alpha, bare(idB, 2, phInserting), bare(idB, 3, phJoining), bare(idB, 1<<40, phRouting), partner(idB, 1<<63, phBooting), partner(idA, 1<<64-1, phJoining))
	deep := 3
	if c.Thorough {
		deep = 4
	}
	var seq [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			seq = append(seq, append([]int(nil), p...))
		}
		if len(p) == deep {
			return
		}
		for i := range alpha {
			rec(append(p, i))
		}
	}
	rec(nil)
	for _, s := range seq {
		for how := 0; how < 4; how++ {
			if how == 3 && len(s) > 2 && !c.Thorough || len(s) == 1 && how == 1 {
				continue
			}
			s, how := s, how
			if !c.Case(func() string {
				var d []string
				for _, i := range s {
					d = append(d, alpha[i].key())
				}
				return fmt.Sprintf("delivery %d: %s", how, strings.Join(d, "; "))
			}, func() error {
				c.Step(len(s))
				var obs []string
				err := seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
					seed := seedAt(idA, "seed:1")
					w := newFW(x, selfInst, seed)
					in := w.incoming()
					want := map[federation.NodeID]wPartner{idA: seedPartner(seed)}
					note := func(i int) {
						a := alpha[i]
						if o, ok := want[a.Instance.Id]; !ok || better(o, a) {
							want[a.Instance.Id] = a
						}
					}
					var out *fdial
					if how >= 2 {
						if err := w.n.SendOneWay(idA, toMsg(&rmsg{actor: 9, action: "open"})); err != nil {
							return fmt.Errorf("sending to the seed: %v", err)
						}
						idle()
						if len(w.dials) != 1 {
							return fmt.Errorf("%d dials", len(w.dials))
						}
						out = w.dials[0]
					}
					check := func() error {
						got := w.knows()
						delete(got, w.self.Id)
						for id, p := range want {
							g, ok := got[id]
							if !ok {
								return fmt.Errorf("partner %v is not known", id)
							}
							if g.key() != p.key() {
								return fmt.Errorf("known about %v: %s, announced: %s", id, g.key(), p.key())
							}
						}
						if len(got) != len(want) {
							return fmt.Errorf("%d partners known, %d announced", len(got), len(want))
						}
						return nil
					}
					if how == 1 {
						var all []wPartner
						for _, i := range s {
							all = append(all, alpha[i])
							note(i)
						}
						in.Feed(announce(1, all...).frame(plainOpt))
						idle()
						if err := check(); err != nil {
							return err
						}
					} else {
						for k, i := range s {
							note(i)
							to := in
							if out != nil && k%2 == 1 {
								to = out.c
							}
							m := announce(k+1, alpha[i])
							m.actor = []int64{actFederation, 3, 9, 0}[(k+i)%4] // announcements count in messages to anybody
							m.action = []string{"VotePingReply", "ask", ""}[(k+i)%3]
							if how == 3 { // and in replies to a routed request, also a failing one
								vrt.GoNamed("route", func() { w.n.Route(context.Background(), idA, toMsg(&rmsg{id: mid(600 + k), actor: 9})) })
								idle()
								m.rel = mid(600 + k)
								m.errc = []int64{0, -5, 7}[(k+i)%3]
							}
							to.Feed(m.frame(plainOpt))
							idle()
							if err := check(); err != nil {
								return fmt.Errorf("after announcement %d: %v", k+1, err)
							}
						}
					}
					for id, p := range want {
						obs = append(obs, fmt.Sprint(id, p.Instance.InstanceId, p.Phase))
					}
					sort.Strings(obs)
					n := len(w.dials)
					probe := toMsg(&rmsg{actor: 9, action: "probe"})
					for again := 0; again < 2; again++ {
						if again == 1 { // the same message once more, when more is known
							p := partner(idC, 5, phInserting)
							want[idC] = p
							in.Feed(announce(90, p).frame(plainOpt))
							idle()
							n = len(w.dials)
						}
						if err := w.n.SendOneWay(idA, probe); err != nil {
							return fmt.Errorf("sending to a known partner: %v", err)
						}
						idle()
						d := w.dials[len(w.dials)-1]
						if n > 0 && len(w.dials) == n { // reused
							d = w.dials[n-1]
						}
						ms, err := d.sent()
						if err != nil || len(ms) == 0 {
							return fmt.Errorf("nothing readable sent: %v", err)
						}
						_, others, err := w.gossip(ms[len(ms)-1])
						if err != nil {
							return err
						}
						if err := sameGossip(others, want); err != nil {
							return fmt.Errorf("message sent %d times: %v", again+1, err)
						}
					}
					w.finish()
					return nil
				}, nil)
				c.Obs(strings.Join(obs, "|"))
				return err
			}) {
				return
			}
		}
	}
}

func sameGossip(others []wPartner, want map[federation.NodeID]wPartner) error {
	seen := map[federation.NodeID]bool{}
	for _, o := range others {
		p, ok := want[o.Instance.Id]
		if !ok || p.Instance.InstanceId == 0 {
			return fmt.Errorf("announces %s, which has no real instance", o.key())
		}
		if seen[o.Instance.Id] {
			return fmt.Errorf("announces %v twice", o.Instance.Id)
		}
		seen[o.Instance.Id] = true
		if o.key() != p.key() {
			return fmt.Errorf("announces %s, known is %s", o.key(), p.key())
		}
	}
	for id, p := range want {
		if p.Instance.InstanceId != 0 && !seen[id] {
			return fmt.Errorf("does not announce %s", p.key())
		}
	}
	return nil
}

type f03d struct {
	*fworld
	ann    []wPartner
	before map[federation.NodeID]wPartner
	mid    map[federation.NodeID]wPartner
	after  map[federation.NodeID]wPartner
	final  map[federation.NodeID]wPartner
	err    error
	sender bool
}

func bodyF03(x *vrt.Exec) {
	seed := seedAt(idA, "seed:1")
	w := newFW(x, selfInst, seed)
	w.quiet = true
	d := &f03d{fworld: w, sender: true}
	x.Data = d
	a2, a3, b1, b2 := partner(idA, 2, phJoining), partner(idA, 3, phRouting), partner(idB, 1, phJoining), partner(idB, 2, phJoining)
	d.ann = []wPartner{seedPartner(seed), a2, a3, b1, b2}
	c1, c2 := w.incoming(), w.incoming()
	idle()
	order := perms(3)[script(6, "order")]
	ms := []*rmsg{announce(1, a3, b1), announce(2, a2), announce(3, b2, a2)}
	for i, k := range order {
		to := c1
		if i == 1 {
			to = c2
		}
		to.Feed(ms[k].frame(plainOpt))
	}
	vrt.Branch(true)
	par(map[string]func(){
		"reader": func() {
			d.before = w.knows()
			d.mid = w.knows()
		},
		"sender": func() { d.err = w.n.SendOneWay(idA, toMsg(&rmsg{actor: 9, action: "probe"})) },
	})
	d.after = w.knows()
	idle()
	vrt.Branch(false)
	d.final = w.knows()
	w.finish()
}

func bodyF03s(x *vrt.Exec) {
	w := newFW(x, selfInst, seedAt(nid(0, 9), "seed:1"))
	w.quiet = true
	d := &f03d{fworld: w}
	x.Data = d
	p, q := partner(idA, 4, phRouting), partner(idA, 3, phRouting)
	switch script(4, "pair") {
	case 1:
		p, q = q, p
	case 2:
		q = partner(idA, 4, phJoining)
	case 3:
		q = partner(idA, 4, phJoining)
		p, q = q, p
	}
	d.ann = []wPartner{seedPartner(seedAt(nid(0, 9), "seed:1")), p, q}
	c1, c2 := w.incoming(), w.incoming()
	idle()
	vrt.Branch(true)
	c1.Feed(announce(1, p).frame(plainOpt))
	c2.Feed(announce(2, q).frame(plainOpt))
	idle()
	vrt.Branch(false)
	d.final = w.knows()
	w.finish()
}

func judgeF03(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*f03d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	bad := func(f string, a ...interface{}) { o.Viol = append(o.Viol, fmt.Sprintf(f, a...)) }
	best := map[federation.NodeID]wPartner{}
	legal := map[string]bool{}
	for _, a := range d.ann {
		legal[a.key()] = true
		if b, ok := best[a.Instance.Id]; !ok || better(b, a) {
			best[a.Instance.Id] = a
		}
	}
	for _, m := range []map[federation.NodeID]wPartner{d.before, d.mid, d.after, d.final} {
		delete(m, d.self.Id)
		for _, p := range m {
			if !legal[p.key()] {
				bad("knows %s, which nobody announced", p.key())
			}
		}
	}
	grow := func(what string, a, b map[federation.NodeID]wPartner) {
		for id, p := range a {
			q, ok := b[id]
			if !ok {
				bad("%s: %v was known and then no longer", what, id)
			} else if better(q, p) {
				bad("%s: went back from %s to %s", what, p.key(), q.key())
			}
		}
	}
	grow("two reads", d.before, d.mid)
	grow("later read", d.mid, d.after)
	grow("last read", d.after, d.final)
	for id, p := range best {
		if q, ok := d.final[id]; !ok || q.key() != p.key() {
			bad("in the end knows %s, announced was %s", q.key(), p.key())
		}
	}
	if len(d.final) != len(best) {
		bad("in the end knows %d partners of %d", len(d.final), len(best))
	}
	o.Key = fmt.Sprintf("mid %d", len(d.mid))
	if d.sender {
		if d.err != nil {
			bad("sending to a known partner: %v", d.err)
			return o
		}
		ms, err := d.dials[0].sent()
		if err != nil || len(ms) != 1 {
			bad("the send put %d messages on the wire (%v)", len(ms), err)
			return o
		}
		_, others, err := d.gossip(ms[0])
		if err != nil {
			bad("%v", err)
			return o
		}
		said := map[federation.NodeID]wPartner{}
		for _, p := range others {
			if !legal[p.key()] || p.Instance.InstanceId == 0 {
				bad("announces %s", p.key())
			}
			if _, ok := said[p.Instance.Id]; ok {
				bad("announces %v twice in one message", p.Instance.Id)
			}
			said[p.Instance.Id] = p
			o.Key += fmt.Sprintf(" %d.%d", p.Instance.Id.Lo, p.Instance.InstanceId)
		}
		for id, p := range said {
			if q, ok := d.after[id]; !ok || better(q, p) {
				bad("announced %s before knowing it", p.key())
			}
		}
	}
	return o
}

func enumF03many(c *Ctx) {
	var ns []int
	for n := 0; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 63, 64, 65, 100, 127, 128, 129, 200)
	if c.Thorough {
		ns = append(ns, 255, 256, 257, 300)
	}
	for _, n := range ns {
		for how := 0; how < 4; how++ {
			n, how := n, how
			if !c.Case(func() string { return fmt.Sprintf("%d partners, way %d", n, how) }, func() error {
				c.Step(n)
				c.Obs(n, how)
				return seqCfg(vrt.Config{MaxSteps: 500000, MaxTimers: 100}, func(x *vrt.Exec) error {
					seed := seedAt(nid(99, 99), "seed:1")
					w := newFW(x, selfInst, seed)
					in := w.incoming()
					want := map[federation.NodeID]wPartner{seed.Id: seedPartner(seed)}
					var all []wPartner
					for i := 0; i < n; i++ {
						k := i
						switch how {
						case 1:
							k = n - 1 - i
						case 2:
							k = (i * 7) % 311
						}
						p := partner(nid(uint64(k*31%17)<<40, uint64(k)), uint64(k+1), int64(k%5))
						all = append(all, p)
						want[p.Instance.Id] = p
					}
					if how == 3 {
						in.Feed(announce(1, all...).frame(plainOpt))
					} else {
						for i, p := range all {
							in.Feed(announce(i+1, p).frame(plainOpt))
						}
					}
					idle()
					got := w.knows()
					delete(got, w.self.Id)
					if len(got) != len(want) {
						return fmt.Errorf("%d partners known of %d", len(got), len(want))
					}
					for id, p := range want {
						if g := got[id]; g.key() != p.key() {
							return fmt.Errorf("known %s, announced %s", g.key(), p.key())
						}
					}
					evens := w.n.KnownPartnerNodes(func(p federation.PartnerNodeInfo) bool { return p.Instance.InstanceId%2 == 0 })
					ne := 0
					for _, p := range want {
						if p.Instance.InstanceId%2 == 0 {
							ne++
						}
					}
					for _, p := range evens {
						if p.Instance.InstanceId%2 != 0 {
							return fmt.Errorf("a filtered-out partner was listed")
						}
					}
					if len(evens) != ne {
						return fmt.Errorf("%d partners pass the filter, %d listed", ne, len(evens))
					}
					if err := w.n.SendOneWay(seed.Id, toMsg(&rmsg{actor: 9, action: "probe"})); err != nil {
						return err
					}
					idle()
					ms, err := w.dials[0].sent()
					if err != nil || len(ms) != 1 {
						return fmt.Errorf("%d messages sent: %v", len(ms), err)
					}
					_, others, err := w.gossip(ms[0])
					if err != nil {
						return err
					}
					if err := sameGossip(others, want); err != nil {
						return err
					}
					w.finish()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- F04

func init() {
	add(&Scenario{Prop: "F04", Name: "nearest", Shards: 8,
		Bounds: "every set of 1-3 (thorough 4) known partners over 10 (thorough 14) ring positions (0, 1, the top, one below and above the middle, the word boundary, the node's own neighbours), in all phases, x every target of the same positions, one step beside them and the node itself, routed and direct; compared with the walk definition",
		Enum:   func(c *Ctx) { enumF04(c) }})
	add(&Scenario{Prop: "F04", Name: "table-order", Shards: 4,
		Bounds: "3 (thorough 4) known partners around the target in 6 layouts, learned in every order, with every iteration order of the partner table",
		Cfg: func(t bool) vrt.Config {
			c := schedCfg(bnd(0, 1), bnd(0, 1))(t)
			c.MapOrder = true
			c.MaxTimers = 50
			return c
		},
		Body: bodyF04, Judge: judgeF04})
}

// nearest is the partner met first walking upwards from the target.
func nearest(target federation.NodeID, ids []federation.NodeID) federation.NodeID {
	var best federation.NodeID
	for i, p := range ids {
		if i == 0 || ringDist(target, p).Cmp(ringDist(target, best)) < 0 {
			best = p
		}
	}
	return best
}

func f04ids(thorough bool) []federation.NodeID {
	max := nid(^uint64(0), ^uint64(0))
	ids := []federation.NodeID{nid(0, 0), nid(0, 1), max, nid(1<<63, 0), nidAdd(nid(1<<63, 0), -1), nid(1, 0), nidAdd(selfInst.Id, 1),
		nidAdd(nid(1<<63, 0), 1), nidAdd(nid(1, 0), -1), nidAdd(selfInst.Id, -1)}
	if thorough {
		ids = append(ids, nidAdd(max, -1), nid(0, 1<<63), nid(5, 5), nid(1<<62, 1))
	}
	return ids
}

// checkChoice routes or sends and tells which address was used.
func (w *fworld) tryRoute(target federation.NodeID, direct bool) (m *rmsg, addr string, dials int, err error) {
	before := map[*fdial]int{}
	for _, d := range w.dials {
		ms, _ := d.sent()
		before[d] = len(ms)
	}
	n := len(w.tries)
	done := false
	msg := toMsg(&rmsg{actor: actFederation, action: "x", id: mid(700 + n)})
	vrt.GoNamed("call", func() {
		if direct {
			err = w.n.SendOneWay(target, msg)
		} else {
			_, err = w.n.Route(context.Background(), target, msg)
		}
		done = true
	})
	idle()
	cnt := 0
	for _, d := range w.dials {
		ms, e := d.sent()
		if e != nil {
			return nil, "", 0, e
		}
		for _, k := range ms[before[d]:] {
			m, addr = k, d.addr
			cnt++
		}
		if len(ms) > before[d] && !direct {
			d.c.Feed((&rmsg{id: mid(900), rel: m.id, actor: actFederation, action: "reply"}).frame(plainOpt))
		}
	}
	idle()
	if cnt > 1 {
		return nil, "", 0, fmt.Errorf("%d messages on the wire for one call", cnt)
	}
	if !done {
		return nil, "", 0, errors.New("the call did not end although its reply arrived")
	}
	return m, addr, len(w.tries) - n, err
}

func enumF04(c *Ctx) {
	pos := f04ids(c.Thorough)
	var targets []federation.NodeID
	seen := map[federation.NodeID]bool{}
	for _, p := range append(pos, selfInst.Id) {
		for _, d := range []int64{0, 1, -1} {
			if t := nidAdd(p, d); !seen[t] {
				seen[t] = true
				targets = append(targets, t)
			}
		}
	}
	var sets [][]federation.NodeID
	for i := range pos {
		sets = append(sets, []federation.NodeID{pos[i]})
		for j := i + 1; j < len(pos); j++ {
			sets = append(sets, []federation.NodeID{pos[i], pos[j]})
			for k := j + 1; k < len(pos); k++ {
				sets = append(sets, []federation.NodeID{pos[i], pos[j], pos[k]})
				for l := k + 1; l < len(pos) && c.Thorough; l++ {
					sets = append(sets, []federation.NodeID{pos[i], pos[j], pos[k], pos[l]})
				}
			}
		}
	}
	for ci, set := range sets {
		ci, set := ci, set
		if !c.Case(func() string { return fmt.Sprintf("partners %v x %d targets", set, len(targets)) }, func() error {
			return seqCfg(vrt.Config{MaxSteps: 2000000, MaxTimers: 1000}, func(x *vrt.Exec) error {
				// the first partner is the seed, the last one is announced with a new address
				seed := seedAt(set[0], "seed:1")
				w := newFW(x, selfInst, seed)
				addr := map[federation.NodeID]string{set[0]: "seed:1"}
				inst := map[federation.NodeID]uint64{}
				in := w.incoming()
				// the node itself is also announced: it must not be chosen
				in.Feed(announce(99, wPartner{Instance: selfInst, Address: fAddr, Phase: phJoining}).frame(plainOpt))
				for i, id := range set {
					if i == 0 && len(set) > 1 {
						continue
					}
					ph := []int64{phShutdown, phRouting, phBooting, phJoining, phInserting}[(i+ci)%5]
					p := partner(id, uint64(i+1), ph)
					p.Address = fmt.Sprintf("at%d:%d", i, i)
					addr[id], inst[id] = p.Address, p.Instance.InstanceId
					in.Feed(announce(i+1, p).frame(plainOpt))
				}
				idle()
				for _, t := range targets {
					want := nearest(t, set)
					m, a, _, err := w.tryRoute(t, false)
					if err != nil {
						return fmt.Errorf("routing to %v: %v", t, err)
					}
					if a != addr[want] || m == nil {
						return fmt.Errorf("routing to %v went to %q, nearest is %v at %q", t, a, want, addr[want])
					}
					c.Step(2)
					c.Obs(fmt.Sprint(set), t.String(), a)
					var pp wPToP
					if err := m.header(hdPToP, &pp); err != nil {
						return err
					}
					if pp.From != w.self || pp.To != (wInst{want, inst[want]}) || pp.Actor != 2 {
						return fmt.Errorf("routing to %v: header %+v", t, pp)
					}
					exact := false
					for _, p := range set {
						exact = exact || p == t
					}
					m, a, dials, err := w.tryRoute(t, true)
					if !exact {
						if err == nil || m != nil || dials != 0 {
							return fmt.Errorf("sending directly to the unknown %v: error %v, %d dials, message %v", t, err, dials, m != nil)
						}
						continue
					}
					if err != nil || m == nil || a != addr[t] {
						return fmt.Errorf("sending directly to %v: went to %q: %v", t, a, err)
					}
					if err := m.header(hdPToP, &pp); err != nil {
						return err
					}
					if pp.From != w.self || pp.To != (wInst{t, inst[t]}) || pp.Actor != 0 {
						return fmt.Errorf("direct to %v: header %+v", t, pp)
					}
				}
				w.finish()
				return nil
			}, nil)
		}) {
			return
		}
	}
	// only the node itself is known
	c.Case(func() string { return "no partner but the node itself" }, func() error {
		return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
			w := newFW(x, selfInst, seedAt(selfInst.Id, fAddr))
			for _, t := range targets {
				for _, direct := range []bool{true, false} {
					m, _, dials, err := w.tryRoute(t, direct)
					if err == nil || m != nil || dials != 0 {
						return fmt.Errorf("sending to %v with no partner known: error %v, %d dials", t, err, dials)
					}
				}
			}
			w.finish()
			return nil
		}, nil)
	})
}

type f04d struct {
	*fworld
	want, got string
	err       error
}

func bodyF04(x *vrt.Exec) {
	layouts := [][]int64{{1, 2, 3, 4}, {-1, -2, -3, -4}, {-1, 1, -2, 2}, {0, -1, 1, 2}, {-1, 5, 6, 7}, {1000, 2000, -5, -6}}
	lay := layouts[script(len(layouts), "layout")]
	t := nid(5, 0)
	n, np := 3, 6
	if deep {
		n, np = 4, 24
	}
	p := perms(n)[script(np, "learned")]
	var ids []federation.NodeID
	for i := 0; i < n; i++ {
		ids = append(ids, nidAdd(t, lay[i]))
	}
	vrt.Branch(false)
	w := newFW(x, selfInst, seedAt(ids[p[0]], "seed:1"))
	d := &f04d{fworld: w}
	x.Data = d
	in := w.incoming()
	addr := map[federation.NodeID]string{ids[p[0]]: "seed:1"}
	for k, i := range p {
		if k == 0 {
			continue
		}
		a := partner(ids[i], uint64(i+1), phJoining)
		a.Address = fmt.Sprintf("at%d:1", i)
		addr[ids[i]] = a.Address
		in.Feed(announce(k, a).frame(plainOpt))
	}
	idle()
	d.want = addr[nearest(t, ids)]
	vrt.Branch(true)
	_, d.got, _, d.err = w.tryRoute(t, false)
	vrt.Branch(false)
	w.finish()
}

func judgeF04(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*f04d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	o.Key = d.got
	if d.err != nil || d.got != d.want {
		o.Viol = append(o.Viol, fmt.Sprintf("routed to %q (%v), nearest is at %q", d.got, d.err, d.want))
	}
	return o
}

// ---------------------------------------------------------------- F05

func init() {
	add(&Scenario{Prop: "F05", Name: "announcements", Shards: 8,
		Bounds: "bootstrapping with two seeds, each reachable or not, while one or two of {routing partner, joining partner, a joining partner that becomes routing} are announced on accepted connections or in the answer to a probe; all schedules with at most 2 (thorough 3) deviations, probe rounds on a virtual clock",
		Cfg: func(t bool) vrt.Config {
			c := schedCfg(bnd(2, 1), bnd(3, 1))(t)
			c.MaxTimers = 12
			return c
		},
		Body: bodyF05, Judge: judgeF05})
	add(&Scenario{Prop: "F05", Name: "window", Shards: 8,
		Bounds: "one routing announcement while Bootstrap runs; every memory access of the package is a scheduling point; all schedules with at most 3 (thorough 4) deviations",
		Cfg: func(t bool) vrt.Config {
			c := schedCfg(bnd(3, 1), bnd(4, 1))(t)
			c.MaxTimers = 8
			c.Access, c.In = true, []string{"federation/"}
			return c
		},
		Body: bodyF05w, Judge: judgeF05})
	add(&Scenario{Prop: "F05", Name: "cancellation", Shards: 8,
		Bounds: "bootstrapping with two seeds, each reachable or not, no routing partner, cancelled or timing out before, during or after 0-3 probe rounds; all schedules with at most 2 (thorough 3) deviations",
		Cfg: func(t bool) vrt.Config {
			c := schedCfg(bnd(2, 1), bnd(3, 1))(t)
			c.MaxTimers = 12
			return c
		},
		Body: bodyF05c, Judge: judgeF05})
	add(&Scenario{Prop: "F05", Name: "phases", Shards: 4, Bounds: "every sequence of up to 3 (thorough 4) announcements over 7 phases (also an unknown one) x 3 partners (a seed, another node, a newer instance of it), one message each or all in one, before or while Bootstrap runs: it returns exactly when a partner has become routing",
		Enum: enumF05p})
	add(&Scenario{Prop: "F05", Name: "rounds", Bounds: "1 to 4 seeds (and the node itself at every place among up to 3), every subset unreachable (always, or only at first), hanging (always, or at first) or taking no data, 6 probe rounds on the virtual clock, then a routing announcement in each round, or a context deadline",
		Enum: enumF05})
}

type f05d struct {
	*fworld
	ctx      context.Context
	err      error
	done     bool
	doneAt   time.Duration
	routeAt  time.Duration // when a routing partner was announced and processed, -1 never
	cancelAt time.Duration
	seeds    []federation.SeedNodeInfo
	down     map[string]bool
	wasDown  map[string]bool
	post     []*rmsg
	early    bool // phase before anything
}

func newF05(x *vrt.Exec, seeds int) *f05d {
	d := &f05d{routeAt: -1, cancelAt: -1, down: map[string]bool{}}
	d.seeds = []federation.SeedNodeInfo{seedAt(idB, "seed:2"), seedAt(idA, "seed:1")}[:seeds]
	d.fworld = newFW(x, selfInst, d.seeds...)
	d.quiet = true
	d.onDial = func(a string) error {
		if d.down[a] {
			return errors.New("unreachable")
		}
		return nil
	}
	x.Data = d
	return d
}

func now(base time.Time) time.Duration { return vtime.Now().Sub(base) }

func (d *f05d) bootstrap(ctx context.Context, base time.Time) {
	d.err = d.n.Bootstrap(ctx)
	d.done, d.doneAt = true, now(base)
}

func bodyF05(x *vrt.Exec) {
	k := script(3, "seeds down")
	what := script(5, "announcements")
	base := vtime.Now()
	vrt.Branch(false)
	d := newF05(x, 2)
	d.down["seed:1"], d.down["seed:2"] = k&1 != 0, k&2 != 0
	c1, c2 := d.incoming(), d.incoming()
	idle()
	ctx, cancel := vctx.WithTimeout(context.Background(), 100*time.Second)
	vrt.Branch(true)
	route := partner(idC, 5, phRouting)
	par(map[string]func(){
		"boot": func() { d.bootstrap(ctx, base) },
		"peer": func() {
			switch what {
			case 0:
				c1.Feed(announce(1, route).frame(plainOpt))
			case 1: // two at once
				c1.Feed(announce(1, route).frame(plainOpt))
				c2.Feed(announce(2, partner(idA, 3, phRouting)).frame(plainOpt))
			case 2: // the same instance is first seen joining
				c1.Feed(announce(1, partner(idC, 5, phJoining)).frame(plainOpt))
				vrt.Point("later")
				c2.Feed(announce(2, route).frame(plainOpt))
			case 3: // joining, then a newer instance routing, in one message
				c1.Feed(announce(1, partner(idC, 4, phJoining), route).frame(plainOpt))
			case 4: // in answer to a probe
				vrt.Block("probe", func() bool {
					for _, y := range d.dials {
						if ms, _ := y.sent(); y.c != nil && len(ms) > 0 {
							return true
						}
					}
					return false
				})
				for _, y := range d.dials {
					if ms, _ := y.sent(); y.c != nil && len(ms) > 0 {
						y.c.Feed(announce(1, route).frame(plainOpt))
						break
					}
				}
			}
			d.routeAt = now(base)
		},
	})
	vrt.Branch(false)
	cancel()
	idle()
	d.later()
	d.finish()
}

func bodyF05w(x *vrt.Exec) {
	base := vtime.Now()
	vrt.Branch(false)
	d := newF05(x, 1)
	c1 := d.incoming()
	idle()
	ctx, cancel := vctx.WithTimeout(context.Background(), 100*time.Second)
	vrt.Branch(true)
	par(map[string]func(){
		"boot": func() { d.bootstrap(ctx, base) },
		"peer": func() {
			c1.Feed(announce(1, partner(idC, 5, phRouting)).frame(plainOpt))
			d.routeAt = now(base)
		},
	})
	vrt.Branch(false)
	cancel()
	idle()
	d.later()
	d.finish()
}

// later sends after everything to see the announced phase.
func (d *f05d) later() {
	d.wasDown, d.down = d.down, map[string]bool{}
	n := map[*fdial]int{}
	for _, y := range d.dials {
		ms, _ := y.sent()
		n[y] = len(ms)
	}
	if err := d.n.SendOneWay(d.seeds[0].Id, toMsg(&rmsg{actor: 9, action: "later"})); err != nil {
		vrt.Fail("sending later: %v", err)
	}
	for _, y := range d.dials {
		ms, _ := y.sent()
		if len(ms) > n[y] {
			d.post = append(d.post, ms[n[y]:]...)
		}
	}
}

func bodyF05c(x *vrt.Exec) {
	k := script(3, "seeds down")
	at := []time.Duration{-1, 0, 10 * time.Second, 45 * time.Second, 95 * time.Second}[script(5, "cancel at")]
	base := vtime.Now()
	vrt.Branch(false)
	d := newF05(x, 2)
	d.down["seed:1"], d.down["seed:2"] = k&1 != 0, k&2 != 0
	d.incoming()
	idle()
	ctx, cancel := vctx.WithCancel(context.Background())
	if at < 0 { // a deadline instead
		ctx, cancel = vctx.WithTimeout(ctx, 40*time.Second)
		d.cancelAt = 40 * time.Second
	} else {
		d.cancelAt = at
	}
	vrt.Branch(true)
	par(map[string]func(){
		"boot": func() { d.bootstrap(ctx, base) },
		"stop": func() {
			if at == 0 {
				cancel()
			} else if at > 0 {
				vtime.Sleep(at)
				cancel()
			}
		},
	})
	vrt.Branch(false)
	cancel()
	idle()
	d.later()
	d.finish()
}

func (d *f05d) verdict() (key string, viol []string) {
	bad := func(f string, a ...interface{}) { viol = append(viol, fmt.Sprintf(f, a...)) }
	if !d.done {
		bad("Bootstrap never returned")
		return
	}
	probes := map[string]int{}
	for _, y := range d.dials {
		ms, err := y.sent()
		if err != nil {
			bad("%v", err)
		}
		for _, m := range ms {
			if m.action == "VotePing" && m.actor == actFederation {
				probes[y.addr]++
			}
		}
	}
	tries := map[string]int{}
	for _, a := range d.tries {
		tries[a]++
	}
	key = fmt.Sprintf("err=%v probes=%v", d.err, probes)
	if d.routeAt >= 0 && (d.cancelAt < 0 || d.routeAt < d.cancelAt) {
		if d.err != nil {
			bad("a routing partner was announced at %v, Bootstrap returned %v at %v", d.routeAt, d.err, d.doneAt)
		}
		if d.doneAt-d.routeAt >= 30*time.Second {
			bad("a routing partner was announced at %v, Bootstrap returned only at %v", d.routeAt, d.doneAt)
		}
	} else {
		if d.err == nil {
			bad("Bootstrap succeeded without a routing partner")
		} else if d.ctx != nil && !errors.Is(d.err, d.ctx.Err()) {
			bad("Bootstrap returned %v, the context's error is %v", d.err, d.ctx.Err())
		}
		if d.doneAt < d.cancelAt {
			bad("Bootstrap gave up at %v, cancelled at %v", d.doneAt, d.cancelAt)
		}
		if d.doneAt-d.cancelAt >= 10*time.Second {
			bad("cancelled at %v, returned at %v", d.cancelAt, d.doneAt)
		}
		if d.cancelAt > 0 {
			lo, hi := -1, -1
			for _, s := range d.seeds {
				n := probes[s.Address]
				if d.wasDown[s.Address] {
					n = tries[s.Address]
				}
				if n < 1 {
					bad("seed %s was not probed although bootstrapping took %v", s.Address, d.doneAt)
				}
				if lo < 0 || n < lo {
					lo = n
				}
				if n > hi {
					hi = n
				}
			}
			if d.doneAt >= 90*time.Second && hi < 2 {
				bad("probed %d times in %v", hi, d.doneAt)
			}
		}
	}
	for _, m := range d.post {
		self, _, err := d.gossip(m)
		if err != nil {
			bad("%v", err)
		} else if d.routeAt >= 0 && self.Phase < phJoining {
			bad("after a routing partner was found the node announces itself in phase %d", self.Phase)
		} else if d.routeAt < 0 && self.Phase != phBooting {
			bad("announces itself in phase %d without a routing partner", self.Phase)
		}
	}
	return
}

func judgeF05(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*f05d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	o.Key, o.Viol = d.verdict()
	return o
}

func enumF05(c *Ctx) {
	for n := 1; n <= 4; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			for heal := 0; heal < 5; heal++ {
				for when := 0; when < 7*(n+2); when++ {
					self := when/7 - 1 // where the node itself is among the seeds, if it is
					if heal > 0 && mask == 0 || self >= 0 && (heal > 0 || n > 3) {
						continue
					}
					n, mask, heal, when := n, mask, heal, when%7
					if !c.Case(func() string {
						return fmt.Sprintf("%d seeds (itself at %d), %s: %b, routing announced in round %d", n, self, []string{"unreachable", "unreachable at first", "hanging", "hanging at first", "taking no data"}[heal], mask, when)
					}, func() error {
						c.Step(n)
						c.Obs(n, mask, heal, when, self)
						var d *f05d
						return seqCfg(vrt.Config{MaxSteps: 500000, MaxTimers: 200}, func(x *vrt.Exec) error {
							d = &f05d{routeAt: -1, cancelAt: -1, down: map[string]bool{}}
							for i := 0; i < n; i++ {
								d.seeds = append(d.seeds, seedAt(nid(uint64(i), 5), fmt.Sprintf("seed:%d", i)))
							}
							all := append([]federation.SeedNodeInfo(nil), d.seeds...)
							if self >= 0 {
								all = append(append(append([]federation.SeedNodeInfo(nil), all[:self]...), seedAt(selfInst.Id, fAddr)), all[self:]...)
							}
							d.fworld = newFW(x, selfInst, all...)
							base := vtime.Now()
							d.onDial = func(a string) error {
								for i := 0; i < n; i++ {
									if a == fmt.Sprintf("seed:%d", i) && mask>>i&1 == 1 && (heal == 0 || heal == 1 && now(base) < 50*time.Second) {
										return errors.New("unreachable")
									}
								}
								return nil
							}
							d.hang, d.stall = map[string]bool{}, map[string]bool{}
							for i, s := range d.seeds {
								if mask>>i&1 == 1 {
									d.hang[s.Address], d.stall[s.Address] = heal == 2 || heal == 3, heal == 4
								}
							}
							in := d.incoming()
							idle()
							ctx, cancel := vctx.WithCancel(context.Background())
							defer cancel()
							vrt.GoNamed("boot", func() { d.bootstrap(ctx, base) })
							per := []int{}
							for r := 0; r < 6; r++ {
								// rounds may be up to 30 seconds apart
								if r == 1 && heal == 3 {
									vtime.Sleep(20 * time.Second)
									d.release()
									vtime.Sleep(10*time.Second + time.Millisecond)
								} else {
									vtime.Sleep(30*time.Second + time.Millisecond)
								}
								got := 0
								for i, s := range d.seeds {
									cnt := 0
									want := r + 1
									if mask>>i&1 == 1 && heal >= 2 {
										if want = 0; heal == 3 {
											want = r - 1
										}
									}
									for _, y := range d.dials {
										if y.addr == s.Address {
											if y.err != nil {
												cnt++
												continue
											}
											ms, err := y.sent()
											if err != nil {
												return err
											}
											cnt += len(ms)
										}
									}
									got += cnt
									if cnt < want && when >= r {
										return fmt.Errorf("seed %s was probed %d times in %v", s.Address, cnt, now(base))
									}
								}
								per = append(per, got)
								if r == when {
									in.Feed(announce(1, partner(idC, 5, phRouting)).frame(plainOpt))
									d.routeAt = now(base)
									idle()
									if !d.done && heal < 2 {
										vtime.Sleep(29 * time.Second)
									}
									if !d.done || d.err != nil {
										return fmt.Errorf("routing partner announced at %v: Bootstrap returned %v, %v", d.routeAt, d.done, d.err)
									}
									// bootstrapping again has nothing to do
									k := len(d.tries)
									d.done = false
									vrt.GoNamed("boot2", func() { d.bootstrap(ctx, base) })
									idle()
									if !d.done || d.err != nil {
										return fmt.Errorf("bootstrapping again: returned %v, %v", d.done, d.err)
									}
									_ = k
									break
								}
								if d.done {
									return fmt.Errorf("Bootstrap returned %v at %v without a routing partner", d.err, now(base))
								}
							}
							if !d.done {
								cancel()
								d.cancelAt = now(base)
								idle()
								if !d.done || !errors.Is(d.err, context.Canceled) {
									return fmt.Errorf("cancelled: Bootstrap returned %v, %v", d.done, d.err)
								}
							}
							if heal == 2 { // nothing is probed afterwards
								n := fmt.Sprint(d.probes())
								d.release()
								vtime.Sleep(time.Minute)
								if m := fmt.Sprint(d.probes()); n != m {
									return fmt.Errorf("probed until bootstrapping ended: %s, a minute later: %s", n, m)
								}
							}
							d.finish()
							return nil
						}, nil)
					}) {
						return
					}
				}
			}
		}
	}
}

// enumF05p: only a routing partner ends bootstrapping.
func enumF05p(c *Ctx) {
	max := 3
	if c.Thorough {
		max = 4
	}
	phases := []int64{0, 1, 2, 3, 4, 5, 9}
	infos := []wPartner{partner(idA, 3, 0), partner(idC, 5, 0), partner(idC, 6, 0)}
	for n := 1; n <= max; n++ {
		ops := make([]int, n)
		for {
			l := append([]int(nil), ops...)
			for mode := 0; mode < 3; mode++ {
				mode := mode
				if !c.Case(func() string { return fmt.Sprintf("announcements %v (phase*3+partner), mode %d", l, mode) }, func() error {
					c.Step(n + 1)
					return seqCfg(vrt.Config{MaxSteps: 500000, MaxTimers: 200}, func(x *vrt.Exec) error {
						d := newF05(x, 2)
						base := vtime.Now()
						in := d.incoming()
						idle()
						ctx, cancel := vctx.WithCancel(context.Background())
						defer cancel()
						if mode != 1 {
							vrt.GoNamed("boot", func() { d.bootstrap(ctx, base) })
							idle()
						}
						known := map[federation.NodeID][2]int64{}
						maybe, must := false, false
						var ps []wPartner
						for i, op := range l {
							p := infos[op%3]
							ph := phases[op/3]
							p.Phase = ph
							k, ok := known[p.Instance.Id]
							if !ok || k[0] < int64(p.Instance.InstanceId) || k[0] == int64(p.Instance.InstanceId) && k[1] < ph {
								known[p.Instance.Id] = [2]int64{int64(p.Instance.InstanceId), ph}
								must = must || ph == phRouting
							}
							maybe = maybe || ph == phRouting
							ps = append(ps, p)
							if mode == 2 && i < n-1 {
								continue
							}
							in.Feed(announce(1+i, ps...).frame(plainOpt))
							ps = nil
							idle()
							if mode != 1 {
								if must && (!d.done || d.err != nil) {
									return fmt.Errorf("after announcement %d: a partner is routing, Bootstrap returned %v, %v", i, d.done, d.err)
								}
								if !maybe && d.done {
									return fmt.Errorf("after announcement %d: no partner is routing, Bootstrap returned %v", i, d.err)
								}
							}
						}
						if mode == 1 {
							vrt.GoNamed("boot", func() { d.bootstrap(ctx, base) })
							idle()
						}
						vtime.Sleep(40 * time.Second)
						if must && (!d.done || d.err != nil) {
							return fmt.Errorf("a partner is routing, Bootstrap returned %v, %v", d.done, d.err)
						}
						if !maybe && d.done {
							return fmt.Errorf("no partner is routing, Bootstrap returned %v", d.err)
						}
						c.Obs(known, maybe, must)
						cancel()
						idle()
						if !d.done || !maybe && !errors.Is(d.err, context.Canceled) {
							return fmt.Errorf("cancelled: Bootstrap returned %v, %v", d.done, d.err)
						}
						d.finish()
						return nil
					}, nil)
				}) {
					return
				}
			}
			if !inc(ops, 3*len(phases)) {
				break
			}
		}
	}
}
