package main

// Naming client: N01, N02. The harness plays the gateway.

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
	"github.com/tg123/phabrik/zzverif/vtime"
)

const actNaming = int64(transport.MessageActorTypeNamingGateway)

const (
	hdActivity = uint16(transport.MessageHeaderIdTypeFabricActivity)
	hdProtocol = uint16(transport.MessageHeaderIdTypeClientProtocolVersion)
	hdTimeout  = uint16(transport.MessageHeaderIdTypeTimeout)
	hdIdentity = uint16(transport.MessageHeaderIdTypeClientIdentity)
)

type wActIndex = uint32

type wAct struct {
	Id    serialization.GUID
	Index uint64
}

type wGateway struct {
	Address      string
	NodeInstance wInst
	NodeName     string
}

type wPong struct{ G wGateway }

type wGen struct {
	Generation int64
	Owner      federation.NodeID
}

type wVR struct{ S, E int64 }
type wVersions struct{ R []wVR }
type wFlags struct{ Flags uint32 }

type wFilter struct {
	FilterId uint64
	Name     common.Uri
	Flags    wFlags
}

type wConnReq struct {
	ClientId   string
	Generation wGen
	Versions   *wVersions
	Filters    []*wFilter
}

type wRegReq struct {
	ClientId string
	Filter   *wFilter
}

type wApp struct {
	Name    common.Uri
	Type    string
	Version string
	Status  int64
	Health  int64
	Params  map[string]string
}

type wApps struct{ List []wApp }

type wAppReply struct {
	Kind int32
	List *wApps
	Code int32
}

type wArgKey struct{ Key string }

type wQuery struct {
	Args struct{ M map[wArgKey]string }
	Name string
}

type wFail struct{ Code int64 }

type wCuid struct{ G serialization.GUID }

type wReplicaSet struct {
	IsStateful             bool
	IsPrimaryLocationValid bool
	PrimaryLocation        string
	ReplicaLocations       []string
	LookupVersion          int64
	IsPrimaryAuxiliary     bool
	AuxiliaryLocations     []string
}

type wEntry struct {
	Cuid    wCuid
	Name    string
	Set     wReplicaSet
	IsFound bool
}

type wPart struct {
	Entry       *wEntry
	PrimaryOnly bool
}

type wPage struct {
	Id   wPageId
	Page uint64
}

// the identity inside is the transport's: a guid and a 32 bit index
type wPageId struct {
	Id    serialization.GUID
	Index wActIndex
}

type wNotif struct {
	Page       wPage
	Generation wGen
	Versions   *wVersions
	Parts      []*wPart
}

type wNotifBody struct{ N *wNotif }

type nw struct {
	x    *vrt.Exec
	c    *vnet.Conn
	cl   *transport.Client
	n    *naming.NamingClient
	got  []*naming.ServiceNotification
	werr error
}

func newNW(x *vrt.Exec, handler bool) *nw {
	w := &nw{x: x}
	if x != nil {
		x.Data = w
	}
	w.c, _ = vnet.Pipe("naming", "gateway")
	var err error
	if w.cl, err = transport.Connect(w.c, transport.ClientConfig{}); err != nil {
		vrt.Fail("connecting: %v", err)
		return w
	}
	if w.n, err = naming.NewNamingClient(w.cl); err != nil {
		vrt.Fail("creating the client: %v", err)
		return w
	}
	if handler {
		w.n.OnServiceNotification = func(s *naming.ServiceNotification) { w.got = append(w.got, s) }
	}
	vrt.GoNamed("wait", func() { w.werr = w.cl.Wait() })
	return w
}

func (w *nw) sent() ([]*rmsg, error) {
	ms, rest, err := parseStream(w.c.Sent(), plainOpt)
	if err == nil && len(rest) > 0 {
		err = fmt.Errorf("%d stray bytes", len(rest))
	}
	if len(ms) > 0 {
		ms = ms[1:]
	}
	return ms, err
}

// request checks what every request to the gateway must look like.
func (w *nw) request(m *rmsg, action string) error {
	if m.actor != actNaming || m.action != action || !m.expect || m.id.IsEmpty() {
		return fmt.Errorf("the request is %s, expected %s to the naming gateway", m.key(), action)
	}
	var a struct{ A wAct }
	if err := m.header(hdActivity, &a); err != nil {
		return err
	}
	if a.A.Id.IsEmpty() {
		return fmt.Errorf("a request without activity")
	}
	var p struct{ Major, Minor int64 }
	if err := m.header(hdProtocol, &p); err != nil {
		return err
	}
	if p.Major != 1 || p.Minor != 2 {
		return fmt.Errorf("protocol version %v", p)
	}
	var t struct{ T int64 }
	if err := m.header(hdTimeout, &t); err != nil {
		return err
	}
	if t.T <= 0 {
		return fmt.Errorf("timeout %d", t.T)
	}
	return nil
}

// the reply the gateway gives
type nreply struct {
	name   string
	action string
	errc   int64
	body   []byte
	fault  bool
}

const failAction = "ClientOperationFailure"

var nOps = []string{"Ping", "GetApplicationList", "RegisterFilter", "RegisterFilter2"}

var nActions = map[string]string{"Ping": "PingRequest", "GetApplicationList": "QueryRequest", "RegisterFilter": "NotificationClientConnectionRequest", "RegisterFilter2": "RegisterServiceNotificationFilterRequest"}
var nReplies = map[string]string{"Ping": "PingRequest", "GetApplicationList": "QueryReply", "RegisterFilter": "NotificationClientConnectionReply", "RegisterFilter2": "RegisterServiceNotificationFilterReply"}

func gateways() []wGateway {
	return []wGateway{
		{"10.0.0.1:19000", wInst{nid(1, 2), 3}, "_Node_0"},
		{"", wInst{}, ""},
		{"é\U0001F600", wInst{nid(^uint64(0), ^uint64(0)), ^uint64(0)}, strings.Repeat("n", 300)},
	}
}

func appLists() []wAppReply {
	a := wApp{Name: common.Uri{Scheme: "fabric", Path: "/app", PathSegments: []string{"app"}}, Type: "T", Version: "1.0", Status: 1, Health: 2, Params: map[string]string{"k": "v"}}
	b := wApp{Name: common.Uri{Type: common.UriTypeAbsolute, Scheme: "fabric", Authority: "x", Port: 80, Path: "/b/c", PathSegments: []string{"b", "c"}, Query: "q", Fragment: "f"}, Status: -1, Health: 1 << 40, Params: map[string]string{"a": "1", "b": ""}}
	return []wAppReply{
		{Kind: 1, List: &wApps{List: []wApp{a}}},
		{Kind: 1, List: &wApps{List: []wApp{a, b, {}}}},
		{Kind: 1, List: &wApps{}},
		{Kind: 0, List: &wApps{List: []wApp{b}}},
	}
}

func init() {
	add(&Scenario{Prop: "N01", Name: "answers", Shards: 8,
		Bounds: "ping, application listing and both requests of a filter registration, each answered with: 3-4 well-formed results, the failure action with 5 codes and with every truncation, unexpected actions, header error codes with and without a good body, absent and empty bodies, every prefix of the good bodies, wrong shapes, result error codes, an absent result list",
		Enum:   enumN01})
	add(&Scenario{Prop: "N01", Name: "cancellation", Shards: 8,
		Bounds: "each operation with a cancellation, a deadline or a closed connection racing with its answer, with no answer at all or with a gateway that takes no data, followed by a ping; all schedules with at most 3 (thorough 4) deviations",
		Cfg:    schedCfg(bnd(3, 1), bnd(4, 1)),
		Body:   bodyN01, Judge: judgeN01})
	add(&Scenario{Prop: "N02", Name: "histories", Shards: 8,
		Bounds: "every sequence of up to 3 (thorough 4) incoming messages over {2 full notifications, a minimal one, one cut short, one related to an unknown message, one without body, one without notification, wrong shape, another action, a stray reply, a repeated notification}, with and without handler",
		Enum:   enumN02})
	add(&Scenario{Prop: "N02", Name: "prefixes", Bounds: "every proper prefix of the bodies of 3 notifications, and every notification with one element of each kind removed or extreme",
		Enum: enumN02p})
	add(&Scenario{Prop: "N02", Name: "options", Bounds: "all option combinations x 6 names, 3 registrations in a row: requests, flags, ids",
		Enum: enumN02o})
	add(&Scenario{Prop: "N02", Name: "handlers", Bounds: "1-3 notifications, each handler asks the gateway, registers a filter, waits for the other notifications or waits until released; a ping meanwhile",
		Enum: enumN02h})
	add(&Scenario{Prop: "N02", Name: "broken", Bounds: "1-3 notifications of which the acknowledgement of the 1st to 3rd cannot be written, wholly or from the middle, arriving together or apart",
		Enum: enumN02b})
	add(&Scenario{Prop: "N02", Name: "concurrent", Shards: 8,
		Bounds: "three concurrent registrations with different options answered by the gateway in either order while two notifications arrive; all schedules with at most 2 (thorough 3) deviations",
		Cfg:    schedCfg(bnd(2, 1), bnd(3, 1)),
		Body:   bodyN02, Judge: judgeN02})
}

// call runs one operation; it returns a printable result.
func (w *nw) call(op string, ctx context.Context) (res string, err error) {
	switch op {
	case "Ping":
		g, e := w.n.Ping(ctx)
		if g != nil {
			res = gwKey(wGateway{g.Address, wInst{g.NodeInstance.Id, g.NodeInstance.InstanceId}, g.NodeName})
		} else if e == nil {
			res = "nil"
		}
		err = e
	case "GetApplicationList":
		l, e := w.n.GetApplicationList(ctx, "fabric:/app")
		var ws []wApp
		for _, a := range l {
			ws = append(ws, wApp{a.ApplicationName, a.ApplicationTypeName, a.ApplicationTypeVersion, a.ApplicationStatus, a.HealthState, a.ApplicationParameters})
		}
		if e == nil || len(ws) > 0 {
			res = appsKey(ws)
		}
		err = e
	default:
		id, e := w.n.RegisterFilter(ctx, common.Uri{Scheme: "fabric", Path: "/x"}, true, false)
		if e == nil {
			res = fmt.Sprint("filter ", id)
		}
		err = e
	}
	return
}

func gwKey(g wGateway) string {
	return fmt.Sprintf("gateway %q %v %q", g.Address, g.NodeInstance, g.NodeName)
}

func appsKey(l []wApp) string {
	s := fmt.Sprintf("%d apps", len(l))
	for _, a := range l {
		var ks []string
		for k, v := range a.Params {
			ks = append(ks, fmt.Sprintf("%q=%q", k, v))
		}
		sort.Strings(ks)
		s += fmt.Sprintf(" {%v %q %q %d %d %v}", a.Name, a.Type, a.Version, a.Status, a.Health, ks)
	}
	return s
}

func goodBody(op string) []byte {
	switch op {
	case "Ping":
		return refMarshal(&wPong{gateways()[0]})
	case "GetApplicationList":
		return refMarshal(&appLists()[1])
	}
	return refMarshal(&struct {
		G wGen
		L int64
		W wGateway
	}{})
}

func nreplies(op string) (out []nreply, want []string) {
	put := func(r nreply, w string) { out = append(out, r); want = append(want, w) }
	good := nReplies[op]
	decoded := op == "Ping" || op == "GetApplicationList"
	switch op {
	case "Ping":
		for i, g := range gateways() {
			put(nreply{fmt.Sprint("gateway ", i), good, 0, refMarshal(&wPong{g}), false}, gwKey(g))
		}
	case "GetApplicationList":
		for i, l := range appLists() {
			l := l
			put(nreply{fmt.Sprint("list ", i), good, 0, refMarshal(&l), false}, appsKey(l.List.List))
			for _, c := range []int32{1, -1, -2147017729, 2147483647, -2147483648} {
				l.Code = c
				put(nreply{fmt.Sprint("list with code ", c), good, 0, refMarshal(&l), false}, "")
			}
		}
		for _, c := range []int32{0, 1, -2147017729} {
			put(nreply{fmt.Sprint("no list, code ", c), good, 0, refMarshal(&wAppReply{Kind: 1, Code: c}), false}, "")
		}
	default:
		put(nreply{"done", good, 0, goodBody(op), false}, "filter")
		put(nreply{"done, no body", good, 0, nil, false}, "filter")
	}
	for _, c := range []int64{0, 1, -1, -2147017729, 1 << 40} {
		b := refMarshal(&wFail{c})
		put(nreply{fmt.Sprint("failure ", c), failAction, 0, b, false}, "")
		for i := 0; i < len(b) && c == -1; i++ {
			put(nreply{fmt.Sprint("failure cut to ", i), failAction, 0, b[:i], false}, "")
		}
	}
	for _, c := range []int64{1, -1, -2147017729, 1 << 40, -1 << 63} {
		put(nreply{fmt.Sprint("error code ", c), good, c, goodBody(op), false}, "")
		f := nreply{fmt.Sprint("error code with fault body ", c), good, c, goodBody(op), false}
		f.fault = true
		put(f, "")
		put(nreply{fmt.Sprint("error code without body ", c), good, c, nil, false}, "")
		put(nreply{fmt.Sprint("error code and failure ", c), failAction, c, refMarshal(&wFail{c}), false}, "")
	}
	if decoded {
		b := goodBody(op)
		for i := 0; i < len(b); i++ {
			put(nreply{fmt.Sprintf("cut to %d of %d", i, len(b)), good, 0, b[:i], false}, "")
		}
		put(nreply{"text", good, 0, refMarshal(&wStr{"hello"}), false}, "?")
		put(nreply{"noise", good, 0, []byte("\xff\xfe\x00noise"), false}, "?")
	}
	if op == "Ping" {
		for _, a := range []string{"PingReply2", "", "pingrequest", "QueryReply", "ServiceNotificationRequest"} {
			put(nreply{"action " + a, a, 0, goodBody(op), false}, "")
		}
	}
	return
}

func enumN01(c *Ctx) {
	for _, op := range nOps {
		rs, wants := nreplies(op)
		for i := range rs {
			op, r, want := op, rs[i], wants[i]
			if !c.Case(func() string { return fmt.Sprintf("%s answered with %s", op, r.name) }, func() error {
				c.Step(1)
				return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
					w := newNW(x, true)
					var res string
					var err error
					done := false
					vrt.GoNamed("call", func() { res, err = w.call(op, context.Background()); done = true })
					idle()
					ms, e := w.sent()
					if e != nil || len(ms) != 1 {
						return fmt.Errorf("%d requests: %v", len(ms), e)
					}
					q := ms[0]
					first := op
					if op == "RegisterFilter2" {
						first = "RegisterFilter"
					}
					if e := w.request(q, nActions[first]); e != nil {
						return e
					}
					if e := w.body(first, q, nil); e != nil {
						return e
					}
					answer := func(q *rmsg, r nreply) {
						w.c.Feed((&rmsg{id: mid(70), rel: q.id, actor: actNaming, action: r.action, errc: r.errc, fault: r.fault, body: r.body}).frame(plainOpt))
						idle()
					}
					second := func() error {
						ms, e := w.sent()
						if e != nil || len(ms) != 2 {
							return fmt.Errorf("%d requests after the first answer: %v", len(ms), e)
						}
						q = ms[1]
						if e := w.request(q, nActions["RegisterFilter2"]); e != nil {
							return e
						}
						return w.body("RegisterFilter2", q, nil)
					}
					if op == "RegisterFilter2" {
						answer(q, nreply{"", nReplies[first], 0, goodBody(first), false})
						if e := second(); e != nil {
							return e
						}
					}
					if done {
						return fmt.Errorf("ended before the answer: %s %v", res, err)
					}
					answer(q, r)
					if op == "RegisterFilter" && want != "" {
						if e := second(); e != nil {
							return e
						}
						answer(q, nreply{"", nReplies["RegisterFilter2"], 0, nil, false})
					}
					if !done {
						return fmt.Errorf("did not end on its answer")
					}
					c.Obs(op, r.name, res, err != nil)
					switch {
					case want == "?": // any error or any decoding, no crash
					case want == "" && err == nil:
						return fmt.Errorf("succeeded with %s", res)
					case want == "" && res != "":
						return fmt.Errorf("returned %s together with %v", res, err)
					case want != "" && err != nil:
						return fmt.Errorf("failed: %v", err)
					case want == "filter" && !strings.HasPrefix(res, "filter"), want != "" && want != "filter" && res != want:
						return fmt.Errorf("returned %s, the answer contains %s", res, want)
					}
					if len(w.got) > 0 {
						return fmt.Errorf("an answer was delivered as a notification")
					}
					ms, e = w.sent()
					if n := map[string]int{"Ping": 1, "GetApplicationList": 1, "RegisterFilter": 1, "RegisterFilter2": 2}[op]; e != nil || (len(ms) != n && !(op == "RegisterFilter" && want != "")) {
						return fmt.Errorf("%d messages sent: %v", len(ms), e)
					}
					w.c.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

// body checks the body of a request; reg receives a registration.
func (w *nw) body(op string, m *rmsg, reg *wRegReq) error {
	dec := func(v interface{}) error {
		if err := refDecode(m.body, v); err != nil {
			return fmt.Errorf("body of %s: %v", m.action, err)
		}
		return nil
	}
	switch op {
	case "GetApplicationList":
		var q wQuery
		if err := dec(&q); err != nil {
			return err
		}
		if q.Name != "GetApplicationList" || len(q.Args.M) != 1 || q.Args.M[wArgKey{"ApplicationName"}] != "fabric:/app" {
			return fmt.Errorf("query %+v", q)
		}
	case "RegisterFilter":
		var q wConnReq
		if err := dec(&q); err != nil {
			return err
		}
		if q.ClientId == "" {
			return fmt.Errorf("connection request without client id")
		}
		if q.Versions == nil || fmt.Sprintf("%+v", *q.Versions) != fmt.Sprintf("%+v", wVersions{}) || len(q.Filters) > 0 || q.Generation != (wGen{}) {
			return fmt.Errorf("a client that knows nothing asks to connect with %+v", q)
		}
		if reg != nil {
			reg.ClientId = q.ClientId
		}
	case "RegisterFilter2":
		var q wRegReq
		if err := dec(&q); err != nil {
			return err
		}
		if q.ClientId == "" || q.Filter == nil {
			return fmt.Errorf("registration %+v", q)
		}
		var id struct{ T, F string }
		if err := m.header(hdIdentity, &id); err != nil {
			return err
		}
		if id.F != q.ClientId {
			return fmt.Errorf("identity %q of client %q", id.F, q.ClientId)
		}
		if reg != nil {
			*reg = q
		}
	}
	return nil
}

type n01d struct {
	*nw
	op     string
	ctx    context.Context
	res    string
	err    error
	done   bool
	at     time.Duration
	stopAt time.Duration // cancellation
	closed bool
	fed    int
	need   int
	ping   string
	perr   error
	pdone  bool
}

func bodyN01(x *vrt.Exec) {
	op := nOps[script(4, "operation")]
	what := script(5, "event")
	w := newNW(x, false)
	d := &n01d{nw: w, op: op, stopAt: -1, need: 1}
	x.Data = d
	idle()
	base := vtime.Now()
	ctx, cancel := vctx.WithCancel(context.Background())
	if what == 2 {
		ctx, cancel = vctx.WithTimeout(context.Background(), time.Second)
		d.stopAt = time.Second
	}
	d.ctx = ctx
	give := func(q *rmsg, op string) {
		w.c.Feed((&rmsg{id: mid(70), rel: q.id, actor: actNaming, action: nReplies[op], body: goodBody(op)}).frame(plainOpt))
		d.fed++
	}
	nth := func(n int) *rmsg {
		var hit *rmsg
		last := -1
		vrt.Block("request or end", func() bool {
			if d.done || hit != nil {
				return true
			}
			if len(w.c.Sent()) == last {
				return false
			}
			last = len(w.c.Sent())
			ms, _ := w.sent()
			if len(ms) > n {
				hit = ms[n]
				return true
			}
			return false
		})
		return hit
	}
	vrt.Branch(true)
	fs := map[string]func(){
		"call": func() { d.res, d.err = w.call(op, ctx); d.done, d.at = true, now(base) },
		"gateway": func() {
			if op == "RegisterFilter2" {
				if q := nth(0); q != nil {
					give(q, "RegisterFilter")
				}
				d.need = 2
				if what != 2 {
					if q := nth(1); q != nil {
						give(q, op)
					}
				}
				return
			}
			if what != 2 {
				if q := nth(0); q != nil {
					give(q, op)
				}
			}
		},
		"event": func() {
			switch what {
			case 0, 3: // cancellation
				d.stopAt = now(base)
				cancel()
			case 4: // cancellation while the gateway takes no data
				vtime.Sleep(time.Second)
				d.stopAt = now(base)
				cancel()
				idle()
				if !d.done {
					vrt.Fail("%s goes on although its context is done, the gateway takes no data", d.op)
				}
				w.c.Stall = false
				idle()
			case 1:
				d.closed = true
				w.cl.Close()
			}
		},
	}
	w.c.Stall = what == 4
	if what >= 3 { // no answer at all
		delete(fs, "gateway")
	}
	if op == "RegisterFilter" {
		d.need = 2
		old := fs["gateway"]
		if old != nil {
			fs["gateway"] = func() {
				old()
				if q := nth(1); q != nil && what != 2 {
					give(q, "RegisterFilter2")
				}
			}
		}
	}
	par(fs)
	idle()
	vrt.Branch(false)
	if !d.closed {
		ms, _ := w.sent()
		n := len(ms)
		vrt.GoNamed("ping", func() { d.ping, d.perr = w.call("Ping", context.Background()); d.pdone = true })
		idle()
		ms, _ = w.sent()
		if len(ms) == n+1 {
			give(ms[n], "Ping")
		}
		idle()
		if !d.pdone || d.perr != nil || d.ping != gwKey(gateways()[0]) {
			vrt.Fail("afterwards a ping returns %v %q %v", d.pdone, d.ping, d.perr)
		}
	}
	w.c.FeedEOF()
}

func judgeN01(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*n01d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	bad := func(f string, a ...interface{}) { o.Viol = append(o.Viol, fmt.Sprintf(f, a...)) }
	o.Key = fmt.Sprintf("%s %v %s", d.op, d.err, d.res)
	switch {
	case !d.done:
		bad("%s never returned", d.op)
	case d.err == nil && d.fed < d.need:
		bad("%s succeeded after %d of %d answers", d.op, d.fed, d.need)
	case d.err == nil && d.op == "Ping" && d.res != gwKey(gateways()[0]), d.err == nil && d.op == "GetApplicationList" && d.res != appsKey(appLists()[1].List.List):
		bad("%s returned %s", d.op, d.res)
	case d.err != nil && !d.closed && !errors.Is(d.err, context.Canceled) && !errors.Is(d.err, context.DeadlineExceeded):
		bad("%s returned %v", d.op, d.err)
	case d.stopAt >= 0 && d.at-d.stopAt >= 100*time.Millisecond:
		bad("%s returned at %v, cancelled at %v", d.op, d.at, d.stopAt)
	}
	return o
}

// ---------------------------------------------------------------- N02

func notifications() []wNotif {
	g := serialization.GUID{Data1: 1, Data2: 2, Data3: 3, Data4: [8]byte{4, 5, 6, 7, 8, 9, 10, 11}}
	full := wNotif{
		Page:       wPage{wPageId{g, 9}, 3},
		Generation: wGen{5, nid(6, 7)},
		Versions:   &wVersions{[]wVR{{1, 2}, {3, 1 << 40}}},
		Parts: []*wPart{
			{Entry: &wEntry{Cuid: wCuid{g}, Name: "fabric:/a/b", IsFound: true, Set: wReplicaSet{IsStateful: true, IsPrimaryLocationValid: true, PrimaryLocation: "p", ReplicaLocations: []string{"r1", "", "r3"}, LookupVersion: -7, AuxiliaryLocations: []string{"x"}, IsPrimaryAuxiliary: true}}, PrimaryOnly: true},
			{Entry: &wEntry{Name: "other"}},
		},
	}
	second := wNotif{Page: wPage{wPageId{serialization.GUID{Data1: 77}, 1}, 0}, Generation: wGen{-1, nid(^uint64(0), 0)},
		Parts: []*wPart{{PrimaryOnly: true}, {Entry: &wEntry{Name: strings.Repeat("n", 200), Set: wReplicaSet{PrimaryLocation: "é"}}}}}
	return []wNotif{full, second, {Page: wPage{wPageId{g, 1}, 1}}}
}

func notifKey(n *naming.ServiceNotification) string {
	if n == nil {
		return "nil"
	}
	w := wNotif{Page: wPage{wPageId{n.NotificationPageId.NotificationId.Id, wActIndex(n.NotificationPageId.NotificationId.Index)}, n.NotificationPageId.PageIndex}, Generation: wGen{n.Generation.Generation, n.Generation.Owner}}
	if n.Versions != nil {
		w.Versions = &wVersions{}
		for _, r := range n.Versions.VersionRanges {
			w.Versions.R = append(w.Versions.R, wVR{r.StartVersion, r.EndVersion})
		}
	}
	for _, p := range n.Partitions {
		if p == nil {
			w.Parts = append(w.Parts, nil)
			continue
		}
		q := &wPart{PrimaryOnly: p.MatchedPrimaryOnly}
		if e := p.ServiceTable; e != nil {
			s := e.ServiceReplicaSet
			q.Entry = &wEntry{wCuid{e.ConsistencyUnitId.GUID}, e.ServiceName, wReplicaSet{s.IsStateful, s.IsPrimaryLocationValid, s.PrimaryLocation, s.ReplicaLocations, s.LookupVersion, s.IsPrimaryAuxiliary, s.AuxiliaryLocations}, e.IsFound}
		}
		w.Parts = append(w.Parts, q)
	}
	return w.key()
}

func (n *wNotif) key() string {
	s := fmt.Sprintf("%v gen %v", n.Page, n.Generation)
	if n.Versions == nil {
		s += " no versions"
	} else {
		s += fmt.Sprintf(" versions %v", n.Versions.R)
	}
	for _, p := range n.Parts {
		switch {
		case p == nil:
			s += " nil"
		case p.Entry == nil:
			s += fmt.Sprintf(" {- %v}", p.PrimaryOnly)
		default:
			s += fmt.Sprintf(" {%q %v}", fmt.Sprint(*p.Entry), p.PrimaryOnly)
		}
	}
	return s
}

const notifAction = "ServiceNotificationRequest"

// acks checks the acknowledgements: want[id] successful ones each, none for others.
func (w *nw) acks(want map[transport.MessageId]int, mayFail map[transport.MessageId]bool) error {
	ms, err := w.sent()
	if err != nil {
		return err
	}
	n := map[transport.MessageId]int{}
	for _, m := range ms {
		if m.expect && m.rel.IsEmpty() {
			continue // a request of the client's own
		}
		if m.rel.IsEmpty() {
			return fmt.Errorf("sent %s", m.key())
		}
		var b wFail
		if err := refDecode(m.body, &b); err != nil {
			return fmt.Errorf("acknowledgement %s: %v", m.key(), err)
		}
		if mayFail[m.rel] && (b.Code != 0 || m.errc != 0) {
			continue
		}
		if m.action != "ServiceNotificationReply" || m.actor != actNaming || b.Code != 0 || m.errc != 0 {
			return fmt.Errorf("acknowledgement %s with code %d", m.key(), b.Code)
		}
		n[m.rel]++
	}
	for id, k := range want {
		if n[id] != k {
			return fmt.Errorf("message %v was acknowledged %d times instead of %d", id, n[id], k)
		}
		delete(n, id)
	}
	for id := range n {
		return fmt.Errorf("message %v was acknowledged as successful", id)
	}
	return nil
}

func enumN02(c *Ctx) {
	ns := notifications()
	nb := func(i int) []byte { return refMarshal(&wNotifBody{&ns[i]}) }
	type in struct {
		name  string
		m     rmsg
		notif *wNotif
	}
	cut := nb(0)
	alpha := []in{
		{"full", rmsg{actor: actNaming, action: notifAction, expect: true, body: nb(0)}, &ns[0]},
		{"second", rmsg{actor: actNaming, action: notifAction, expect: true, body: nb(1)}, &ns[1]},
		{"minimal", rmsg{actor: actNaming, action: notifAction, body: nb(2)}, &ns[2]},
		{"cut", rmsg{actor: actNaming, action: notifAction, expect: true, body: cut[:len(cut)/2]}, nil},
		{"no body", rmsg{actor: actNaming, action: notifAction, expect: true}, nil},
		{"no notification", rmsg{actor: actNaming, action: notifAction, expect: true, body: refMarshal(&wNotifBody{})}, nil},
		{"noise", rmsg{actor: actNaming, action: notifAction, expect: true, body: []byte("\x00\xffnoise")}, nil},
		{"other action", rmsg{actor: actNaming, action: "ServiceNotificationReply", expect: true, body: nb(0)}, nil},
		{"related", rmsg{actor: actNaming, action: notifAction, rel: mid(600), expect: true, body: nb(1)}, &ns[1]},
		{"stray reply", rmsg{actor: actNaming, action: "QueryReply", rel: mid(500), body: nb(1)}, nil},
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	var rec func(p []int)
	rec = func(p []int) {
		if c.stop {
			return
		}
		if len(p) > 0 {
			for h := 0; h < 2; h++ {
				p, h := p, h
				if !c.Case(func() string {
					var s []string
					for _, i := range p {
						s = append(s, alpha[i].name)
					}
					return fmt.Sprintf("handler %d: %s", h, strings.Join(s, ", "))
				}, func() error {
					c.Step(len(p))
					c.Obs(fmt.Sprint(p), h)
					return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
						w := newNW(x, h == 1)
						want := map[transport.MessageId]int{}
						may := map[transport.MessageId]bool{}
						var del []string
						for k, i := range p {
							m := alpha[i].m
							m.id = mid(20 + k)
							if alpha[i].notif != nil {
								want[m.id]++
								if h == 1 {
									del = append(del, alpha[i].notif.key())
								}
							} else if m.action == notifAction {
								may[m.id] = true
							}
							w.c.Feed(m.frame(plainOpt))
							if k%2 == 1 {
								idle()
							}
						}
						idle()
						if w.cl == nil || w.c.Closed() {
							return fmt.Errorf("the connection was closed")
						}
						var got []string
						for _, g := range w.got {
							got = append(got, notifKey(g))
						}
						if !sameSet(got, del) {
							return fmt.Errorf("delivered %q, received %q", got, del)
						}
						if err := w.acks(want, may); err != nil {
							return err
						}
						w.c.FeedEOF()
						return nil
					}, nil)
				}) {
					return
				}
			}
		}
		if len(p) < depth {
			for i := range alpha {
				rec(append(append([]int(nil), p...), i))
			}
		}
	}
	rec(nil)
}

func enumN02p(c *Ctx) {
	one := func(name string, body []byte, n *wNotif) bool {
		return c.Case(func() string { return name }, func() error {
			c.Step(1)
			c.Obs(name)
			return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
				w := newNW(x, true)
				m := &rmsg{id: mid(3), actor: actNaming, action: notifAction, expect: true, body: body}
				w.c.Feed(m.frame(plainOpt))
				idle()
				want, may := map[transport.MessageId]int{}, map[transport.MessageId]bool{}
				if n != nil {
					want[m.id] = 1
					if len(w.got) != 1 || notifKey(w.got[0]) != n.key() {
						return fmt.Errorf("delivered %d: %v, received %s", len(w.got), append(w.keys(), ""), n.key())
					}
				} else {
					may[m.id] = true
					if len(w.got) != 0 {
						return fmt.Errorf("delivered %s", notifKey(w.got[0]))
					}
				}
				if err := w.acks(want, may); err != nil {
					return err
				}
				w.c.FeedEOF()
				return nil
			}, nil)
		})
	}
	for i, n := range notifications() {
		n := n
		b := refMarshal(&wNotifBody{&n})
		for l := 0; l < len(b); l++ {
			if !one(fmt.Sprintf("notification %d cut to %d of %d bytes", i, l, len(b)), b[:l], nil) {
				return
			}
		}
		vars := []func(n *wNotif){
			func(n *wNotif) {},
			func(n *wNotif) { n.Versions = nil },
			func(n *wNotif) { n.Versions = &wVersions{} },
			func(n *wNotif) { n.Parts = nil },
			func(n *wNotif) { n.Parts = append([]*wPart{{}}, n.Parts...) },
			func(n *wNotif) { n.Page.Page = ^uint64(0) },
			func(n *wNotif) { n.Generation.Generation = -1 << 63 },
			func(n *wNotif) {
				for k := 0; k < 30; k++ {
					n.Parts = append(n.Parts, &wPart{Entry: &wEntry{Name: fmt.Sprint("svc", k), Set: wReplicaSet{ReplicaLocations: []string{fmt.Sprint(k)}}}})
				}
			},
		}
		for k, f := range vars {
			v := n
			f(&v)
			if !one(fmt.Sprintf("notification %d variant %d", i, k), refMarshal(&wNotifBody{&v}), &v) {
				return
			}
		}
	}
}

// enumN02b breaks the connection as an acknowledgement is written.
func enumN02b(c *Ctx) {
	ns := notifications()
	for k := 1; k <= 3; k++ {
		for fail := 1; fail <= k; fail++ {
			for v := 0; v < 4; v++ {
				k, fail, v := k, fail, v
				if !c.Case(func() string {
					return fmt.Sprintf("%d notifications, acknowledgement %d fails, partly %v, together %v", k, fail, v&1 == 1, v&2 == 2)
				}, func() error {
					c.Step(k)
					c.Obs(k, fail, v)
					return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
						w := newNW(x, true)
						idle()
						was := w.c.WritesN
						w.c.Feed((&rmsg{id: mid(19), actor: actNaming, action: notifAction, expect: true, body: refMarshal(&wNotifBody{&ns[2]})}).frame(plainOpt))
						idle()
						each := w.c.WritesN - was // writes of one acknowledgement
						if len(w.got) != 1 || each < 1 {
							return fmt.Errorf("%d delivered, %d writes", len(w.got), each)
						}
						w.c.FailWrite, w.c.PartialOnFail = w.c.WritesN+each*(fail-1)+1, v&1 == 1
						var all []byte
						want := []string{ns[2].key()}
						for i := 0; i < k; i++ {
							if i < fail {
								want = append(want, ns[i].key())
							}
							b := (&rmsg{id: mid(20 + i), actor: actNaming, action: notifAction, expect: true, body: refMarshal(&wNotifBody{&ns[i]})}).frame(plainOpt)
							if v&2 == 2 {
								all = append(all, b...)
								continue
							}
							w.c.Feed(b)
							idle()
						}
						if all != nil {
							w.c.Feed(all)
						}
						idle()
						got := map[string]int{}
						for _, g := range w.got {
							got[notifKey(g)]++
						}
						for _, s := range want {
							if got[s]--; got[s] < 0 {
								return fmt.Errorf("delivered %q, received before the connection broke %q", w.keys(), want)
							}
						}
						for i := fail; i < k; i++ { // later ones may have been read or not
							got[ns[i].key()]--
						}
						for s, n := range got {
							if n > 0 {
								return fmt.Errorf("%q was delivered again", s)
							}
						}
						w.c.FeedEOF()
						return nil
					}, nil)
				}) {
					return
				}
			}
		}
	}
}

func (w *nw) keys() (out []string) {
	for _, g := range w.got {
		out = append(out, notifKey(g))
	}
	return
}

func enumN02o(c *Ctx) {
	names := []common.Uri{{}, {Scheme: "fabric", Path: "/a", PathSegments: []string{"a"}}, {Type: common.UriTypeAbsolute, Scheme: "fabric", Path: "/a/b"}, {Host: "h", HostType: common.UriHostTypeRegName, Port: 1}, {Path: strings.Repeat("p", 200)}, {Query: "q", Fragment: "é"}}
	for ni := range names {
		for o := 0; o < 64; o++ {
			ni, o := ni, o
			if !c.Case(func() string { return fmt.Sprintf("name %d options %06b", ni, o) }, func() error {
				c.Step(3)
				return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
					w := newNW(x, false)
					ids := map[uint64]bool{}
					client := ""
					for k := 0; k < 3; k++ {
						prefix, primary := o>>(2*k)&1 == 1, o>>(2*k+1)&1 == 1
						var id uint64
						var err error
						done := false
						vrt.GoNamed("register", func() {
							id, err = w.n.RegisterFilter(context.Background(), names[ni], prefix, primary)
							done = true
						})
						for s := 0; s < 2; s++ {
							idle()
							ms, e := w.sent()
							if e != nil || len(ms) != 2*k+s+1 {
								return fmt.Errorf("%d requests: %v", len(ms), e)
							}
							q := ms[len(ms)-1]
							op := []string{"RegisterFilter", "RegisterFilter2"}[s]
							if e := w.request(q, nActions[op]); e != nil {
								return e
							}
							var r wRegReq
							if e := w.body(op, q, &r); e != nil {
								return e
							}
							if client == "" {
								client = r.ClientId
							}
							if r.ClientId != client {
								return fmt.Errorf("client id changed from %q to %q", client, r.ClientId)
							}
							if s == 1 {
								want := uint32(0)
								if prefix {
									want |= 1
								}
								if primary {
									want |= 2
								}
								if fmt.Sprint(r.Filter.Name) != fmt.Sprint(names[ni]) || r.Filter.Flags.Flags != want {
									return fmt.Errorf("registered %+v for name %v prefix %v primary %v", *r.Filter, names[ni], prefix, primary)
								}
								w.c.Feed((&rmsg{id: mid(70), rel: q.id, actor: actNaming, action: nReplies[op]}).frame(plainOpt))
								idle()
								if !done || err != nil {
									return fmt.Errorf("registration did not succeed: %v %v", done, err)
								}
								if id != r.Filter.FilterId {
									return fmt.Errorf("registered filter %d, returned %d", r.Filter.FilterId, id)
								}
								if ids[id] {
									return fmt.Errorf("filter id %d handed out twice", id)
								}
								ids[id] = true
								c.Obs(ni, prefix, primary, id)
								continue
							}
							w.c.Feed((&rmsg{id: mid(70), rel: q.id, actor: actNaming, action: nReplies[op], body: goodBody(op)}).frame(plainOpt))
						}
					}
					w.c.FeedEOF()
					return nil
				}, nil)
			}) {
				return
			}
		}
	}
}

// enumN02h: handlers that take their time or use the client themselves.
func enumN02h(c *Ctx) {
	ns := notifications()
	for kind := 0; kind < 4; kind++ {
		for k := 1; k <= 3; k++ {
			for split := 0; split < 2; split++ {
				kind, k, split := kind, k, split
				if !c.Case(func() string {
					return fmt.Sprintf("handler %d, %d notifications, fed apart %v", kind, k, split == 1)
				}, func() error {
					c.Step(k)
					c.Obs(kind, k, split)
					return seqCfg(vrt.Config{MaxSteps: 100000, MaxTimers: 50}, func(x *vrt.Exec) error {
						w := newNW(x, false)
						pongs, release := 0, false
						var herr error
						w.n.OnServiceNotification = func(s *naming.ServiceNotification) {
							w.got = append(w.got, s)
							switch kind {
							case 0: // asks the gateway something
								g, err := w.n.Ping(context.Background())
								if err == nil && (g == nil || g.NodeName != gateways()[0].NodeName) {
									err = fmt.Errorf("pinged %v", g)
								}
								if err != nil {
									herr = err
								}
								pongs++
							case 1: // until all of them have arrived
								vrt.Block("the others", func() bool { return len(w.got) >= k })
							case 2: // until the end
								vrt.Block("release", func() bool { return release })
							case 3: // registers another filter
								_, err := w.n.RegisterFilter(context.Background(), common.Uri{Path: "/more"}, true, false)
								if err != nil {
									herr = err
								}
								pongs++
							}
						}
						want := map[transport.MessageId]int{}
						var del []string
						for i := 0; i < k; i++ {
							m := &rmsg{id: mid(20 + i), actor: actNaming, action: notifAction, expect: true, body: refMarshal(&wNotifBody{&ns[i]})}
							want[m.id] = 1
							del = append(del, ns[i].key())
							w.c.Feed(m.frame(plainOpt))
							if split == 1 {
								idle()
							}
						}
						idle()
						answer := func(rounds int) error {
							answered := map[transport.MessageId]bool{}
							for r := 0; r < rounds; r++ {
								ms, err := w.sent()
								if err != nil {
									return err
								}
								for _, q := range ms {
									if !q.expect || !q.rel.IsEmpty() || answered[q.id] {
										continue
									}
									answered[q.id] = true
									for op, a := range nActions {
										if a == q.action {
											w.c.Feed((&rmsg{id: mid(300 + len(answered)), rel: q.id, actor: actNaming, action: nReplies[op], body: goodBody(op)}).frame(plainOpt))
											break
										}
									}
								}
								idle()
							}
							return nil
						}
						if !sameSet(w.keys(), del) {
							return fmt.Errorf("while a handler is busy, delivered %q, received %q", w.keys(), del)
						}
						if err := w.acks(want, nil); err != nil {
							return err
						}
						// calls made while handlers are busy are answered
						var perr error
						done := false
						vrt.GoNamed("ping", func() {
							_, perr = w.n.Ping(context.Background())
							done = true
						})
						idle()
						if err := answer(3); err != nil {
							return err
						}
						if !done || perr != nil {
							return fmt.Errorf("while a handler is busy, a ping returns %v %v", done, perr)
						}
						if (kind == 0 || kind == 3) && (pongs != k || herr != nil) {
							return fmt.Errorf("%d of %d handlers got their answer, %v", pongs, k, herr)
						}
						release = true
						idle()
						if !sameSet(w.keys(), del) {
							return fmt.Errorf("delivered %q, received %q", w.keys(), del)
						}
						if err := w.acks(want, nil); err != nil {
							return err
						}
						w.c.FeedEOF()
						return nil
					}, nil)
				}) {
					return
				}
			}
		}
	}
}

type n02d struct {
	*nw
	ids  [3]uint64
	errs [3]error
	want map[transport.MessageId]int
	del  []string
}

func bodyN02(x *vrt.Exec) {
	w := newNW(x, true)
	d := &n02d{nw: w, want: map[transport.MessageId]int{}}
	x.Data = d
	idle()
	ns := notifications()
	vrt.Branch(true)
	fs := map[string]func(){
		"gateway": func() {
			answered := map[transport.MessageId]bool{}
			for k := 0; k < 6; k++ {
				var q *rmsg
				last := -1
				vrt.Block("request", func() bool {
					if q != nil {
						return true
					}
					if len(w.c.Sent()) == last {
						return false
					}
					last = len(w.c.Sent())
					ms, _ := w.sent()
					for i := len(ms) - 1; i >= 0; i-- { // the latest first
						if ms[i].expect && ms[i].rel.IsEmpty() && !answered[ms[i].id] {
							q = ms[i]
							return true
						}
					}
					return false
				})
				answered[q.id] = true
				if k == 1 || k == 3 {
					m := &rmsg{id: mid(30 + k), actor: actNaming, action: notifAction, expect: true, body: refMarshal(&wNotifBody{&ns[k/2]})}
					d.want[m.id] = 1
					d.del = append(d.del, ns[k/2].key())
					w.c.Feed(m.frame(plainOpt))
				}
				w.c.Feed((&rmsg{id: mid(70 + k), rel: q.id, actor: actNaming, action: "x"}).frame(plainOpt))
			}
		},
	}
	for i := 0; i < 3; i++ {
		i := i
		fs[fmt.Sprint("register", i)] = func() {
			d.ids[i], d.errs[i] = w.n.RegisterFilter(context.Background(), common.Uri{Path: fmt.Sprint("/", i)}, i == 1, i == 2)
		}
	}
	par(fs)
	idle()
	vrt.Branch(false)
	w.c.FeedEOF()
}

func judgeN02(x *vrt.Exec) vrt.Outcome {
	d, _ := x.Data.(*n02d)
	var o vrt.Outcome
	fin(x, &o)
	if d == nil || len(o.Viol) > 0 || len(x.Panics) > 0 || len(x.Fails) > 0 {
		return o
	}
	bad := func(f string, a ...interface{}) { o.Viol = append(o.Viol, fmt.Sprintf(f, a...)) }
	o.Key = fmt.Sprint(d.ids)
	seen := map[uint64]bool{}
	for i := range d.ids {
		if d.errs[i] != nil {
			bad("registration %d: %v", i, d.errs[i])
		}
		if seen[d.ids[i]] {
			bad("filter id %d handed out twice", d.ids[i])
		}
		seen[d.ids[i]] = true
	}
	ms, err := d.sent()
	if err != nil {
		bad("%v", err)
		return o
	}
	regs := 0
	for _, m := range ms {
		if m.action != nActions["RegisterFilter2"] {
			continue
		}
		regs++
		var r wRegReq
		if err := d.body("RegisterFilter2", m, &r); err != nil {
			bad("%v", err)
			continue
		}
		for i := range d.ids {
			if r.Filter.FilterId == d.ids[i] && (r.Filter.Name.Path != fmt.Sprint("/", i) || r.Filter.Flags.Flags != uint32(i)) {
				bad("registration %d (id %d) is %+v", i, d.ids[i], *r.Filter)
			}
		}
		if !seen[r.Filter.FilterId] {
			bad("a registration carries id %d, handed out were %v", r.Filter.FilterId, d.ids)
		}
	}
	if regs != 3 {
		bad("%d registrations sent", regs)
	}
	if got := d.keys(); !sameSet(got, d.del) {
		bad("delivered %q, received %q", got, d.del)
	}
	if err := d.acks(d.want, nil); err != nil {
		bad("%v", err)
	}
	return o
}
