package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
)

// twoEnds connects two clients over a pipe and swallows their announcements.
type ends struct {
	a, b     *vnet.Conn
	ca, cb   *transport.Client
	got      []*rmsg
	waitErr  error
	waitDone bool
}

var hdrTypes = []uint16{0x8036, 0x8037, 0x8024, 0x8800}

func cfgOf(bits int) transport.Config {
	return transport.Config{DisableCheckFrameHeaderCRC: bits&1 != 0, DisableGenerateFrameHeaderCRC: bits&2 != 0, CheckFrameBodyCRC: bits&4 != 0, GenerateFrameBodyCRC: bits&8 != 0}
}

func optOf(c transport.Config) frameOpt {
	return frameOpt{hcrc: !c.DisableGenerateFrameHeaderCRC, bcrc: c.GenerateFrameBodyCRC}
}

type sendSpec struct {
	msg  *transport.Message
	want rmsg // id filled after sending when it was empty
	auto bool
}

type bodyS struct {
	A int32
	B string
}

// specOf builds message number n of a mixed-radix message space.
type specSpace struct{ dims []int }

func (s specSpace) size() int {
	n := 1
	for _, d := range s.dims {
		n *= d
	}
	return n
}

var fullSpace = specSpace{[]int{3, 2, 4, 4, 2, 2, 2, 5, 5, 7, 6}}

func mkSpec(ix []int) *sendSpec {
	m := &transport.Message{}
	s := &sendSpec{msg: m}
	switch ix[0] {
	case 1:
		m.Headers.Id = mid(7)
	case 2:
		m.Headers.Id = transport.MessageId{Index: 0xffffffff}
	default:
		s.auto = true
	}
	if ix[1] == 1 {
		m.Headers.RelatesTo = mid(99)
	}
	m.Headers.Actor = []transport.MessageActorType{transport.MessageActorTypeNamingGateway, 0, transport.MessageActorTypeTransportSendTarget, -5}[ix[2]]
	m.Headers.Action = []string{"Act", "", "\U0001F600 ж", strings.Repeat("L", 300)}[ix[3]]
	m.Headers.ExpectsReply = ix[4] == 1
	m.Headers.HighPriority = ix[5] == 1
	m.Headers.Idempotent = ix[6] == 1
	switch ix[7] {
	case 1:
		m.Headers.ErrorCode = 1
	case 2:
		m.Headers.ErrorCode = -2147017665
	case 3:
		m.Headers.HasFaultBody = true
	case 4:
		m.Headers.ErrorCode, m.Headers.HasFaultBody = 1<<62, true
	}
	m.Headers.RetryCount = []int32{0, 1, 0x7fffffff, -1, -1 << 31}[ix[8]]
	var cust []rhdr
	set := func(t uint16, v interface{}) {
		m.Headers.SetCustomHeader(transport.MessageHeaderIdType(t), v)
		cust = append(cust, rhdr{t, headerBytes(v)})
	}
	app := func(t uint16, vs ...interface{}) {
		m.Headers.AppendCustomHeader(transport.MessageHeaderIdType(t), vs...)
		for _, v := range vs {
			cust = append(cust, rhdr{t, headerBytes(v)})
		}
	}
	switch ix[9] {
	case 1:
		set(0x8036, []byte{1, 2, 3})
	case 2:
		app(0x8036, []byte{1}, []byte{}, []byte{2})
	case 3:
		set(0x8037, &bodyS{-4, "hdr"})
		set(0x8036, []byte{})
	case 4:
		app(0x8024, &bodyS{1, "x"}, &bodyS{2, ""}, []byte("raw"))
		app(0x8800, []byte{0xff})
		set(0x8036, []byte(strings.Repeat("z", 9000)))
	case 5:
		app(0x8037, []byte{9})
		app(0x8037, []byte{8}, []byte{7})
	case 6:
		set(0x8036, []byte{5})
		app(0x8036, []byte{6})
	}
	switch ix[10] {
	case 1:
		m.Body = []byte{}
	case 2:
		m.Body = []byte{0, 1, 2, 0xff}
	case 3:
		m.Body = &bodyS{42, "body"}
	case 4:
		m.Body = bytes.Repeat([]byte{0x5a}, 70000)
	case 5:
		m.Body = &struct{}{}
	}
	s.want = rmsg{id: m.Headers.Id, rel: m.Headers.RelatesTo, actor: int64(m.Headers.Actor), action: m.Headers.Action, expect: m.Headers.ExpectsReply,
		high: m.Headers.HighPriority, idemp: m.Headers.Idempotent, errc: int64(m.Headers.ErrorCode), fault: m.Headers.HasFaultBody, retry: m.Headers.RetryCount, custom: cust}
	if m.Body != nil {
		s.want.body = headerBytes(m.Body)
	}
	return s
}

func (s specSpace) at(n int) []int {
	ix := make([]int, len(s.dims))
	for i, d := range s.dims {
		ix[i] = n % d
		n /= d
	}
	return ix
}

// wireAndDeliver sends specs from one connection and receives them on another.
func wireAndDeliver(c *Ctx, cfgA, cfgB int, specs []*sendSpec, chunk func(avail, want int) int) error {
	var got []*rmsg
	var want []*rmsg
	var werr error
	wdone := false
	return seq(func(x *vrt.Exec) error {
		a, b := vnet.Pipe("a", "b")
		ca, err := transport.Connect(a, transport.ClientConfig{Config: cfgOf(cfgA)})
		if err != nil {
			return err
		}
		init := len(a.Sent())
		b.Chunk = chunk
		cb, err := transport.Connect(b, transport.ClientConfig{Config: cfgOf(cfgB), MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
			got = append(got, fromHeaders(&m.Headers, m.Body, hdrTypes))
		}})
		if err != nil {
			return err
		}
		vrt.GoNamed("recv", func() { werr = cb.Wait(); wdone = true })
		o := optOf(cfgOf(cfgA))
		if ms, rest, err := parseStream(a.Sent(), o); err != nil || len(rest) > 0 || len(ms) != 1 || ms[0].actor != int64(transport.MessageActorTypeTransport) || !ms[0].high || ms[0].id.IsEmpty() {
			return fmt.Errorf("the announcement is not a transport message: %v %x %v", keys(ms), rest, err)
		}
		for i, s := range specs {
			at := len(a.Sent())
			if err := ca.SendOneWay(s.msg); err != nil {
				return fmt.Errorf("sending message %d %s: %v", i, s.want.key(), err)
			}
			c.Step(1)
			w := s.want
			if s.auto {
				w.id = s.msg.Headers.Id
				if w.id.IsEmpty() {
					return fmt.Errorf("message %d was sent without an identity", i)
				}
			}
			ms, rest, err := parseStream(a.Sent()[at:], o)
			if err != nil || len(rest) > 0 || len(ms) != 1 {
				return fmt.Errorf("message %d is not exactly one frame: %v %x", i, err, clip(a.Sent()[at:]))
			}
			if ms[0].key() != w.key() {
				return fmt.Errorf("message %d on the wire\n %s\n want\n %s", i, ms[0].key(), w.key())
			}
			want = append(want, &w)
		}
		_ = init
		vrt.Point("sent")
		a.CloseWrite()
		return nil
	}, func(x *vrt.Exec) error {
		for _, m := range got {
			c.Obs(m.key())
		}
		if !sameList(keys(got), keys(want)) {
			return fmt.Errorf("delivered\n %s\n want\n %s", strings.Join(keys(got), "\n "), strings.Join(keys(want), "\n "))
		}
		if !wdone || werr == nil {
			return fmt.Errorf("the receive loop did not end with an error at the end of the stream (%v %v)", wdone, werr)
		}
		if bl := x.Blocked(true); len(bl) > 0 {
			return fmt.Errorf("still blocked at the end: %v", bl)
		}
		return nil
	})
}

func init() {
	add(&Scenario{Prop: "T01", Name: "fields", Shards: 4, Bounds: "messages with every pair of values of 11 header and body dimensions (identity, correlation, actor, action, 3 flags, fault, retry, custom header sets, body kinds), all others at two base settings, x 4 checksum settings (thorough: the whole product x 4): wire bytes and delivery compared with the reference codec",
		Enum: func(c *Ctx) {
			one := func(ix []int, cf int) bool {
				jx := append([]int(nil), ix...)
				return c.Case(func() string { return fmt.Sprintf("message %v checksums %d", jx, cf) }, func() error {
					k := []int{0, 4 | 8, 1 | 2, 1 | 2 | 4 | 8}[cf]
					return wireAndDeliver(c, k, k, []*sendSpec{mkSpec(jx)}, nil)
				})
			}
			d := fullSpace.dims
			if c.Thorough {
				for n := 0; n < fullSpace.size(); n++ {
					ix := fullSpace.at(n)
					if ix[10] == 4 && n%7 != 0 || ix[9] == 4 && n%5 != 0 {
						continue // large messages with a seventh (fifth) of the combinations
					}
					if !one(ix, n%4) {
						return
					}
				}
				return
			}
			base := [][]int{make([]int, len(d)), {1, 1, 3, 2, 1, 1, 1, 4, 2, 2, 3}}
			for _, b := range base {
				for i := range d {
					for j := i + 1; j < len(d); j++ {
						for u := 0; u < d[i]; u++ {
							for v := 0; v < d[j]; v++ {
								ix := append([]int(nil), b...)
								ix[i], ix[j] = u, v
								for cf := 0; cf < 4; cf++ {
									if !one(ix, cf) {
										return
									}
								}
							}
						}
					}
				}
			}
		}})
	add(&Scenario{Prop: "T01", Name: "fragments", Shards: 4, Bounds: "streams of 3 messages delivered with every constant read size 1..64 and, for every pair of cut positions of the stream (all singles and all pairs with the first within a frame header or message header), x 4 checksum settings",
		Enum: enumT01frag})
	add(&Scenario{Prop: "T01", Name: "sequences", Shards: 2, Bounds: "every sequence of up to 4 (thorough 5) messages over 6 kinds (plain, with headers, reply to nothing, heartbeat request, heartbeat response, announcement): order and exactly-once delivery",
		Enum: enumT01seq})
	add(&Scenario{Prop: "T01", Name: "limits", Bounds: "custom header sizes 65500..65540 singly and in pairs, totals around 65535 from 1..70 headers, actions of 16000..40000 characters, bodies up to 2^25: refused without a byte sent or delivered intact; the connection stays usable",
		Enum: enumT01lim})
	add(&Scenario{Prop: "T02", Name: "header", Shards: 6, Bounds: "all 1-, 2- and 3-bit changes of the 64 header bits covered by the header checksum (41,728), on 2 frames (thorough: 5), with and without body checking, an intact message before and after; 1- and 2-bit changes also with the stream left open",
		Enum: enumT02a})
	add(&Scenario{Prop: "T02", Name: "body", Shards: 6, Bounds: "all 1-, 2- and 3-bit changes of an 8-byte body, all 1- and 2-bit changes of frames without message body, all 1- and 2-bit changes of a 40-byte message plus its checksum field, all bursts up to 12 bits (thorough 18) and 4 patterns of every length up to 32 at every position",
		Enum: enumT02b})
	add(&Scenario{Prop: "T02", Name: "settings", Bounds: "all 16 checksum settings of sender x 16 of receiver x intact / wrong header checksum / wrong body checksum / both zero: generated exactly when configured, checked exactly when configured",
		Enum: enumT02c})
	add(&Scenario{Prop: "T03", Name: "frames", Shards: 4, Bounds: "frame lengths 0..80 and 12 extreme values x header lengths 0..80 and extremes x available bytes (none, short, exact, long), checks on and off; every prefix of valid streams",
		Enum: enumT03a})
	add(&Scenario{Prop: "T03", Name: "headers", Shards: 4, Bounds: "header blocks of every sequence up to 3 (thorough 4) of 34 header fragments (valid, truncated, oversized, wrong tags, unknown types, huge counts), every single-byte mutation of valid header blocks, every transport-actor and authentication message with malformed bodies",
		Enum: enumT03b})
	add(&Scenario{Prop: "T13", Name: "ops", Shards: 2, Bounds: "every sequence of up to 4 (thorough 5) operations over 15 (set, append with 0..3 values, on 3 header types, on fresh and received headers) with all lookups compared with a reference multi-map after every step, then the message sent and received",
		Enum: enumT13})
}

func fragSpecs() []*sendSpec {
	return []*sendSpec{mkSpec([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 2}), mkSpec([]int{1, 1, 3, 2, 1, 1, 1, 4, 2, 3, 3}), mkSpec([]int{0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0})}
}

func enumT01frag(c *Ctx) {
	ks := []int{0, 4 | 8, 1 | 2, 1 | 2 | 4 | 8}
	for _, k := range ks {
		for n := 1; n <= 64; n++ {
			k, n := k, n
			if !c.Case(func() string { return fmt.Sprintf("reads of %d bytes, checksums %d", n, k) }, func() error {
				return wireAndDeliver(c, k, k, fragSpecs(), func(av, want int) int { return n })
			}) {
				return
			}
		}
	}
	// the length of the stream
	total := 0
	seq(func(x *vrt.Exec) error {
		a, _ := vnet.Pipe("a", "b")
		ca, err := transport.Connect(a, transport.ClientConfig{})
		if err != nil {
			return err
		}
		for _, s := range fragSpecs() {
			if err := ca.SendOneWay(s.msg); err != nil {
				return err
			}
		}
		total = len(a.Sent())
		return nil
	}, nil)
	cuts := func(k int, pos ...int) bool {
		return c.Case(func() string { return fmt.Sprintf("stream cut at %v, checksums %d", pos, k) }, func() error {
			read := 0
			return wireAndDeliver(c, k, k, fragSpecs(), func(av, want int) int {
				n := av
				if want < n {
					n = want
				}
				for _, p := range pos {
					if read < p && read+n > p {
						n = p - read
						break
					}
				}
				read += n
				return n
			})
		})
	}
	for ki, k := range ks {
		for i := 1; i < total; i++ {
			if !cuts(k, i) {
				return
			}
			if ki > 0 && !c.Thorough {
				continue
			}
			step := 7
			if c.Thorough {
				step = 1
			}
			for j := i + 1; j < total; j += step {
				if !cuts(k, i, j) {
					return
				}
			}
		}
	}
}

func enumT01seq(c *Ctx) {
	depth := 4
	if c.Thorough {
		depth = 5
	}
	kinds := 6
	var rec func(pre []int) bool
	rec = func(pre []int) bool {
		if len(pre) > 0 {
			sq := append([]int(nil), pre...)
			if !c.Case(func() string { return fmt.Sprintf("sequence %v", sq) }, func() error { return seqDeliver(c, sq) }) {
				return false
			}
		}
		if len(pre) == depth {
			return true
		}
		for k := 0; k < kinds; k++ {
			if !rec(append(append([]int(nil), pre...), k)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

// seqDeliver feeds reference frames to a connection and checks what it delivers and answers.
func seqDeliver(c *Ctx, sq []int) error {
	var got, want, hb []*rmsg
	var a *vnet.Conn
	return seq(func(x *vrt.Exec) error {
		a, _ = vnet.Pipe("a", "b")
		cl, err := transport.Connect(a, transport.ClientConfig{MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
			got = append(got, fromHeaders(&m.Headers, m.Body, hdrTypes))
		}})
		if err != nil {
			return err
		}
		for i, k := range sq {
			m := &rmsg{id: mid(i + 1), actor: 2, action: "X", body: []byte{byte(i), byte(k)}}
			switch k {
			case 1:
				m.custom = []rhdr{{0x8036, []byte{byte(i)}}, {0x8024, []byte("t")}, {0x8036, []byte{0xee}}}
			case 2:
				m.rel = mid(1000 + i)
			case 3:
				m.actor, m.action, m.high = int64(transport.MessageActorTypeTransport), "HeartbeatRequest", true
				m.body = refMarshal(&wI64{int64(i)})
				hb = append(hb, m)
			case 4:
				m.actor, m.action = int64(transport.MessageActorTypeTransport), "HeartbeatResponse"
				m.body = refMarshal(&wI64{int64(i)})
			case 5:
				m.actor, m.action = int64(transport.MessageActorTypeTransport), ""
			}
			if k < 3 {
				want = append(want, m)
			}
			a.Feed(m.frame(plainOpt))
			c.Step(1)
		}
		a.FeedEOF()
		cl.Wait()
		return nil
	}, func(x *vrt.Exec) error {
		if !sameList(keys(got), keys(want)) {
			return fmt.Errorf("delivered\n %s\n want\n %s", strings.Join(keys(got), "\n "), strings.Join(keys(want), "\n "))
		}
		ms, rest, err := parseStream(a.Sent(), plainOpt)
		if err != nil || len(rest) > 0 || len(ms) < 1 {
			return fmt.Errorf("bytes sent are not whole frames: %v %x", err, rest)
		}
		// heartbeat requests may be answered or not once the stream has ended, never twice and only with their payload
		n := map[string]int{}
		for _, m := range hb {
			n[string(m.body)]++
		}
		for _, m := range ms[1:] {
			if m.actor != int64(transport.MessageActorTypeTransport) || m.action != "HeartbeatResponse" || n[string(m.body)] == 0 {
				return fmt.Errorf("unexpected message sent: %s", m.key())
			}
			n[string(m.body)]--
		}
		for _, m := range got {
			c.Obs(m.key())
		}
		return nil
	})
}

func enumT01lim(c *Ctx) {
	// each case: header sizes (raw custom headers spread over two types), action length, body length
	type lim struct {
		hs      []int
		act     int
		body    int
		sameTyp bool
	}
	var cases []lim
	for n := 65300; n <= 65545; n++ {
		cases = append(cases, lim{hs: []int{n}})
	}
	for _, n := range []int{65535, 65536, 65537, 65540, 66000, 131071, 131072, 131080, 200000} {
		cases = append(cases, lim{hs: []int{n}}, lim{hs: []int{n, 10}}, lim{hs: []int{10, n}, sameTyp: true})
	}
	for _, n := range []int{32700, 32710, 32720, 32730, 32760, 32768, 33000, 40000} {
		cases = append(cases, lim{hs: []int{n, n}}, lim{hs: []int{n, n}, sameTyp: true})
	}
	for k := 1; k <= 70; k += 3 {
		cases = append(cases, lim{hs: repInt(1000, k)}, lim{hs: repInt(65600/k, k)}, lim{hs: repInt(65300/k, k), sameTyp: true})
	}
	for _, n := range []int{16000, 32600, 32700, 32740, 32760, 32767, 32768, 33000, 40000} {
		cases = append(cases, lim{act: n}, lim{act: n / 2, hs: []int{n}})
	}
	for _, n := range []int{1<<24 - 1, 1 << 24, 1<<25 + 3} {
		cases = append(cases, lim{body: n})
	}
	for _, n := range []int{65535, 65536, 1 << 20} {
		cases = append(cases, lim{body: n}, lim{body: n, hs: []int{60000}})
	}
	for _, l := range cases {
		l := l
		if !c.Case(func() string { return fmt.Sprintf("limits %+v", l) }, func() error {
			var got []*rmsg
			var want []*rmsg
			return seq(func(x *vrt.Exec) error {
				a, b := vnet.Pipe("a", "b")
				ca, err := transport.Connect(a, transport.ClientConfig{})
				if err != nil {
					return err
				}
				cb, err := transport.Connect(b, transport.ClientConfig{MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
					got = append(got, fromHeaders(&m.Headers, m.Body, hdrTypes))
				}})
				if err != nil {
					return err
				}
				vrt.GoNamed("recv", func() { cb.Wait() })
				m := &transport.Message{}
				m.Headers.Id = mid(3)
				m.Headers.Actor = 2
				m.Headers.Action = strings.Repeat("q", l.act)
				w := &rmsg{id: mid(3), actor: 2, action: m.Headers.Action, body: make([]byte, l.body)}
				if l.body > 0 {
					m.Body = w.body
				}
				fits := true
				var v0, v1 []interface{}
				for i, n := range l.hs {
					v := bytes.Repeat([]byte{byte(i + 1)}, n)
					if n > 65535 {
						fits = false
					}
					if i%2 == 0 || l.sameTyp {
						v0 = append(v0, v)
						w.custom = append(w.custom, rhdr{0x8036, v})
					} else {
						v1 = append(v1, v)
						w.custom = append(w.custom, rhdr{0x8037, v})
					}
				}
				if len(refMarshal(&wStr{w.action})) > 65535 {
					fits = false
				}
				if v0 != nil {
					m.Headers.AppendCustomHeader(0x8036, v0...)
				}
				if v1 != nil {
					m.Headers.AppendCustomHeader(0x8037, v1...)
				}
				if len(w.headers()) > 65535 {
					fits = false
				}
				at := len(a.Sent())
				err = ca.SendOneWay(m)
				c.Step(1)
				c.Obs(fits, len(w.headers()))
				if fits && err != nil {
					return fmt.Errorf("a message with %d header bytes is refused: %v", len(w.headers()), err)
				}
				if !fits && err == nil {
					return fmt.Errorf("a message with %d header bytes is sent as %x...", len(w.headers()), clip(a.Sent()[at:]))
				}
				if !fits && len(a.Sent()) != at {
					return fmt.Errorf("a refused message sent %d bytes", len(a.Sent())-at)
				}
				if fits {
					want = append(want, w)
				}
				w2 := &rmsg{id: mid(4), actor: 2, action: "after"}
				m2 := &transport.Message{}
				m2.Headers.Id, m2.Headers.Actor, m2.Headers.Action = mid(4), 2, "after"
				if err := ca.SendOneWay(m2); err != nil {
					return fmt.Errorf("the connection is unusable afterwards: %v", err)
				}
				want = append(want, w2)
				a.CloseWrite()
				return nil
			}, func(x *vrt.Exec) error {
				if !sameList(keys(got), keys(want)) {
					return fmt.Errorf("delivered %v\n want %v", keys(got), keys(want))
				}
				return nil
			})
		}) {
			return
		}
	}
}

func repInt(v, n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = v
	}
	return o
}

// ---------------------------------------------------------------- T02

// recvRaw feeds bytes to a connection and reports what it delivered and how it ended.
type recvRes struct {
	got     []*rmsg
	err     error
	done    bool
	closed  bool
	blocked []string
	sent    []byte
	alloc   uint64
}

func recvRaw(cfg transport.Config, data []byte, eof bool) (*recvRes, error) {
	r := &recvRes{}
	var a *vnet.Conn
	err := seq(func(x *vrt.Exec) error {
		a, _ = vnet.Pipe("a", "b")
		cl, err := transport.Connect(a, transport.ClientConfig{Config: cfg, MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
			r.got = append(r.got, fromHeaders(&m.Headers, m.Body, hdrTypes))
		}})
		if err != nil {
			return err
		}
		a.Feed(data)
		if eof {
			a.FeedEOF()
		}
		before := allocated()
		r.err = cl.Wait()
		r.alloc = allocated() - before
		r.done = true
		return nil
	}, func(x *vrt.Exec) error {
		r.blocked = x.Blocked(true)
		return nil
	})
	if a != nil {
		r.closed = a.Closed()
		r.sent = a.Sent()
	}
	return r, err
}

func flip(b []byte, bitsAt ...int) []byte {
	o := append([]byte(nil), b...)
	for _, p := range bitsAt {
		o[p/8] ^= 1 << uint(p%8)
	}
	return o
}

// damagedHeader: a damaged header ends the receive loop as soon as it is there, it is not believed and waited for.
func damagedHeader(c *Ctx, cfg transport.Config, o frameOpt, good *rmsg, dam []byte, what func() string) bool {
	return c.Case(what, func() error {
		c.Step(1)
		r, err := recvRaw(cfg, append(append([]byte(nil), good.frame(o)...), dam...), false)
		if err != nil {
			return err
		}
		c.Obs(len(r.got), r.err != nil, dam)
		if !sameList(keys(r.got), []string{good.key()}) || !r.done || r.err == nil || !r.closed {
			return fmt.Errorf("frame %x altered, stream open: delivered\n %s\n the receive loop ended=%v with error %v, closed=%v", clip(dam), strings.Join(keys(r.got), "\n "), r.done, r.err, r.closed)
		}
		return nil
	})
}

func damageCase(c *Ctx, cfg transport.Config, o frameOpt, good *rmsg, dam []byte, what func() string) bool {
	return c.Case(what, func() error {
		c.Step(1)
		data := append(append(append([]byte(nil), good.frame(o)...), dam...), good.frame(o)...)
		r, err := recvRaw(cfg, data, true)
		if err != nil {
			return err
		}
		c.Obs(len(r.got), r.err != nil, dam)
		if !sameList(keys(r.got), []string{good.key()}) {
			return fmt.Errorf("frame %x altered: delivered\n %s\n want only the intact message before it", clip(dam), strings.Join(keys(r.got), "\n "))
		}
		if !r.done || r.err == nil || !r.closed {
			return fmt.Errorf("frame %x altered: the receive loop ended=%v with error %v, closed=%v", clip(dam), r.done, r.err, r.closed)
		}
		return nil
	})
}

func enumT02a(c *Ctx) {
	good := &rmsg{id: mid(1), actor: 2, action: "g"}
	frames := []*rmsg{{id: mid(2), actor: 3, action: "h", body: []byte{1, 2, 3, 4}}, {id: mid(3), actor: 1}}
	if c.Thorough {
		frames = append(frames, &rmsg{id: mid(4), actor: 5, body: make([]byte, 300)}, &rmsg{id: mid(5), actor: 5, action: strings.Repeat("w", 40)}, &rmsg{actor: 9, high: true})
	}
	var hb []int
	for i := 0; i < 64; i++ {
		hb = append(hb, i)
	}
	for fi, f := range frames {
		for _, body := range []bool{false, true} {
			cfg := transport.Config{CheckFrameBodyCRC: body}
			o := frameOpt{hcrc: true, bcrc: body}
			if body && !c.Thorough && fi > 0 {
				continue
			}
			raw := f.frame(o)
			for i := 0; i < len(hb); i++ {
				i := i
				if !damageCase(c, cfg, o, good, flip(raw, hb[i]), func() string { return fmt.Sprintf("frame %d header bit %d", fi, i) }) ||
					!damagedHeader(c, cfg, o, good, flip(raw, hb[i]), func() string { return fmt.Sprintf("frame %d header bit %d, stream open", fi, i) }) {
					return
				}
				for j := i + 1; j < len(hb); j++ {
					j := j
					if !damageCase(c, cfg, o, good, flip(raw, hb[i], hb[j]), func() string { return fmt.Sprintf("frame %d header bits %d %d", fi, i, j) }) {
						return
					}
					if body && !c.Thorough {
						continue
					}
					if !damagedHeader(c, cfg, o, good, flip(raw, hb[i], hb[j]), func() string { return fmt.Sprintf("frame %d header bits %d %d, stream open", fi, i, j) }) {
						return
					}
					for k := j + 1; k < len(hb); k++ {
						k := k
						if !damageCase(c, cfg, o, good, flip(raw, hb[i], hb[j], hb[k]), func() string { return fmt.Sprintf("frame %d header bits %d %d %d", fi, i, j, k) }) {
							return
						}
					}
				}
			}
		}
	}
}

func enumT02b(c *Ctx) {
	cfg := transport.Config{CheckFrameBodyCRC: true}
	o := frameOpt{hcrc: true, bcrc: true}
	good := &rmsg{id: mid(1), actor: 2, action: "g"}
	small := rawFrame(0, []byte{1, 2, 3, 4, 0xf0, 0x0f, 0xaa, 0x55}, o)
	bit := func(i int) int { return 96 + i }
	for i := 0; i < 64; i++ {
		for j := i; j < 64; j++ {
			for k := j; k < 64; k++ {
				if j == i && k > j {
					continue
				}
				i, j, k := i, j, k
				var d []byte
				switch {
				case i == j:
					d = flip(small, bit(i))
				case j == k:
					d = flip(small, bit(i), bit(j))
				default:
					d = flip(small, bit(i), bit(j), bit(k))
				}
				if !damageCase(c, cfg, o, good, d, func() string { return fmt.Sprintf("small body bits %d %d %d", i, j, k) }) {
					return
				}
			}
		}
	}
	// frames without a message body: headers only, or nothing at all
	for fi, raw := range [][]byte{(&rmsg{id: mid(3), actor: 1}).frame(o), rawFrame(0, nil, o)} {
		n := (len(raw) - 8) * 8
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				i, j := i, j
				d := flip(raw, 64+i)
				if j > i {
					d = flip(d, 64+j)
				}
				if !damageCase(c, cfg, o, good, d, func() string { return fmt.Sprintf("frame %d without message body, bits %d %d", fi, i, j) }) {
					return
				}
			}
		}
	}
	m := &rmsg{id: mid(2), actor: 3, body: []byte{9, 8, 7}}
	raw := m.frame(o)
	n := (len(raw) - 8) * 8
	for i := 0; i < n; i++ { // from the checksum field to the end
		i := i
		if !damageCase(c, cfg, o, good, flip(raw, 64+i), func() string { return fmt.Sprintf("message bit %d", i) }) {
			return
		}
		for j := i + 1; j < n; j++ {
			if !c.Thorough && (j-i)%3 != 1 && i%5 != 0 {
				continue
			}
			j := j
			if !damageCase(c, cfg, o, good, flip(raw, 64+i, 64+j), func() string { return fmt.Sprintf("message bits %d %d", i, j) }) {
				return
			}
		}
	}
	max := 12
	if c.Thorough {
		max = 16
	}
	burst := func(f []byte, pos int, pat uint64, l int) bool {
		d := append([]byte(nil), f...)
		for k := 0; k < l; k++ {
			if pat>>uint(k)&1 != 0 {
				p := pos + k
				d[p/8] ^= 1 << uint(p%8)
			}
		}
		return damageCase(c, cfg, o, good, d, func() string { return fmt.Sprintf("burst %x of %d bits at %d", pat, l, pos) })
	}
	for l := 4; l <= max; l++ {
		for _, pos := range []int{96, 97, 103, 120, 160 - l} {
			for p := uint64(0); p < 1<<uint(l-2); p++ {
				if !burst(small, pos, p<<1|1|1<<uint(l-1), l) {
					return
				}
			}
		}
	}
	for l := 13; l <= 32; l++ {
		for pos := 96; pos+l <= len(raw)*8; pos++ {
			for _, p := range []uint64{1<<uint(l) - 1, 0x55555555, 0x0f0f0f0f, 0x12345678} {
				if !burst(raw, pos, (p|1|1<<uint(l-1))&(1<<uint(l)-1), l) {
					return
				}
			}
		}
	}
}

func enumT02c(c *Ctx) {
	m := &rmsg{id: mid(2), actor: 3, action: "h", body: []byte{1, 2, 3, 4}}
	for w := 0; w < 16; w++ {
		for r := 0; r < 16; r++ {
			w, r := w, r
			// what the real sender produces is accepted exactly when every check is matched
			if !c.Case(func() string { return fmt.Sprintf("sender settings %d receiver settings %d", w, r) }, func() error {
				c.Step(2)
				wc, rc := cfgOf(w), cfgOf(r)
				var wire []byte
				if err := seq(func(x *vrt.Exec) error {
					a, _ := vnet.Pipe("a", "b")
					ca, err := transport.Connect(a, transport.ClientConfig{Config: wc})
					if err != nil {
						return err
					}
					at := len(a.Sent())
					msg := &transport.Message{Body: m.body}
					msg.Headers.Id, msg.Headers.Actor, msg.Headers.Action = m.id, 3, "h"
					if err := ca.SendOneWay(msg); err != nil {
						return err
					}
					wire = append([]byte(nil), a.Sent()[at:]...)
					return nil
				}, nil); err != nil {
					return err
				}
				if p, err := parseFrame(wire, optOf(wc)); err != nil || p.key() != m.key() {
					return fmt.Errorf("sender settings %+v produced %x (%v)", wc, wire, err)
				}
				res, err := recvRaw(rc, wire, true)
				if err != nil {
					return err
				}
				ok := (rc.DisableCheckFrameHeaderCRC || !wc.DisableGenerateFrameHeaderCRC) && (!rc.CheckFrameBodyCRC || wc.GenerateFrameBodyCRC)
				c.Obs(w, r, ok)
				if ok != (len(res.got) == 1) {
					return fmt.Errorf("sender %+v receiver %+v: delivered %d messages", wc, rc, len(res.got))
				}
				return nil
			}) {
				return
			}
		}
	}
	for r := 0; r < 16; r++ {
		for h := 0; h < 256; h++ {
			for _, bx := range []uint32{0, 1, 0x80000000, 0xffffffff} {
				r, h, bx := r, h, bx
				if !c.Case(func() string { return fmt.Sprintf("receiver %d header checksum ^%#x body checksum ^%#x", r, h, bx) }, func() error {
					c.Step(1)
					f := m.frame(frameOpt{hcrc: true, bcrc: true})
					f[5] ^= byte(h)
					binary.LittleEndian.PutUint32(f[8:], binary.LittleEndian.Uint32(f[8:])^bx)
					rc := cfgOf(r)
					res, err := recvRaw(rc, f, true)
					if err != nil {
						return err
					}
					ok := (rc.DisableCheckFrameHeaderCRC || h == 0) && (!rc.CheckFrameBodyCRC || bx == 0)
					c.Obs(r, h, bx, ok)
					if ok != (len(res.got) == 1) || res.err == nil {
						return fmt.Errorf("receiver %+v header checksum off by %#x, body by %#x: delivered %d, error %v", rc, h, bx, len(res.got), res.err)
					}
					return nil
				}) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- T03

// claimed is the sum of the frame lengths a stream commits to, whatever is really there.
func claimed(data []byte) (sum int) {
	for len(data) >= 12 {
		n := int(binary.LittleEndian.Uint32(data))
		sum += n
		if n < 12 || n > len(data) {
			return
		}
		data = data[n:]
	}
	return
}

// hostile feeds bytes and requires containment; want lists the messages that precede the damage.
func hostile(c *Ctx, cfg transport.Config, data []byte, want []*rmsg, allow int, exact bool) error {
	for _, eof := range []bool{true, false} {
		c.Step(1)
		r, err := recvRaw(cfg, data, eof)
		if err != nil {
			return err
		}
		c.Obs(r.err != nil, r.done, keys(r.got))
		k, w := keys(r.got), keys(want)
		if exact && !sameList(k, w) {
			return fmt.Errorf("delivered\n %s\n want\n %s", strings.Join(k, "\n "), strings.Join(w, "\n "))
		}
		if len(k) < len(w) || !sameList(k[:len(w)], w) {
			return fmt.Errorf("delivered\n %s\n want at least\n %s", strings.Join(k, "\n "), strings.Join(w, "\n "))
		}
		if eof && (!r.done || !r.closed) {
			return fmt.Errorf("the receive loop did not end: done=%v error=%v closed=%v", r.done, r.err, r.closed)
		}
		if r.done && !r.closed {
			return fmt.Errorf("the receive loop ended without closing the connection")
		}
		if eof && len(r.blocked) > 0 {
			return fmt.Errorf("still blocked: %v", r.blocked)
		}
		if r.alloc > uint64(1<<20+64*len(data)+2*allow) {
			return fmt.Errorf("%d bytes allocated for %d received, frame length %d", r.alloc, len(data), allow)
		}
	}
	return nil
}

func enumT03a(c *Ctx) {
	good := &rmsg{id: mid(1), actor: 2, action: "g"}
	pre := good.frame(plainOpt)
	lens := []uint32{}
	for i := uint32(0); i <= 80; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 255, 256, 65535, 65536, 65547, 65548, 1<<20, 1<<24)
	hl := []uint16{}
	for i := uint16(0); i <= 80; i++ {
		hl = append(hl, i)
	}
	hl = append(hl, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff)
	if !c.Thorough {
		hl = []uint16{0, 1, 2, 3, 4, 5, 11, 12, 13, 20, 28, 29, 40, 67, 68, 69, 0x7fff, 0xfff4, 0xffff}
	}
	valid := good.headers()
	for _, fl := range lens {
		for _, h := range hl {
			for _, av := range []int{0, 1, 3, 30, 70, 200} {
				for fill := 0; fill < 3; fill++ {
					for crc := 0; crc < 2; crc++ {
						fl, h, av, fill, crc := fl, h, av, fill, crc
						if av == 0 && fill > 0 {
							continue
						}
						b := make([]byte, 12)
						binary.LittleEndian.PutUint32(b, fl)
						binary.LittleEndian.PutUint16(b[6:], h)
						b[5] = refCRC8(b)
						body := make([]byte, av)
						switch fill {
						case 1:
							copy(body, valid)
						case 2:
							for i := range body {
								body[i] = 0xff
							}
						}
						data := append(append(append([]byte(nil), pre...), b...), body...)
						if crc == 1 && claimed(data) > 1<<25 {
							continue // the rest would be taken as a frame of gigabytes
						}
						if !c.Case(func() string {
							return fmt.Sprintf("frame length %d header length %d then %d bytes (fill %d, checks off %d)", fl, h, av, fill, crc)
						}, func() error {
							return hostile(c, transport.Config{DisableCheckFrameHeaderCRC: crc == 1}, data, []*rmsg{good}, claimed(data), false)
						}) {
							return
						}
					}
				}
			}
		}
	}
	// lengths the peer merely claims, header checksum right or wrong
	for _, fl := range []uint32{1 << 26, 1 << 27} {
		fl := fl
		if !c.Case(func() string { return fmt.Sprintf("claimed length %d", fl) }, func() error {
			b := make([]byte, 12)
			binary.LittleEndian.PutUint32(b, fl)
			b[5] = refCRC8(b)
			if err := hostile(c, transport.Config{}, append(append([]byte(nil), pre...), b...), []*rmsg{good}, int(fl), true); err != nil {
				return err
			}
			b[5] ^= 1
			return hostile(c, transport.Config{}, append(append([]byte(nil), pre...), b...), []*rmsg{good}, 0, true)
		}) {
			return
		}
	}
	second := &rmsg{id: mid(2), actor: 3, action: "second", custom: []rhdr{{0x8036, []byte{1}}}, body: []byte("tail"), errc: 5}
	stream := append(append([]byte(nil), pre...), second.frame(plainOpt)...)
	for n := 0; n <= len(stream); n++ {
		n := n
		if !c.Case(func() string { return fmt.Sprintf("stream ends after %d bytes", n) }, func() error {
			var want []*rmsg
			if n >= len(pre) {
				want = append(want, good)
			}
			if n == len(stream) {
				want = append(want, second)
			}
			return hostile(c, transport.Config{}, stream[:n], want, 4096, true)
		}) {
			return
		}
	}
}

func hdrBytes(t uint16, size int, v []byte) []byte {
	b := []byte{byte(t), byte(t >> 8), byte(size), byte(size >> 8)}
	return append(b, v...)
}

func enumT03b(c *Ctx) {
	good := &rmsg{id: mid(1), actor: 2, action: "g"}
	pre := good.frame(plainOpt)
	var frags [][]byte
	full := func(t uint16, v []byte) { frags = append(frags, hdrBytes(t, len(v), v)) }
	full(0x8003, refMarshal(&wId{mid(3).Id, 3}))
	full(0x8004, refMarshal(&wId{mid(4).Id, 4}))
	full(0x8001, refMarshal(&wI64{2}))
	full(0x8001, refMarshal(&wI64{int64(transport.MessageActorTypeTransport)}))
	full(0x8002, refMarshal(&wStr{"HeartbeatResponse"}))
	full(0x8002, refMarshal(&wStr{"HeartbeatRequest"}))
	full(0x8002, refMarshal(&wStr{"ConnectionAuth"}))
	full(0x8001, refMarshal(&wI64{int64(transport.MessageActorTypeTransportSendTarget)}))
	full(0x8007, refMarshal(&wFault{5, true}))
	full(0x8005, refMarshal(&wBool{true}))
	full(0x8006, refMarshal(&wI32{-1}))
	full(0x8000, []byte{1, 2})
	full(0x9999, []byte{})
	full(0x0001, []byte{9})
	full(0x8036, []byte{1, 2, 3})
	full(0x8001, []byte{})
	full(0x8001, []byte{0})
	full(0x8001, []byte{0x41})
	full(0x8002, refObj(append([]byte{0x8d, 0x8f, 0xff, 0xff, 0xff, 0x7f}, 1, 2)))
	full(0x8002, refObj([]byte{0x07, 0x01}))
	full(0x8003, refObj([]byte{0x0c, 1, 2}))
	full(0x8010, refObj([]byte{0x80, 0x8f, 0xff, 0xff, 0xff, 0x7f}))
	full(0x8010, []byte{1})
	full(0x8013, refObj([]byte{0x00}))
	full(0x800c, bytes.Repeat([]byte{0xff}, 40))
	frags = append(frags, hdrBytes(0x8002, 500, []byte{1}), hdrBytes(0x8036, 65535, nil), []byte{0x01}, []byte{0x01, 0x80, 0x05}, hdrBytes(0x9999, 10, []byte{1, 2, 3}))
	depth := 3
	if c.Thorough {
		depth = 4
	}
	var rec func(pre0 []byte, d int) bool
	rec = func(h []byte, d int) bool {
		for _, f := range frags {
			b := append(append([]byte(nil), h...), f...)
			for _, body := range [][]byte{nil, refMarshal(&wI64{5}), refMarshal(&wStr{"no"}), {0xff}} {
				body := body
				if !c.Case(func() string { return fmt.Sprintf("headers %x body %x", b, body) }, func() error {
					data := append(append([]byte(nil), pre...), rawFrame(len(b), append(append([]byte(nil), b...), body...), plainOpt)...)
					return hostile(c, transport.Config{}, data, []*rmsg{good}, len(b)+100, false)
				}) {
					return false
				}
			}
			if d > 1 && !rec(b, d-1) {
				return false
			}
		}
		return true
	}
	if !rec(nil, depth) {
		return
	}
	// unknown header types are kept as opaque values, in order
	for t := 0; t < 1<<16; t += 1 {
		if t >= 0x8000 && t <= 0x803f {
			continue
		}
		if !c.Thorough && t&0x1f != 0 && t&0x1f != 0x1f {
			continue
		}
		t := uint16(t)
		if !c.Case(func() string { return fmt.Sprintf("unknown header type %#x", t) }, func() error {
			c.Step(1)
			m := &rmsg{id: mid(5), actor: 2, custom: []rhdr{{t, []byte{1, 2}}, {t, []byte{}}, {t, []byte{0xff}}}}
			var got *rmsg
			n := 0
			return seq(func(x *vrt.Exec) error {
				a, _ := vnet.Pipe("a", "b")
				cl, err := transport.Connect(a, transport.ClientConfig{MessageCallback: func(_ transport.Conn, mm *transport.ByteArrayMessage) {
					got = fromHeaders(&mm.Headers, mm.Body, []uint16{t})
					n++
				}})
				if err != nil {
					return err
				}
				a.Feed(m.frame(plainOpt))
				a.FeedEOF()
				cl.Wait()
				return nil
			}, func(x *vrt.Exec) error {
				if n != 1 || got.key() != m.key() {
					return fmt.Errorf("header type %#x: delivered %d times as %v, want %s", t, n, got, m.key())
				}
				return nil
			})
		}) {
			return
		}
	}
	// single-byte mutations of a message with every kind of header
	rich := &rmsg{id: mid(6), rel: mid(7), actor: 2, action: "rich", expect: true, high: true, idemp: true, errc: 9, fault: true, retry: 3, custom: []rhdr{{0x8036, []byte{1}}, {0x9000, refMarshal(&wStr{"o"})}}, body: []byte{1}}
	hb := rich.headers()
	for i := range hb {
		for x := 0; x < 256; x++ {
			if !c.Thorough && x&3 != int(i)&3 && x > 8 && x < 248 {
				continue
			}
			i, x := i, x
			if !c.Case(func() string { return fmt.Sprintf("header byte %d = %#x", i, x) }, func() error {
				b := append([]byte(nil), hb...)
				b[i] = byte(x)
				data := append(append([]byte(nil), pre...), rawFrame(len(b), b, plainOpt)...)
				return hostile(c, transport.Config{}, data, []*rmsg{good}, len(b), false)
			}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- T13

type regHdr struct {
	N uint32
	S string
}

const regType = 0x8039 // registered below with its own activator

func init() {
	transport.RegisterHeaderActivator(regType, func() interface{} { return &regHdr{} })
}

type t13op struct {
	typ   uint16
	isSet bool
	n     int
}

func enumT13(c *Ctx) {
	types := []uint16{0x8036, regType, 0x9abc}
	var ops []t13op
	for _, t := range types {
		ops = append(ops, t13op{t, true, 1}, t13op{t, false, 0}, t13op{t, false, 1}, t13op{t, false, 2}, t13op{t, false, 3})
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	var rec func(sq []t13op) bool
	rec = func(sq []t13op) bool {
		for start := 0; start < 3; start++ {
			start := start
			s := append([]t13op(nil), sq...)
			if !c.Case(func() string { return fmt.Sprintf("start %d operations %v", start, s) }, func() error { return t13run(c, start, s, types) }) {
				return false
			}
		}
		if len(sq) == depth {
			return true
		}
		for _, o := range ops {
			if !rec(append(append([]t13op(nil), sq...), o)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

func t13run(c *Ctx, start int, ops []t13op, types []uint16) error {
	model := map[uint16][]interface{}{}
	present := map[uint16]bool{}
	h := &transport.MessageHeaders{}
	ctr := 0
	mk := func(t uint16) interface{} {
		ctr++
		if t == regType {
			return &regHdr{uint32(ctr), fmt.Sprintf("v%d", ctr)}
		}
		return []byte{byte(ctr), byte(t)}
	}
	recv := func(m *rmsg) (*transport.MessageHeaders, error) {
		var out *transport.MessageHeaders
		err := seq(func(x *vrt.Exec) error {
			a, _ := vnet.Pipe("a", "b")
			cl, err := transport.Connect(a, transport.ClientConfig{MessageCallback: func(_ transport.Conn, mm *transport.ByteArrayMessage) { out = &mm.Headers }})
			if err != nil {
				return err
			}
			a.Feed(m.frame(plainOpt))
			a.FeedEOF()
			cl.Wait()
			return nil
		}, nil)
		if err == nil && out == nil {
			err = fmt.Errorf("message %s was not delivered", m.key())
		}
		return out, err
	}
	if start > 0 {
		m := &rmsg{id: mid(1), actor: 2}
		if start == 2 {
			for _, t := range types[:2] {
				v, w := mk(t), mk(t)
				model[t] = []interface{}{v, w}
				present[t] = true
				m.custom = append(m.custom, rhdr{t, headerBytes(v)}, rhdr{t, headerBytes(w)})
			}
		}
		var err error
		if h, err = recv(m); err != nil {
			return err
		}
	}
	show1 := func(v []interface{}) string {
		s := ""
		for _, e := range v {
			s += fmt.Sprintf("%T:%x ", e, headerBytes(e))
		}
		return s
	}
	check := func(h *transport.MessageHeaders, when string) error {
		for _, t := range types {
			got := h.GetCustomHeaders(transport.MessageHeaderIdType(t))
			if show1(got) != show1(model[t]) {
				return fmt.Errorf("%s: header type %#x holds %s, want %s", when, t, show1(got), show1(model[t]))
			}
			f, ok := h.GetFirstCustomHeader(transport.MessageHeaderIdType(t))
			if ok != (len(model[t]) > 0) || (ok && show1([]interface{}{f}) != show1(model[t][:1])) || (!ok && f != nil) {
				return fmt.Errorf("%s: first header of type %#x is %v %v, stored %s", when, t, f, ok, show1(model[t]))
			}
		}
		if got := h.GetCustomHeaders(0x8888); len(got) != 0 {
			return fmt.Errorf("%s: a type never stored holds %v", when, got)
		}
		return nil
	}
	if err := check(h, "at the start"); err != nil {
		return err
	}
	for i, o := range ops {
		c.Step(1)
		t := transport.MessageHeaderIdType(o.typ)
		if o.isSet {
			v := mk(o.typ)
			ok := h.SetCustomHeader(t, v)
			// setting after appending nothing may count as absent or present; the stored values decide
			absent := len(model[o.typ]) == 0
			if absent && !present[o.typ] && !ok {
				return fmt.Errorf("step %d: setting absent type %#x was refused", i, o.typ)
			}
			if !absent && ok {
				return fmt.Errorf("step %d: setting present type %#x was accepted", i, o.typ)
			}
			if ok {
				model[o.typ] = []interface{}{v}
			}
			present[o.typ] = true
		} else {
			var vs []interface{}
			for k := 0; k < o.n; k++ {
				vs = append(vs, mk(o.typ))
			}
			h.AppendCustomHeader(t, vs...)
			model[o.typ] = append(model[o.typ], vs...)
			present[o.typ] = true
		}
		if err := check(h, fmt.Sprintf("after step %d", i)); err != nil {
			return err
		}
	}
	// send it and receive it
	m := &rmsg{id: mid(9), actor: 2}
	for _, t := range types {
		for _, v := range model[t] {
			m.custom = append(m.custom, rhdr{t, headerBytes(v)})
		}
	}
	var wire []byte
	if err := seq(func(x *vrt.Exec) error {
		a, _ := vnet.Pipe("a", "b")
		ca, err := transport.Connect(a, transport.ClientConfig{})
		if err != nil {
			return err
		}
		at := len(a.Sent())
		msg := &transport.Message{Headers: *h}
		msg.Headers.Id, msg.Headers.Actor = mid(9), 2
		if err := ca.SendOneWay(msg); err != nil {
			return err
		}
		wire = append([]byte(nil), a.Sent()[at:]...)
		return nil
	}, nil); err != nil {
		return err
	}
	p, err := parseFrame(wire, plainOpt)
	if err != nil || p.key() != m.key() {
		return fmt.Errorf("sent as %v (%v), want %s", p, err, m.key())
	}
	c.Obs(m.key())
	r, err := recv(p)
	if err != nil {
		return err
	}
	return check(r, "received")
}
