package main

// Independent implementation of the Service Fabric transport framing and message headers.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"reflect"
	"sort"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vrt"
)

type rhdr struct {
	typ uint16
	val []byte
}

// rmsg is a message as the reference sees it.
type rmsg struct {
	id, rel             transport.MessageId
	actor               int64
	action              string
	expect, high, idemp bool
	errc                int64
	fault               bool
	retry               int32
	custom              []rhdr
	body                []byte
}

type wId struct {
	Id    serialization.GUID
	Index uint32
}
type wI64 struct{ V int64 }
type wStr struct{ V string }
type wBool struct{ V bool }
type wI32 struct{ V int32 }
type wFault struct {
	Code int64
	Body bool
}

func (m *rmsg) headers() []byte {
	var b []byte
	put := func(t uint16, v []byte) {
		b = binary.LittleEndian.AppendUint16(b, t)
		b = binary.LittleEndian.AppendUint16(b, uint16(len(v)))
		b = append(b, v...)
	}
	put(0x8003, refMarshal(&wId{m.id.Id, m.id.Index}))
	if !m.rel.IsEmpty() {
		put(0x8004, refMarshal(&wId{m.rel.Id, m.rel.Index}))
	}
	put(0x8001, refMarshal(&wI64{m.actor}))
	if m.action != "" {
		put(0x8002, refMarshal(&wStr{m.action}))
	}
	if m.expect {
		put(0x8005, refMarshal(&wBool{true}))
	}
	if m.high {
		put(0x8009, refMarshal(&wBool{true}))
	}
	if m.idemp {
		put(0x8008, refMarshal(&wBool{true}))
	}
	if m.errc != 0 || m.fault {
		put(0x8007, refMarshal(&wFault{m.errc, m.fault}))
	}
	if m.retry != 0 {
		put(0x8006, refMarshal(&wI32{m.retry}))
	}
	for _, c := range m.custom {
		put(c.typ, c.val)
	}
	return b
}

type frameOpt struct {
	hcrc, bcrc bool
	mask       byte
}

func refCRC8(b []byte) byte {
	var c byte
	for _, x := range b {
		c ^= x
		for i := 0; i < 8; i++ {
			if c&0x80 != 0 {
				c = c<<1 ^ 0x07
			} else {
				c <<= 1
			}
		}
	}
	return c
}

func rawFrame(hlen int, payload []byte, o frameOpt) []byte {
	b := make([]byte, 12)
	binary.LittleEndian.PutUint32(b, uint32(12+len(payload)))
	b[4] = o.mask
	binary.LittleEndian.PutUint16(b[6:], uint16(hlen))
	if o.hcrc {
		b[5] = refCRC8(b)
	}
	if o.bcrc {
		binary.LittleEndian.PutUint32(b[8:], crc32.ChecksumIEEE(payload))
	}
	return append(b, payload...)
}

func (m *rmsg) frame(o frameOpt) []byte {
	h := m.headers()
	return rawFrame(len(h), append(h, m.body...), o)
}

var plainOpt = frameOpt{hcrc: true}

// parseStream splits a byte stream into frames; rest is what does not form a whole frame.
func parseStream(b []byte, o frameOpt) (out []*rmsg, rest []byte, err error) {
	for len(b) > 0 {
		if len(b) < 12 {
			return out, b, nil
		}
		n := int(binary.LittleEndian.Uint32(b))
		if n < 12 {
			return out, b, fmt.Errorf("frame length %d", n)
		}
		if n > len(b) {
			return out, b, nil
		}
		m, err := parseFrame(b[:n], o)
		if err != nil {
			return out, b, err
		}
		out = append(out, m)
		b = b[n:]
	}
	return out, nil, nil
}

func parseFrame(f []byte, o frameOpt) (*rmsg, error) {
	h := append([]byte(nil), f[:12]...)
	payload := f[12:]
	want := rawFrame(int(binary.LittleEndian.Uint16(h[6:])), payload, o)
	if !bytes.Equal(want[:12], h) {
		return nil, fmt.Errorf("frame header %x, the format requires %x", h, want[:12])
	}
	hl := int(binary.LittleEndian.Uint16(h[6:]))
	if hl > len(payload) {
		return nil, fmt.Errorf("header length %d of %d", hl, len(payload))
	}
	return parseMsg(payload[:hl], payload[hl:])
}

func parseMsg(hb, body []byte) (*rmsg, error) {
	m := &rmsg{body: append([]byte(nil), body...)}
	seen := map[uint16]bool{}
	for len(hb) > 0 {
		if len(hb) < 4 {
			return nil, fmt.Errorf("truncated header")
		}
		t := binary.LittleEndian.Uint16(hb)
		n := int(binary.LittleEndian.Uint16(hb[2:]))
		if n > len(hb)-4 {
			return nil, fmt.Errorf("header %#x of %d bytes with %d left", t, n, len(hb)-4)
		}
		v := hb[4 : 4+n]
		hb = hb[4+n:]
		var err error
		exact := func(p interface{}) {
			if err = refDecode(v, p); err == nil && !bytes.Equal(refMarshal(p), v) {
				err = fmt.Errorf("header %#x is not canonical: %x", t, v)
			}
		}
		if t >= 0x8001 && t <= 0x8009 {
			if seen[t] {
				return nil, fmt.Errorf("header %#x twice", t)
			}
			seen[t] = true
		}
		switch t {
		case 0x8003:
			var w wId
			exact(&w)
			m.id = transport.MessageId{Id: w.Id, Index: w.Index}
		case 0x8004:
			var w wId
			exact(&w)
			m.rel = transport.MessageId{Id: w.Id, Index: w.Index}
		case 0x8001:
			var w wI64
			exact(&w)
			m.actor = w.V
		case 0x8002:
			var w wStr
			exact(&w)
			m.action = w.V
		case 0x8005, 0x8008, 0x8009:
			var w wBool
			exact(&w)
			switch t {
			case 0x8005:
				m.expect = w.V
			case 0x8008:
				m.idemp = w.V
			default:
				m.high = w.V
			}
		case 0x8006:
			var w wI32
			exact(&w)
			m.retry = w.V
		case 0x8007:
			var w wFault
			exact(&w)
			m.errc, m.fault = w.Code, w.Body
		default:
			m.custom = append(m.custom, rhdr{t, append([]byte(nil), v...)})
		}
		if err != nil {
			return nil, fmt.Errorf("header %#x %x: %v", t, v, err)
		}
	}
	return m, nil
}

// sortedCustom groups headers by type keeping the order within each type.
func sortedCustom(c []rhdr) []rhdr {
	o := append([]rhdr(nil), c...)
	sort.SliceStable(o, func(i, j int) bool { return o[i].typ < o[j].typ })
	return o
}

func (m *rmsg) key() string {
	s := fmt.Sprintf("id=%v rel=%v actor=%d action=%q %v%v%v err=%d/%v retry=%d", m.id, m.rel, m.actor, m.action, m.expect, m.high, m.idemp, m.errc, m.fault, m.retry)
	for _, h := range sortedCustom(m.custom) {
		s += fmt.Sprintf(" %x:%x", h.typ, clip(h.val))
		if len(h.val) > 200 {
			s += fmt.Sprintf("..%d/%08x", len(h.val), crc32.ChecksumIEEE(h.val))
		}
	}
	s += fmt.Sprintf(" body=%x", clip(m.body))
	if len(m.body) > 200 {
		s += fmt.Sprintf("..%d/%08x", len(m.body), crc32.ChecksumIEEE(m.body))
	}
	return s
}

// headerBytes is the reference encoding of a custom header value or body.
func headerBytes(v interface{}) []byte {
	if b, ok := v.([]byte); ok {
		return b
	}
	return refMarshal(v)
}

var customTypes = []uint16{} // filled by the scenarios: header types to look for

// fromHeaders turns delivered headers into the reference form. Custom headers are looked
// up by the types the scenario uses (there is no way to list them).
func fromHeaders(h *transport.MessageHeaders, body []byte, types []uint16) *rmsg {
	m := &rmsg{id: h.Id, rel: h.RelatesTo, actor: int64(h.Actor), action: h.Action, expect: h.ExpectsReply, high: h.HighPriority, idemp: h.Idempotent,
		errc: int64(h.ErrorCode), fault: h.HasFaultBody, retry: h.RetryCount, body: append([]byte(nil), body...)}
	for _, t := range types {
		for _, v := range h.GetCustomHeaders(transport.MessageHeaderIdType(t)) {
			if v == nil || (reflect.ValueOf(v).Kind() == reflect.Ptr && reflect.ValueOf(v).IsNil()) {
				m.custom = append(m.custom, rhdr{t, []byte("nil")})
				continue
			}
			m.custom = append(m.custom, rhdr{t, headerBytes(v)})
		}
	}
	return m
}

func mid(n int) transport.MessageId {
	return transport.MessageId{Id: serialization.GUID{Data1: 0xabcd0000 + uint32(n), Data3: 0x4000, Data4: [8]byte{0x80, 1}}, Index: uint32(n)}
}

func keys(ms []*rmsg) []string {
	var out []string
	for _, m := range ms {
		out = append(out, m.key())
	}
	return out
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameSet(a, b []string) bool {
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	return sameList(x, y)
}

// ---------------------------------------------------------------- running deterministic cases

// seq runs f as the main thread of one execution under the default schedule and returns
// its error, any panic of any thread, or a livelock.
func seq(f func(x *vrt.Exec) error, after func(x *vrt.Exec) error) error {
	return seqCfg(vrt.Config{MaxSteps: 200000}, f, after)
}

func seqCfg(cfg vrt.Config, f func(x *vrt.Exec) error, after func(x *vrt.Exec) error) error {
	var err error
	x, o := vrt.RunOne(cfg, nil, func(x *vrt.Exec) { err = f(x) }, func(x *vrt.Exec) vrt.Outcome {
		if len(x.Panics) == 0 && err == nil && after != nil {
			err = after(x)
		}
		return vrt.Outcome{}
	})
	if len(x.Panics) > 0 {
		p := x.Panics[0]
		return fmt.Errorf("panic in %s: %s\n%s", p.Thread, p.Value, p.Stack)
	}
	if len(o.Viol) > 0 {
		return fmt.Errorf("%s", o.Viol[0])
	}
	if err != nil {
		return err
	}
	if x.Livelock {
		return fmt.Errorf("no end after %d steps", x.Steps)
	}
	return nil
}
