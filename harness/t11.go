package main

// Secure connections (T11): the real crypto/tls runs unmodified above the controlled network.

import (
	"context"
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	mathbig "math/big"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vctx"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
)

type seedReader struct{ n byte }

func (s *seedReader) Read(b []byte) (int, error) {
	for i := range b {
		s.n++
		b[i] = s.n
	}
	return len(b), nil
}

var (
	certOnce   sync.Once
	tlsCert    tls.Certificate
	tlsRoots   *x509.CertPool
	otherRoots *x509.CertPool
)

func mkCert(b byte) (tls.Certificate, *x509.CertPool) {
	seed := make([]byte, 32)
	seed[0] = b
	key := ed25519.NewKeyFromSeed(seed)
	t := &x509.Certificate{SerialNumber: mathbig.NewInt(int64(b)), Subject: pkix.Name{CommonName: "node"}, DNSNames: []string{"node"},
		NotBefore: time.Unix(1000000000, 0), NotAfter: time.Unix(4000000000, 0), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(&seedReader{}, t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	leaf, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(leaf)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: leaf}, pool
}

// tlsConf is a configuration without randomness in message sizes.
func tlsConf(version uint16, mutual bool) (cl, srv *tls.Config) {
	certOnce.Do(func() {
		tlsCert, tlsRoots = mkCert(1)
		_, otherRoots = mkCert(2)
	})
	base := func() *tls.Config {
		return &tls.Config{Certificates: []tls.Certificate{tlsCert}, MinVersion: version, MaxVersion: version,
			CurvePreferences: []tls.CurveID{tls.X25519}, Time: func() time.Time { return time.Unix(2000000000, 0) }}
	}
	cl, srv = base(), base()
	cl.RootCAs, cl.ServerName = tlsRoots, "node"
	if mutual {
		srv.ClientAuth, srv.ClientCAs = tls.RequireAndVerifyClientCert, tlsRoots
		srv.ClientAuth = tls.RequireAnyClientCert
	}
	return
}

// largeTLS makes the handshake messages large: 1 a long first message of the client, 2 a long
// certificate chain of the server (several records), 3 both and a long chain of the client,
// 4 a client that is asked for a second first message (TLS 1.3).
func largeTLS(kind int, cc, sc *tls.Config) {
	if kind&1 != 0 {
		for i := 0; i < 300; i++ {
			cc.NextProtos = append(cc.NextProtos, fmt.Sprintf("protocol-%d", i))
		}
		sc.NextProtos = []string{"protocol-299"}
	}
	long := func(c *tls.Config) {
		crt := c.Certificates[0]
		for i := 0; i < 110; i++ {
			crt.Certificate = append(crt.Certificate[:len(crt.Certificate):len(crt.Certificate)], crt.Certificate[0])
		}
		c.Certificates = []tls.Certificate{crt}
	}
	if kind&2 != 0 {
		long(sc)
	}
	if kind == 3 {
		long(cc)
	}
	if kind == 4 {
		cc.CurvePreferences = []tls.CurveID{tls.X25519, tls.CurveP256}
		sc.CurvePreferences = []tls.CurveID{tls.CurveP256}
	}
}

// reframe passes the bytes of one direction on and redistributes those of the handshake over
// frames: pieces of n bytes, or (n < 0) everything that is there in one frame.
func reframe(from, to *vnet.Conn, handshake, n int) {
	defer func() { from.Close(); to.Close() }()
	total := 0
	var pend []byte
	send := func(t *rmsg, b []byte) bool {
		m := *t
		m.body = b
		_, err := to.Write(m.frame(frameOpt{mask: 1}))
		return err == nil
	}
	buf := make([]byte, 65536)
	var raw []byte
	for total < handshake {
		k, err := from.Read(buf)
		raw = append(raw, buf[:k]...)
		if err != nil {
			return
		}
		if n < 0 {
			idle()
			if p := len(from.Pending()); p > 0 {
				k, _ := from.Read(buf[:p])
				raw = append(raw, buf[:k]...)
			}
		}
		var last *rmsg
		for len(raw) >= 12 && total < handshake {
			l := int(binary.LittleEndian.Uint32(raw))
			if l < 12 || l > 1<<20 || l > len(raw) {
				break
			}
			m, err := parseFrame(raw[:l], frameOpt{mask: 1})
			if err != nil {
				return
			}
			raw = raw[l:]
			total += len(m.body)
			if last == nil || len(m.custom) > 0 {
				last = m
			}
			pend = append(pend, m.body...)
			if n > 0 {
				for len(pend) > 0 {
					c := n
					if c > len(pend) {
						c = len(pend)
					}
					if !send(m, pend[:c]) {
						return
					}
					pend = pend[c:]
				}
			}
		}
		if n < 0 && len(pend) > 0 {
			if !send(last, pend) {
				return
			}
			pend = nil
		}
	}
	for {
		if len(raw) > 0 {
			if _, err := to.Write(raw); err != nil {
				return
			}
		}
		k, err := from.Read(buf)
		raw = append(raw[:0], buf[:k]...)
		if err != nil {
			if k > 0 {
				to.Write(raw)
			}
			return
		}
	}
}

// refHandshake measures an ordinary TLS handshake: bytes written by client and server.
var refHS = map[string][2]int{}

func refHandshake(version uint16, mutual bool, large ...int) [2]int {
	k := fmt.Sprint(version, mutual, large)
	if r, ok := refHS[k]; ok {
		return r
	}
	cc, sc := tlsConf(version, mutual)
	if len(large) > 0 {
		largeTLS(large[0], cc, sc)
	}
	a, b := net.Pipe()
	ca, cb := newCountConn(a), newCountConn(b)
	done := make(chan error, 1)
	go func() { done <- tls.Server(cb, sc).Handshake() }()
	err := tls.Client(ca, cc).Handshake()
	serr := <-done
	if err != nil || serr != nil {
		panic(fmt.Sprint("reference handshake: ", err, serr))
	}
	r := [2]int{ca.n, cb.n}
	close(ca.q)
	close(cb.q)
	refHS[k] = r
	return r
}

// countConn counts the bytes written and never blocks the writer.
type countConn struct {
	net.Conn
	n int
	q chan []byte
}

func newCountConn(c net.Conn) *countConn {
	cc := &countConn{Conn: c, q: make(chan []byte, 10000)}
	go func() {
		for b := range cc.q {
			c.Write(b)
		}
		c.Close()
	}()
	return cc
}

func (c *countConn) Write(b []byte) (int, error) {
	c.n += len(b)
	c.q <- append([]byte(nil), b...)
	return len(b), nil
}

// wireTLS checks one direction: framed handshake bytes, then nothing but TLS records.
func wireTLS(what string, b []byte, handshake int, complete bool) error {
	total := 0
	first := true
	ids := map[transport.MessageId]bool{}
	for len(b) > 0 && total < handshake {
		if len(b) < 12 {
			if complete {
				return fmt.Errorf("%s: %d stray bytes", what, len(b))
			}
			return nil
		}
		n := int(binary.LittleEndian.Uint32(b))
		if n < 12 || n > 1<<20 {
			return fmt.Errorf("%s: neither a frame nor a TLS record: %x", what, clip(b))
		}
		if n > len(b) {
			if complete {
				return fmt.Errorf("%s: partial frame", what)
			}
			return nil
		}
		m, err := parseFrame(b[:n], frameOpt{mask: 1})
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if m.actor != int64(transport.MessageActorTypeSecurityContext) {
			return fmt.Errorf("%s: message of actor %d during the handshake", what, m.actor)
		}
		if first && len(m.custom) == 0 {
			return fmt.Errorf("%s: the first handshake message has no negotiation header", what)
		}
		if !first && len(m.custom) != 0 {
			return fmt.Errorf("%s: a handshake message after the first has a negotiation header", what)
		}
		if m.id.Id.IsEmpty() || ids[m.id] {
			return fmt.Errorf("%s: a handshake message without an identity of its own: %v", what, m.id)
		}
		ids[m.id] = true
		first = false
		total += len(m.body)
		b = b[n:]
	}
	if total > handshake || complete && total != handshake {
		return fmt.Errorf("%s: %d bytes travelled in handshake frames, the handshake has %d", what, total, handshake)
	}
	if len(b) > 0 && total != handshake {
		return fmt.Errorf("%s: raw TLS bytes after only %d of %d handshake bytes", what, total, handshake)
	}
	for len(b) > 0 {
		if len(b) < 5 {
			if complete {
				return fmt.Errorf("%s: partial record", what)
			}
			return nil
		}
		n := 5 + int(binary.BigEndian.Uint16(b[3:]))
		if b[0] < 0x14 || b[0] > 0x17 || b[1] != 3 {
			return fmt.Errorf("%s: not a TLS record after the handshake: %x", what, clip(b))
		}
		if n > len(b) {
			if complete {
				return fmt.Errorf("%s: partial record", what)
			}
			return nil
		}
		b = b[n:]
	}
	return nil
}

const marker = "SECRETMARKER"

func leaks(b []byte) bool {
	if strings.Contains(string(b), marker) {
		return true
	}
	var u []byte
	for _, c := range []byte(marker) {
		u = append(u, c, 0)
	}
	return strings.Contains(string(b), string(u))
}

type tlsRun struct {
	version uint16
	mutual  bool
	cChunk  int // bytes per read at the client, 0 all
	sChunk  int
	cut     string // which fault
	n       int
	partial bool
	refuse  string
	cache   bool
	cfgs    int
	large   int
	reframe int // redistribute the handshake over frames of so many bytes, -1 as few as possible
}

type tlsRes struct {
	cErr    error // connecting
	cWait   error
	waitEnd bool
	got     []string
	replies []string
	rerrs   []error
	a, b    *vnet.Conn
	reads   int // client's reads, writes and bytes when connecting returned
	writes  int
	rbytes  int
	blocked []string
	srvGot  int
}

func bigBody(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	copy(b, marker)
	return b
}

// runTLS connects a client and a server and exchanges messages.
func runTLS(k tlsRun) (*tlsRes, error) {
	r := &tlsRes{}
	cc, sc := tlsConf(k.version, k.mutual)
	largeTLS(k.large, cc, sc)
	switch k.refuse {
	case "client":
		cc.RootCAs = otherRoots
	case "client-callback":
		cc.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return errors.New("no") }
	case "server":
		sc.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return errors.New("no") }
	}
	if k.cache {
		cc.ClientSessionCache = tls.NewLRUClientSessionCache(4)
	}
	err := seqCfg(vrt.Config{MaxSteps: 400000, MaxTimers: 50}, func(x *vrt.Exec) error {
		r.a, r.b = vnet.Pipe("client", "server")
		if k.reframe != 0 {
			var m1, m2 *vnet.Conn
			r.a, m1 = vnet.Pipe("client", "middle1")
			m2, r.b = vnet.Pipe("middle2", "server")
			m1.NoPoint, m2.NoPoint = true, true
			hs := refHandshake(k.version, k.mutual, k.large)
			vrt.GoNamed("middle up", func() { reframe(m1, m2, hs[0], k.reframe) })
			vrt.GoNamed("middle down", func() { reframe(m2, m1, hs[1], k.reframe) })
		}
		r.a.NoPoint, r.b.NoPoint = true, true
		chunk := func(n int) func(int, int) int {
			if n == 0 {
				return nil
			}
			return func(a, w int) int { return n }
		}
		r.a.Chunk, r.b.Chunk = chunk(k.cChunk), chunk(k.sChunk)
		switch k.cut {
		case "client-read":
			r.a.FailRead = k.n
		case "client-eof":
			r.a.FailRead, r.a.ReadErr = k.n, io.EOF
		case "client-write":
			r.a.FailWrite, r.a.PartialOnFail = k.n, k.partial
		case "client-cut":
			r.a.EOFAfter = k.n + 1
		case "server-read":
			r.b.FailRead = k.n
		case "server-write":
			r.b.FailWrite, r.b.PartialOnFail = k.n, k.partial
		case "server-cut":
			r.b.EOFAfter = k.n + 1
		}
		l := vnet.NewListener("srv")
		scfg, ccfg := cfgBits(k.cfgs), cfgBits(k.cfgs)
		scfg.TLS, ccfg.TLS = sc, cc
		s, err := transport.Listen(l, transport.ServerConfig{Config: scfg, MessageCallback: func(c transport.Conn, m *transport.ByteArrayMessage) {
			r.srvGot++
			q := fromHeaders(&m.Headers, m.Body, hdrTypes)
			r.got = append(r.got, q.key())
			rep := toMsg(&rmsg{rel: q.id, id: mid(300 + r.srvGot), actor: 8, action: "re " + q.action, body: q.body})
			if c.SendOneWay(rep) != nil {
				c.Close()
			}
		}})
		if err != nil {
			return err
		}
		vrt.GoNamed("serve", func() { vrt.Daemon(); s.Serve() })
		l.Queue(r.b)
		cl, err := transport.Connect(r.a, transport.ClientConfig{Config: ccfg})
		r.cErr = err
		r.reads, r.writes, r.rbytes = r.a.Reads, r.a.WritesN, r.a.RBytes
		if err != nil {
			if cl != nil {
				return fmt.Errorf("connecting failed with %v but returned a connection", err)
			}
			r.a.NoPoint = true
			r.a.Close()
			return nil
		}
		if cl == nil {
			return fmt.Errorf("connecting returned neither a connection nor an error")
		}
		vrt.GoNamed("wait", func() { r.cWait = cl.Wait(); r.waitEnd = true })
		for i, size := range []int{0, 40, 20000} {
			m := &rmsg{id: mid(i + 1), actor: 7, action: marker, body: bigBody(size), custom: []rhdr{{0x8036, []byte{byte(i)}}}}
			if size == 0 {
				m.body = nil
			}
			rep, err := cl.RequestReply(context.Background(), toMsg(m))
			r.rerrs = append(r.rerrs, err)
			if err == nil {
				r.replies = append(r.replies, fromReply(rep).key())
			}
		}
		ctx, cancel := vctx.WithTimeout(context.Background(), 5*time.Second)
		_, perr := cl.Ping(ctx)
		cancel()
		r.rerrs = append(r.rerrs, perr)
		cl.Close()
		return nil
	}, func(x *vrt.Exec) error {
		r.blocked = x.Blocked(false)
		return nil
	})
	return r, err
}

// sameAsPlain compares an undisturbed exchange with what an unsecured one gives.
func sameAsPlain(r *tlsRes) error {
	var got, rep []string
	for i, size := range []int{0, 40, 20000} {
		m := &rmsg{id: mid(i + 1), actor: 7, action: marker, body: bigBody(size), custom: []rhdr{{0x8036, []byte{byte(i)}}}, expect: true}
		if size == 0 {
			m.body = nil
		}
		got = append(got, m.key())
		rep = append(rep, (&rmsg{rel: m.id, id: mid(300 + i + 1), actor: 8, action: "re " + marker, body: m.body}).key())
	}
	if !sameList(got, r.got) {
		return fmt.Errorf("the server received\n %s\nwant\n %s", strings.Join(r.got, "\n "), strings.Join(got, "\n "))
	}
	if !sameList(rep, r.replies) {
		return fmt.Errorf("the client received\n %s\nwant\n %s", strings.Join(r.replies, "\n "), strings.Join(rep, "\n "))
	}
	for i, e := range r.rerrs {
		if e != nil {
			return fmt.Errorf("operation %d failed: %v", i, e)
		}
	}
	return nil
}

func (r *tlsRes) common(k tlsRun, complete bool) error {
	if len(r.blocked) > 0 {
		return fmt.Errorf("blocked for ever: %v", r.blocked)
	}
	if leaks(r.a.Sent()) || leaks(r.b.Sent()) {
		return fmt.Errorf("application data travels in clear")
	}
	hs := refHandshake(k.version, k.mutual, k.large)
	if k.cache {
		return nil
	}
	if k.refuse == "" {
		if err := wireTLS("client to server", r.a.Sent(), hs[0], complete); err != nil {
			return err
		}
		return wireTLS("server to client", r.b.Sent(), hs[1], complete)
	}
	return nil
}

func init() {
	add(&Scenario{Prop: "T11", Name: "fragmentation", Shards: 8,
		Bounds: "TLS 1.2 and 1.3, with and without client certificates, reads of 1, 2, 3, 5, 11, 12, 13, 16, 29, 64, 1000 bytes or everything at each end, messages of 0, 40 and 20000 bytes each way and a ping, 4 checksum settings",
		Enum:   enumT11})
	add(&Scenario{Prop: "T11", Name: "handshake-framing", Shards: 8,
		Bounds: "small and large handshake messages (client's first message of 5 KB, server and client certificate chains of 35 KB; a client asked to repeat its first message) whose bytes the other end's frames split into pieces of 1, 4, 5, 6, 64, 500, 5000, 20000 bytes or join, x 4 read sizes, both TLS versions, with and without client certificates",
		Enum:   enumT11e})
	add(&Scenario{Prop: "T11", Name: "faults", Shards: 8,
		Bounds: "every single read or write of either end failing (error, end of stream, half-written), and the stream towards either end cut after every number of bytes, until well after the handshake",
		Enum:   enumT11b})
	add(&Scenario{Prop: "T11", Name: "refusal", Shards: 1,
		Bounds: "certificate refused by the client's roots, the client's callback or the server's callback; peer that is no TLS server (7 first answers); dialling by address closes what it opened; session resumption configured",
		Enum:   enumT11c})
	add(&Scenario{Prop: "T11", Name: "proxy", Shards: 8,
		Bounds: "secure client through a secure proxy to a plain or secure upstream, 8 read sizes, both TLS versions, small and large handshake messages",
		Enum:   enumT11d})
}

var tlsVersions = []uint16{tls.VersionTLS12, tls.VersionTLS13}

func enumT11(c *Ctx) {
	chunks := []int{0, 1, 2, 3, 5, 11, 12, 13, 16, 29, 64, 1000}
	for _, v := range tlsVersions {
		for m := 0; m < 2; m++ {
			for _, cc := range chunks {
				for _, sc := range chunks {
					for cfg := 0; cfg < 4; cfg++ {
						if cfg > 0 && (cc > 1 || sc > 1) {
							continue
						}
						if !c.Thorough && cc != sc && cc > 3 && sc > 3 {
							continue
						}
						k := tlsRun{version: v, mutual: m == 1, cChunk: cc, sChunk: sc, cfgs: cfg}
						if !c.Case(func() string { return fmt.Sprintf("%+v", k) }, func() error {
							c.Step(4)
							r, err := runTLS(k)
							if err != nil {
								return err
							}
							if r.cErr != nil {
								return fmt.Errorf("connecting failed: %v", r.cErr)
							}
							if err := sameAsPlain(r); err != nil {
								return err
							}
							c.Obs(r.reads, r.writes, len(r.a.Sent()), len(r.b.Sent()))
							return r.common(k, true)
						}) {
							return
						}
					}
				}
			}
		}
	}
}

func enumT11e(c *Ctx) {
	for _, v := range tlsVersions {
		for m := 0; m < 2; m++ {
			for large := 0; large < 5; large++ {
				for _, rf := range []int{0, -1, 1, 4, 5, 6, 64, 500, 5000, 20000} {
					for _, ch := range []int{0, 7, 100, 4096} {
						if rf == 0 && large == 0 || ch == 7 && large > 1 && !c.Thorough || rf == 1 && large > 1 && !c.Thorough {
							continue
						}
						k := tlsRun{version: v, mutual: m == 1, cChunk: ch, sChunk: ch, large: large, reframe: rf}
						if !c.Case(func() string { return fmt.Sprintf("%+v", k) }, func() error {
							c.Step(4)
							r, err := runTLS(k)
							if err != nil {
								return err
							}
							if r.cErr != nil {
								return fmt.Errorf("connecting failed: %v", r.cErr)
							}
							if err := sameAsPlain(r); err != nil {
								return err
							}
							c.Obs(r.reads, r.writes, len(r.a.Sent()), len(r.b.Sent()))
							return r.common(k, true)
						}) {
							return
						}
					}
				}
			}
		}
	}
}

func enumT11b(c *Ctx) {
	for _, v := range tlsVersions {
		for m := 0; m < 2; m++ {
			base, err := runTLS(tlsRun{version: v, mutual: m == 1})
			if err != nil || base.cErr != nil {
				c.Case(func() string { return "undisturbed" }, func() error { return fmt.Errorf("undisturbed connection failed: %v %v", err, base.cErr) })
				return
			}
			lim := map[string]int{"client-read": base.a.Reads + 1, "client-eof": base.a.Reads + 1, "client-write": base.a.WritesN + 1, "server-read": base.b.Reads + 1, "server-write": base.b.WritesN + 1,
				"client-cut": base.rbytes + 200, "server-cut": len(base.a.Sent())}
			if lim["server-cut"] > 3000 {
				lim["server-cut"] = 3000
			}
			for _, what := range []string{"client-read", "client-eof", "client-write", "server-read", "server-write", "client-cut", "server-cut"} {
				for n := 1; n <= lim[what]; n++ {
					if strings.HasSuffix(what, "cut") && !c.Thorough && n%7 != 0 && m == 1 {
						continue
					}
					for part := 0; part < 2; part++ {
						if part == 1 && !strings.HasSuffix(what, "write") {
							continue
						}
						k := tlsRun{version: v, mutual: m == 1, cut: what, n: n, partial: part == 1}
						if what == "client-cut" || what == "server-cut" {
							k.n = n - 1
						}
						if !c.Case(func() string { return fmt.Sprintf("%+v", k) }, func() error {
							c.Step(2)
							r, err := runTLS(k)
							if err != nil {
								return err
							}
							// does the fault hit before connecting is complete?
							hit := what == "client-read" && n <= base.reads || what == "client-eof" && n <= base.reads || what == "client-write" && n <= base.writes || what == "client-cut" && k.n < base.rbytes
							local := strings.HasPrefix(what, "client")
							if local && hit && r.cErr == nil {
								return fmt.Errorf("the handshake cannot complete but connecting succeeded")
							}
							if local && !hit && r.cErr != nil {
								return fmt.Errorf("connecting failed with %v although nothing failed before it was complete", r.cErr)
							}
							if r.cErr == nil {
								for i, e := range r.rerrs {
									if i > 0 && e == nil && r.rerrs[i-1] != nil {
										return fmt.Errorf("operation %d succeeded after %v", i, r.rerrs[i-1])
									}
								}
								if !r.waitEnd {
									return fmt.Errorf("the receive loop did not end")
								}
							}
							if !r.b.Closed() {
								return fmt.Errorf("the server did not close the connection")
							}
							c.Obs(what, r.cErr != nil, len(r.got), len(r.a.Sent()))
							return r.common(k, false)
						}) {
							return
						}
					}
				}
			}
		}
	}
}

func enumT11c(c *Ctx) {
	for _, v := range tlsVersions {
		for _, ref := range []string{"client", "client-callback", "server"} {
			for m := 0; m < 2; m++ {
				k := tlsRun{version: v, mutual: m == 1 || ref == "server", refuse: ref}
				if !c.Case(func() string { return fmt.Sprintf("%+v", k) }, func() error {
					c.Step(1)
					r, err := runTLS(k)
					if err != nil {
						return err
					}
					if r.cErr == nil && (ref != "server" || v == tls.VersionTLS12) {
						return fmt.Errorf("a certificate was refused but connecting succeeded")
					}
					if len(r.got) > 0 {
						return fmt.Errorf("the server received messages on a refused connection")
					}
					if r.cErr == nil {
						for _, e := range r.rerrs {
							if e == nil {
								return fmt.Errorf("an operation on a refused connection succeeded")
							}
						}
					}
					if !r.b.Closed() {
						return fmt.Errorf("the server did not close the refused connection")
					}
					return r.common(k, false)
				}) {
					return
				}
			}
		}
		for m := 0; m < 2; m++ {
			k := tlsRun{version: v, mutual: m == 1, cache: true}
			if !c.Case(func() string { return fmt.Sprintf("%+v", k) }, func() error {
				r, err := runTLS(k)
				if err != nil {
					return err
				}
				if r.cErr != nil {
					return fmt.Errorf("connecting failed: %v", r.cErr)
				}
				if err := sameAsPlain(r); err != nil {
					if k.mutual && v == tls.VersionTLS13 && len(r.replies) == 0 {
						return fmt.Errorf("[mutual-tls13-session-cache] %v", err)
					}
					return err
				}
				return r.common(k, true)
			}) {
				return
			}
		}
	}
	// peers that are no TLS server, by address
	plain := (&rmsg{id: mid(1), actor: actTransport, high: true, body: []byte("init")}).frame(plainOpt)
	sec := func(b []byte) []byte {
		return (&rmsg{id: mid(1), actor: int64(transport.MessageActorTypeSecurityContext), body: b}).frame(frameOpt{mask: 1})
	}
	for i, ans := range [][]byte{nil, plain, sec([]byte("no tls at all")), sec([]byte{0x15, 3, 3, 0, 2, 2, 40}), []byte("garbage garbage garbage"), rawFrame(60, []byte{1}, frameOpt{mask: 1}), {0x15, 3, 3, 0, 2, 2, 40}} {
		for _, dial := range []bool{true, false} {
			if !c.Case(func() string { return fmt.Sprintf("answer %d dial %v", i, dial) }, func() error {
				c.Step(1)
				return seqCfg(vrt.Config{MaxSteps: 20000, MaxTimers: 50}, func(x *vrt.Exec) error {
					nl, _ := vnet.Listen("tcp", "h:1")
					l := nl.(*vnet.Listener)
					var srv *vnet.Conn
					vrt.GoNamed("peer", func() {
						cn, err := l.Accept()
						if err != nil {
							return
						}
						srv = cn.(*vnet.Conn)
						srv.NoPoint = true
						buf := make([]byte, 4096)
						srv.Read(buf)
						if len(ans) > 0 {
							srv.Write(ans)
						}
						srv.Close()
					})
					cc, _ := tlsConf(tls.VersionTLS13, false)
					cfg := transport.ClientConfig{Config: transport.Config{TLS: cc}}
					if dial {
						cl, err := transport.DialTCP("h:1", cfg)
						if err == nil {
							return fmt.Errorf("dialling a peer that is no TLS server succeeded: %v", cl)
						}
						if !srv.PeerClosed() {
							return fmt.Errorf("dialling failed with %v but the connection it opened was not closed", err)
						}
						return nil
					}
					cn, err := vnet.Dial("tcp", "h:1")
					if err != nil {
						return err
					}
					cn.(*vnet.Conn).NoPoint = true
					if _, err := transport.Connect(cn, cfg); err == nil {
						return fmt.Errorf("connecting to a peer that is no TLS server succeeded")
					}
					return nil
				}, func(x *vrt.Exec) error {
					if b := x.Blocked(false); len(b) > 0 {
						return fmt.Errorf("blocked for ever: %v", b)
					}
					return nil
				})
			}) {
				return
			}
		}
	}
	// dialling an address nobody listens on
	c.Case(func() string { return "nobody listens" }, func() error {
		return seq(func(x *vrt.Exec) error {
			if _, err := transport.DialTCP("h:9", transport.ClientConfig{}); err == nil {
				return fmt.Errorf("dialling nobody succeeded")
			}
			return nil
		}, nil)
	})
}

func enumT11d(c *Ctx) {
	for _, v := range tlsVersions {
		for _, upTLS := range []bool{false, true} {
			for _, ch := range []int{0, 1, 3, 7, 12, 13, 50, 500} {
				for _, direct := range []bool{false, true} {
					for large := 0; large < 3; large++ {
						large := large
						if !c.Case(func() string {
							return fmt.Sprintf("version %x upstream secure %v chunk %d filter %v large %d", v, upTLS, ch, direct, large)
						}, func() error {
							return proxyTLS(c, v, upTLS, ch, direct, large)
						}) {
							return
						}
					}
				}
			}
		}
	}
}

func proxyTLS(c *Ctx, v uint16, upTLS bool, ch int, filter bool, large int) error {
	c.Step(5)
	cc, sc := tlsConf(v, false)
	largeTLS(large, cc, sc)
	r := &tlsRes{}
	var conns []*vnet.Conn
	err := seqCfg(vrt.Config{MaxSteps: 400000, MaxTimers: 50}, func(x *vrt.Exec) error {
		mk := func(a, b string) (*vnet.Conn, *vnet.Conn) {
			p, q := vnet.Pipe(a, b)
			for _, e := range []*vnet.Conn{p, q} {
				e.NoPoint = true
				if ch > 0 {
					e.Chunk = func(int, int) int { return ch }
				}
				conns = append(conns, e)
			}
			return p, q
		}
		a, pa := mk("client", "proxy")
		pu, u := mk("proxy-up", "upstream")
		sl, pl := vnet.NewListener("up"), vnet.NewListener("proxy")
		scfg := transport.Config{}
		if upTLS {
			scfg.TLS = sc
		}
		s, err := transport.Listen(sl, transport.ServerConfig{Config: scfg, MessageCallback: func(cn transport.Conn, m *transport.ByteArrayMessage) {
			r.srvGot++
			q := fromHeaders(&m.Headers, m.Body, hdrTypes)
			r.got = append(r.got, q.key())
			cn.SendOneWay(toMsg(&rmsg{rel: q.id, id: mid(300 + r.srvGot), actor: 8, action: "re " + q.action, body: q.body}))
		}})
		if err != nil {
			return err
		}
		ucfg := transport.Config{}
		if upTLS {
			ucfg.TLS = cc
		}
		pc := transport.PiperConfig{Config: transport.Config{TLS: sc}, FindUpstream: func(h *transport.MessageHeaders, conn net.Conn) (net.Conn, transport.Config, error) {
			return pu, ucfg, nil
		}}
		if filter {
			pc.Filter = func(src, dst net.Conn, m *transport.ByteArrayMessage) *transport.Message {
				return &transport.Message{Headers: m.Headers, Body: m.Body}
			}
		}
		p, err := transport.NewPiper(pl, pc)
		if err != nil {
			return err
		}
		vrt.GoNamed("serve", func() { vrt.Daemon(); s.Serve() })
		vrt.GoNamed("proxy", func() { vrt.Daemon(); p.Serve() })
		sl.Queue(u)
		pl.Queue(pa)
		cl, err := transport.Connect(a, transport.ClientConfig{Config: transport.Config{TLS: cc}})
		if err != nil {
			return fmt.Errorf("connecting through the proxy: %v", err)
		}
		vrt.GoNamed("wait", func() { r.cWait = cl.Wait(); r.waitEnd = true })
		for i, size := range []int{0, 40, 20000} {
			m := &rmsg{id: mid(i + 1), actor: 7, action: marker, body: bigBody(size), custom: []rhdr{{0x8036, []byte{byte(i)}}}}
			if size == 0 {
				m.body = nil
			}
			done := false
			var rep *transport.ByteArrayMessage
			var err error
			vrt.GoNamed("request", func() { rep, err = cl.RequestReply(context.Background(), toMsg(m)); done = true })
			idle()
			if !done {
				return fmt.Errorf("request %d through the proxy is not answered", i)
			}
			r.rerrs = append(r.rerrs, err)
			if err == nil {
				r.replies = append(r.replies, fromReply(rep).key())
			}
		}
		cl.Close()
		return nil
	}, func(x *vrt.Exec) error {
		r.blocked = x.Blocked(false)
		return nil
	})
	if err != nil {
		return err
	}
	if err := sameAsPlain(r); err != nil {
		return err
	}
	if len(r.blocked) > 0 {
		return fmt.Errorf("blocked for ever: %v", r.blocked)
	}
	for i, e := range conns {
		if !e.Closed() {
			return fmt.Errorf("connection end %d was not closed at the end", i)
		}
		if i < 2 && leaks(e.Sent()) || upTLS && leaks(e.Sent()) {
			return fmt.Errorf("application data travels in clear")
		}
	}
	hs := refHandshake(v, false, large)
	if err := wireTLS("client to proxy", conns[0].Sent(), hs[0], false); err != nil {
		return err
	}
	if err := wireTLS("proxy to client", conns[1].Sent(), hs[1], false); err != nil {
		return err
	}
	c.Obs(len(conns[0].Sent()), len(conns[3].Sent()))
	return nil
}
