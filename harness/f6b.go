package main

import (
	"errors"
	"fmt"
	"net"
	"strings"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/lease"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/vnet"
	"github.com/tg123/phabrik/zzverif/vrt"
)

// Serving a node: both the transport server and the lease agent, until either ends.

func init() {
	add(&Scenario{Prop: "F06", Name: "serving", Shards: 4,
		Bounds: "every history of up to 5 (thorough 6) of {a partner connects, a lease agent connects, temporary accept failure of either listener, permanent failure of the transport's, transport server closed, lease agent closed, node closed}: while serving both kinds of connections are served, serving ends with an error exactly when one half or the node ended, closing the node ends both halves",
		Enum:   enumF06s})
}

var f06sOps = []string{"partner connects", "lease agent connects", "temporary transport failure", "temporary lease failure", "permanent transport failure", "server closed", "agent closed", "node closed"}

func enumF06s(c *Ctx) {
	max := 5
	if c.Thorough {
		max = 6
	}
	for n := 1; n <= max; n++ {
		idx := make([]int, n)
		for {
			ops := append([]int(nil), idx...)
			if !c.Case(func() string {
				var l []string
				for _, o := range ops {
					l = append(l, f06sOps[o])
				}
				return strings.Join(l, ", ")
			}, func() error { return f06serve(c, ops) }) {
				return
			}
			if !inc(idx, len(f06sOps)) {
				break
			}
		}
	}
}

func f06serve(c *Ctx, ops []int) error {
	c.Step(len(ops))
	var blocked []string
	err := seqCfg(vrt.Config{MaxSteps: 50000, MaxTimers: 50}, func(x *vrt.Exec) error {
		l, ll := vnet.NewListener(fAddr), vnet.NewListener(flAddr)
		srv, err := transport.Listen(l, transport.ServerConfig{})
		if err != nil {
			return err
		}
		ag, err := lease.NewAgent(ldefault(), ll, func(string) (net.Conn, error) { return nil, errors.New("no lease peers") })
		if err != nil {
			return err
		}
		n, err := federation.NewSiteNode(federation.SiteNodeConfig{
			ClientDialer:    func(string) (*transport.Client, error) { return nil, errors.New("unreachable") },
			TransportServer: srv, LeaseAgent: ag, SeedNodes: []federation.SeedNodeInfo{seedAt(idA, "seed:1")}, Instance: federation.NodeInstance{Id: selfInst.Id, InstanceId: selfInst.InstanceId}})
		if err != nil {
			return err
		}
		served := false
		var serr error
		vrt.GoNamed("serve", func() { serr = n.Serve(); served = true })
		idle()
		var conns []*vnet.Conn
		known := 1
		tEnd, lEnd, closed := false, false, false
		for i, o := range ops {
			switch o {
			case 0:
				if tEnd {
					continue
				}
				_, b := vnet.Pipe("partner", fAddr)
				b.NoPoint = true
				b.Feed(announce(1, partner(nid(uint64(i), 9), 3, phJoining)).frame(plainOpt))
				conns = append(conns, b)
				l.Queue(b)
				known++
				idle()
			case 1:
				if lEnd {
					continue
				}
				_, b := vnet.Pipe("leaseagent", flAddr)
				b.NoPoint = true
				conns = append(conns, b)
				ll.Queue(b)
				idle()
				if len(b.Sent()) == 0 {
					return fmt.Errorf("step %d: the lease connection is not served", i)
				}
			case 2:
				l.QueueTemporary()
			case 3:
				ll.QueueTemporary()
			case 4:
				if !tEnd {
					l.QueueError()
					tEnd = true
				}
			case 5:
				srv.Close()
				tEnd = true
			case 6:
				ag.Close()
				lEnd = true
			case 7:
				n.Close()
				tEnd, lEnd, closed = true, true, true
			}
			idle()
			if served != (tEnd || lEnd) {
				return fmt.Errorf("step %d: serving ended: %v (%v); transport ended %v, lease agent ended %v", i, served, serr, tEnd, lEnd)
			}
			if served && serr == nil {
				return fmt.Errorf("step %d: serving ended without an error", i)
			}
			if k := len(n.KnownPartnerNodes(func(federation.PartnerNodeInfo) bool { return true })); k != known {
				return fmt.Errorf("step %d: %d partners known, %d announced", i, k, known)
			}
			if closed && (!l.Closed() || !ll.Closed()) {
				return fmt.Errorf("step %d: node closed: transport listener closed %v, lease listener closed %v", i, l.Closed(), ll.Closed())
			}
		}
		c.Obs(known, tEnd, lEnd, closed)
		n.Close()
		idle()
		if !served || serr == nil {
			return fmt.Errorf("node closed: serving ended %v, %v", served, serr)
		}
		if !l.Closed() || !ll.Closed() {
			return fmt.Errorf("node closed: transport listener closed %v, lease listener closed %v", l.Closed(), ll.Closed())
		}
		for _, b := range conns {
			b.FeedEOF()
		}
		return nil
	}, func(x *vrt.Exec) error {
		blocked = x.Blocked(false)
		return nil
	})
	if err != nil {
		return err
	}
	if len(blocked) > 0 {
		return fmt.Errorf("blocked for ever: %v", blocked)
	}
	return nil
}
