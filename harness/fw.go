// Command harness holds the model-checking drivers: for every property a set of closed
// scenarios, each of which enumerates a stated bounded space of inputs, histories,
// faults or schedules on the real code and compares with an independent reference.
package main

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/tg123/phabrik/zzverif/vrt"
)

// Scenario is one bounded exploration.
type Scenario struct {
	Prop     string
	Name     string
	Bounds   string // what is enumerated, for the evidence
	Thorough bool   // only in the thorough tier
	Shards   int    // worker processes (0: one)

	// enumeration of inputs or histories
	Enum func(c *Ctx)

	// enumeration of schedules (and environment answers)
	Cfg   func(thorough bool) vrt.Config
	Body  vrt.Body
	Judge vrt.Judge
}

var scenarios []*Scenario

func add(s *Scenario) { scenarios = append(scenarios, s) }

// Ctx is the state of one enumeration shard.
type Ctx struct {
	Thorough bool
	shard    int
	shards   int
	only     int // replay just this case, -1 for all
	deadline time.Time
	idx      int
	res      *Result
	seen     map[uint64]bool
	stop     bool
	announce func(string)
	begin    func()
}

// Result of one job.
type Result struct {
	Scenario    string         `json:"scenario"`
	Executions  int            `json:"executions"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Validated   int            `json:"validated"`
	Outcomes    map[string]int `json:"outcomes"`
	Hashes      []uint64       `json:"hashes,omitempty"`
	Exhaustive  bool           `json:"exhaustive"`
	ByCost      []int          `json:"by_cost,omitempty"`
	MaxPoints   int            `json:"max_points,omitempty"`
	Samples     []string       `json:"samples"`
	Note        string         `json:"note,omitempty"`
	Viol        *Violation     `json:"viol,omitempty"`
	Known       []string       `json:"known,omitempty"`
	Wall        float64        `json:"wall"`
}

// Violation is a replayable counterexample.
type Violation struct {
	Property string    `json:"property"`
	Scenario string    `json:"scenario"`
	Thorough bool      `json:"thorough"`
	Case     int       `json:"case"`
	Devs     []vrt.Dev `json:"devs,omitempty"`
	Desc     string    `json:"desc"`
	Msgs     []string  `json:"msgs"`
	Trace    string    `json:"trace,omitempty"`
}

const hashCap = 200000

// Obs records an observed behaviour (distinct ones are counted as states).
func (c *Ctx) Obs(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe})
	}
	if len(c.seen) < 2000000 {
		c.seen[h.Sum64()] = true
	}
}

// Step counts implementation operations.
func (c *Ctx) Step(n int) { c.res.Transitions += n }

// Case runs one case; it reports whether enumeration should go on.
func (c *Ctx) Case(desc func() string, f func() error) bool {
	if c.stop {
		return false
	}
	i := c.idx
	c.idx++
	if c.only >= 0 {
		if i > c.only {
			c.stop = true
			return false
		}
		if i != c.only {
			return true
		}
	} else if i%c.shards != c.shard {
		return true
	}
	if c.res.Executions&63 == 63 && !c.deadline.IsZero() && time.Now().After(c.deadline) {
		c.res.Exhaustive = false
		c.res.Note = "time cap reached"
		c.stop = true
		return false
	}
	if c.announce != nil {
		c.announce(fmt.Sprintf("%d %s", i, desc()))
	}
	c.begin()
	c.res.Executions++
	err := guarded(f)
	if err == nil {
		c.res.Validated++
		if len(c.res.Samples) < 2 && (c.res.Executions == 1 || c.res.Executions == 40) {
			c.res.Samples = append(c.res.Samples, desc())
		}
		return true
	}
	key := violKey(err.Error())
	if isKnown(c.res.Scenario, key) {
		c.res.Known = appendUniq(c.res.Known, key)
		return true
	}
	c.res.Viol = &Violation{Scenario: c.res.Scenario, Case: i, Desc: desc(), Msgs: []string{err.Error()}}
	c.stop = true
	return false
}

func guarded(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return f()
}

func appendUniq(l []string, s string) []string {
	for _, o := range l {
		if o == s {
			return l
		}
	}
	return append(l, s)
}

// violKey is the part of a message that identifies a finding.
func violKey(msg string) string {
	if i := strings.Index(msg, "\n"); i >= 0 {
		msg = msg[:i]
	}
	if strings.HasPrefix(msg, "[") {
		if i := strings.Index(msg, "]"); i > 0 {
			return msg[1:i]
		}
	}
	return ""
}

// deep is set while exploring in the thorough tier.
var deep bool

var known = map[string]bool{} // scenario + "/" + key

func isKnown(scen, key string) bool { return key != "" && known[scen+"/"+key] }

func runJob(s *Scenario, thorough bool, shard, shards, only int, devs []vrt.Dev, replay bool, deadline time.Time, announce func(string), begin func()) *Result {
	t0 := time.Now()
	deep = thorough
	res := &Result{Scenario: s.Name, Outcomes: map[string]int{}, Exhaustive: true}
	if s.Enum != nil {
		c := &Ctx{Thorough: thorough, shard: shard, shards: shards, only: only, deadline: deadline, res: res,
			seen: map[uint64]bool{}, announce: announce, begin: begin}
		s.Enum(c)
		if !c.stop && c.only < 0 {
			res.Outcomes["cases in space"] = c.idx
		}
		for h := range c.seen {
			if len(res.Hashes) >= hashCap {
				break
			}
			res.Hashes = append(res.Hashes, h)
		}
		sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
		res.States = len(c.seen)
	} else {
		cfg := s.Cfg(thorough)
		body := func(x *vrt.Exec) { begin(); s.Body(x) }
		if replay {
			cfg.Trace = true
			x, o := vrt.RunOne(cfg, devs, body, s.Judge)
			res.Executions = 1
			if x.Diverged != "" {
				res.Note = x.Diverged
				res.Exhaustive = false
			} else if len(o.Viol) > 0 {
				res.Viol = &Violation{Scenario: s.Name, Devs: devs, Desc: "schedule", Msgs: o.Viol, Trace: x.Trace()}
			}
		} else {
			if announce != nil {
				vrt.Announce = func(d []vrt.Dev) { announce(fmt.Sprintf("devs %v", d)) }
			}
			vrt.Ignore = func(m string) bool {
				k := violKey(m)
				if isKnown(s.Name, k) {
					res.Known = appendUniq(res.Known, k)
					return true
				}
				return false
			}
			r := vrt.Explore(cfg, body, s.Judge, shard, shards, deadline)
			res.Executions, res.States, res.Transitions = r.Executions, r.States, r.Steps
			res.Outcomes, res.Exhaustive, res.ByCost = r.Outcomes, r.Exhaustive, r.ByCost
			res.MaxPoints, res.Samples, res.Note = r.MaxPoints, r.Samples, r.Note
			res.Validated = r.Executions
			if r.Viol != nil {
				cfg.Trace = true
				x, _ := vrt.RunOne(cfg, r.Viol.Devs, body, s.Judge)
				res.Viol = &Violation{Scenario: s.Name, Devs: r.Viol.Devs, Desc: "schedule with deviations " + fmt.Sprint(r.Viol.Devs), Msgs: r.Viol.Msgs, Trace: x.Trace()}
			}
		}
	}
	res.Wall = time.Since(t0).Seconds()
	return res
}
