package vrt

import (
	"fmt"
	"time"
)

// Outcome is what a harness concludes about one finished execution.
type Outcome struct {
	Key  string // summary used to count distinct behaviours
	Viol []string
}

// Result of an exploration.
type Result struct {
	Executions int
	States     int // scheduling-tree nodes visited for the first time
	Steps      int // operations executed (transitions)
	Outcomes   map[string]int
	Exhaustive bool
	ByCost     []int // executions per deviation cost
	MaxPoints  int
	Viol       *Violation
	Samples    []string
	Note       string
}

type Violation struct {
	Devs []Dev    `json:"devs"`
	Msgs []string `json:"msgs"`
	Log  string   `json:"-"`
}

// Body is one closed harness: it builds a fresh world, runs it and judges it.
type Body func(x *Exec)
type Judge func(x *Exec) Outcome

// Announce, when set, is told every schedule before it runs; Ignore filters known findings.
var Announce func([]Dev)
var Ignore func(string) bool

// RunOne executes one schedule.
func RunOne(cfg Config, devs []Dev, body Body, judge Judge) (*Exec, Outcome) {
	x := newExec(cfg, devs)
	x.run(body)
	var o Outcome
	// judging may read shadow state but must not schedule
	o = judge(x)
	for _, p := range x.Panics {
		o.Viol = append(o.Viol, fmt.Sprintf("panic in %s: %s\n%s", p.Thread, p.Value, p.Stack))
	}
	o.Viol = append(o.Viol, x.Fails...)
	if x.Diverged == "" && x.devPos < len(x.devs) {
		x.Diverged = fmt.Sprintf("schedule has unused choices (%d of %d used)", x.devPos, len(x.devs))
	}
	x.teardown()
	return x, o
}

const maxPending = 400000

type node struct {
	devs []Dev
	from int
	cost int
}

// Explore enumerates every schedule of body whose deviation cost is within cfg.Bound.
// Shards split the tree at the root's children.
func Explore(cfg Config, body Body, judge Judge, shard, shards int, deadline time.Time) Result {
	res := Result{Outcomes: map[string]int{}, Exhaustive: true, ByCost: make([]int, cfg.Bound+1)}
	buckets := make([][]node, cfg.Bound+1)
	buckets[0] = append(buckets[0], node{})
	first := true
	rr := 0
	pending := 1
	for {
		var nd node
		found := false
		for k := range buckets {
			// fewest deviations first; with much pending, the deepest first, to bound memory
			c := k
			if pending > maxPending {
				c = len(buckets) - 1 - k
			}
			if n := len(buckets[c]); n > 0 {
				pending--
				nd = buckets[c][n-1]
				buckets[c] = buckets[c][:n-1]
				found = true
				break
			}
		}
		if !found {
			return res
		}
		if !deadline.IsZero() && res.Executions&15 == 15 && time.Now().After(deadline) {
			res.Exhaustive = false
			res.Note = "time cap reached"
			return res
		}
		if Announce != nil {
			Announce(nd.devs)
		}
		x, o := RunOne(cfg, nd.devs, body, judge)
		if Ignore != nil && len(o.Viol) > 0 {
			var keep []string
			for _, m := range o.Viol {
				if !Ignore(m) {
					keep = append(keep, m)
				}
			}
			o.Viol = keep
		}
		if x.Diverged != "" {
			res.Note = "replay divergence: " + x.Diverged
			res.Exhaustive = false
			return res
		}
		if !first || shard == 0 {
			res.Executions++
			res.ByCost[nd.cost]++
			res.Steps += x.Steps
			res.States += len(x.points) - nd.from + 1
			res.Outcomes[o.Key]++
			if len(x.points) > res.MaxPoints {
				res.MaxPoints = len(x.points)
			}
			if len(res.Samples) < 3 && (res.Executions == 1 || res.Outcomes[o.Key] == 1) {
				res.Samples = append(res.Samples, fmt.Sprintf("schedule deviations %v -> %s", devString(nd.devs), o.Key))
			}
		}
		if len(o.Viol) > 0 {
			res.Viol = &Violation{Devs: nd.devs, Msgs: o.Viol}
			return res
		}
		for i := len(x.points) - 1; i >= nd.from; i-- {
			p := x.points[i]
			c := nd.cost + int(p.cost)
			if c > cfg.Bound {
				continue
			}
			for alt := p.n - 1; alt >= 1; alt-- {
				if first && shards > 1 {
					rr++
					if rr%shards != shard {
						continue
					}
				}
				d := make([]Dev, len(nd.devs)+1)
				copy(d, nd.devs)
				d[len(nd.devs)] = Dev{i, alt, p.sig}
				buckets[c] = append(buckets[c], node{d, i + 1, c})
				pending++
			}
		}
		first = false
	}
}

func devString(d []Dev) string {
	s := ""
	for i, v := range d {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%d:%d", v.Pos, v.Alt)
	}
	return "[" + s + "]"
}
