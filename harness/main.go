package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var (
	fProp      = flag.String("prop", "", "property id")
	fTier      = flag.String("tier", "quick", "quick or thorough")
	fVerif     = flag.String("verif", "/verif", "framework root")
	fWorker    = flag.Bool("worker", false, "internal: run one job")
	fScen      = flag.String("scenario", "", "scenario name")
	fShard     = flag.Int("shard", 0, "")
	fShards    = flag.Int("shards", 1, "")
	fDeadline  = flag.Float64("deadline", 0, "seconds")
	fAnnounce  = flag.String("announce", "", "internal: file receiving the case being run")
	fReplay    = flag.String("replay", "", "replay file")
	fList      = flag.Bool("list", false, "list scenarios")
	fBudget    = flag.Float64("budget", 0, "seconds for the whole check")
	fNote      = flag.String("note", "", "note added to the evidence")
	fOnlyPlain = flag.Bool("onlyplain", false, "skip scenarios that need instrumentation")
)

const hangAfter = 25 * time.Second

func main() {
	flag.Parse()
	log.SetOutput(io.Discard)
	loadKnown()
	switch {
	case *fList:
		for _, s := range scenarios {
			fmt.Printf("%s %s shards=%d thorough=%v: %s\n", s.Prop, s.Name, s.Shards, s.Thorough, s.Bounds)
		}
	case *fWorker:
		worker()
	case *fReplay != "":
		os.Exit(replayCmd(*fReplay))
	default:
		os.Exit(parent())
	}
}

func find(prop, name string) *Scenario {
	for _, s := range scenarios {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

type knownEntry struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

var knownWhat = map[string]string{}

func loadKnown() {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownEntry
		if json.Unmarshal([]byte(l), &k) == nil && k.Key != "" && k.Fixed == "" && k.Property == *fProp {
			known[k.Scenario+"/"+k.Key] = true
			knownWhat[k.Scenario+"/"+k.Key] = k.What
		}
	}
}

// ---------------------------------------------------------------- worker

func limitMemory() {
	lim := &syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, lim)
}

func worker() {
	limitMemory()
	s := find(*fProp, *fScen)
	if s == nil {
		os.Exit(3)
	}
	out := os.NewFile(3, "result")
	var started int64
	var cur int64
	var ann func(string)
	var last atomic.Value
	last.Store("")
	if *fAnnounce != "" {
		f, err := os.Create(*fAnnounce)
		if err == nil {
			ann = func(t string) {
				last.Store(t)
				f.Truncate(0)
				f.WriteAt([]byte(t), 0)
			}
		}
	}
	begin := func() {
		atomic.AddInt64(&cur, 1)
		atomic.StoreInt64(&started, time.Now().UnixNano())
	}
	var once sync.Once
	emit := func(r *Result) {
		once.Do(func() {
			b, _ := json.Marshal(r)
			out.Write(b)
			out.Close()
			os.Exit(0)
		})
		select {}
	}
	go func() {
		for {
			time.Sleep(time.Second)
			st := atomic.LoadInt64(&started)
			if st != 0 && time.Since(time.Unix(0, st)) > hangAfter {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				emit(&Result{Scenario: s.Name, Note: "hang", Outcomes: map[string]int{},
					Viol: &Violation{Scenario: s.Name, Case: -2, Desc: fmt.Sprintf("case number %d of this shard %v", atomic.LoadInt64(&cur), last.Load()),
						Msgs: []string{fmt.Sprintf("no progress for %v: the code under test does not terminate", hangAfter)}, Trace: string(buf)}})
			}
		}
	}()
	if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
		if f, err := os.Create(pf); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	var dl time.Time
	if *fDeadline > 0 {
		dl = time.Now().Add(time.Duration(*fDeadline * float64(time.Second)))
	}
	r := runJob(s, *fTier == "thorough", *fShard, *fShards, -1, nil, false, dl, ann, begin)
	atomic.StoreInt64(&started, 0)
	pprof.StopCPUProfile()
	emit(r)
}

// ---------------------------------------------------------------- parent

type job struct {
	s             *Scenario
	shard, shards int
	res           *Result
	crash         string
}

func runWorker(j *job, announce string, deadline float64) (*Result, string) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err.Error()
	}
	args := []string{"-worker", "-verif", *fVerif, "-prop", j.s.Prop, "-scenario", j.s.Name, "-tier", *fTier,
		"-shard", strconv.Itoa(j.shard), "-shards", strconv.Itoa(j.shards), "-deadline", fmt.Sprint(deadline)}
	if announce != "" {
		args = append(args, "-announce", announce)
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=200")
	var se tail
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		return nil, err.Error()
	}
	pw.Close()
	kill := time.AfterFunc(time.Duration((deadline+90)*float64(time.Second)), func() { cmd.Process.Kill() })
	b, _ := io.ReadAll(pr)
	pr.Close()
	werr := cmd.Wait()
	if !kill.Stop() && werr != nil {
		return nil, "killed: time"
	}
	r := new(Result)
	if json.Unmarshal(b, r) != nil || r.Scenario == "" {
		return nil, fmt.Sprintf("worker ended without a result (%v): %s", werr, se.String())
	}
	return r, ""
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	if len(t.b) > 6000 {
		return string(t.b[:6000])
	}
	return string(t.b)
}

func parent() int {
	t0 := time.Now()
	thorough := *fTier == "thorough"
	var jobs []*job
	var scens []*Scenario
	for _, s := range scenarios {
		if s.Prop != *fProp || (s.Thorough && !thorough) || (*fScen != "" && s.Name != *fScen) {
			continue
		}
		if *fOnlyPlain && s.Enum == nil {
			continue
		}
		scens = append(scens, s)
		n := s.Shards
		if n < 1 {
			n = 1
		}
		if thorough && s.Enum == nil {
			n *= 2
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, &job{s: s, shard: i, shards: n})
		}
	}
	budget := *fBudget
	if budget == 0 {
		budget = 150
		if thorough {
			budget = 700
		}
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if len(scens) > 0 {
		ch := make(chan *job)
		var left = int64(len(jobs))
		var wg sync.WaitGroup
		var stop int32
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					if atomic.LoadInt32(&stop) != 0 {
						continue
					}
					n := atomic.AddInt64(&left, -1) + 1
					rest := budget - time.Since(t0).Seconds()
					cap := rest * float64(workers) / float64(n)
					if !thorough && cap < rest/2 {
						cap = rest / 2 // jobs differ in size
					}
					if cap > rest {
						cap = rest
					}
					if cap < 3 {
						cap = 3
					}
					j.res, j.crash = runWorker(j, "", cap)
					if j.res != nil && j.res.Viol != nil {
						atomic.StoreInt32(&stop, 1)
					}
				}
			}()
		}
		for _, j := range jobs {
			ch <- j
		}
		close(ch)
		wg.Wait()
	}
	// crashes: find the case
	var viol *Violation
	confirmed := false
	notes := []string{}
	if *fNote != "" {
		notes = append(notes, *fNote)
	}
	for _, j := range jobs {
		if j.res != nil && j.res.Viol != nil && viol == nil {
			v := j.res.Viol
			v.Property, v.Thorough = *fProp, thorough
			if v.Case == -2 {
				// hang: repeat the whole job to see whether it hangs again
				r, _ := runWorker(j, filepath.Join(os.TempDir(), fmt.Sprintf("ann%d", os.Getpid())), 120)
				os.Remove(filepath.Join(os.TempDir(), fmt.Sprintf("ann%d", os.Getpid())))
				if r != nil && r.Viol != nil && r.Viol.Case == -2 {
					viol, confirmed = r.Viol, true
					viol.Property, viol.Thorough = *fProp, thorough
				} else {
					notes = append(notes, j.s.Name+": a job made no progress for a while but did so when repeated")
				}
				continue
			}
			ok := 0
			why := ""
			for i := 0; i < 5; i++ {
				good, w := replayOnce(v)
				if good {
					ok++
				} else {
					why = w
				}
			}
			if ok == 5 {
				viol, confirmed = v, true
			} else {
				notes = append(notes, fmt.Sprintf("%s: unconfirmed (%d of 5 replays): %s %s", j.s.Name, ok, strings.Join(v.Msgs, "; "), why))
				j.res.Exhaustive = false
			}
		}
		if j.res == nil && j.crash != "" {
			if strings.HasPrefix(j.crash, "killed") {
				notes = append(notes, j.s.Name+": "+j.crash)
				continue
			}
			if viol != nil {
				continue
			}
			af := filepath.Join(os.TempDir(), fmt.Sprintf("ann%d", os.Getpid()))
			n := 0
			var lastCase, lastCrash string
			for i := 0; i < 2; i++ {
				r, crash := runWorker(j, af, 120)
				if r == nil && !strings.HasPrefix(crash, "killed") && realCrash(crash) {
					n++
					b, _ := os.ReadFile(af)
					lastCase, lastCrash = string(b), crash
				}
			}
			os.Remove(af)
			if n == 2 && strings.Contains(lastCrash, "out of memory") && !crashAlone(j, lastCase, thorough) {
				n = 0
			}
			if n == 2 {
				viol = &Violation{Property: *fProp, Scenario: j.s.Name, Thorough: thorough, Case: -3, Desc: "the process dies at case " + lastCase, Msgs: []string{lastCrash}}
				confirmed = true
			} else {
				notes = append(notes, j.s.Name+": worker failed: "+j.crash)
			}
		}
	}
	// merge
	cov := map[string]interface{}{}
	states, trans, valid, execs := 0, 0, 0, 0
	exhaustive := len(jobs) > 0
	var samples []string
	var detail []interface{}
	outAll := 0
	knownSeen := []string{}
	for _, s := range scens {
		m := map[string]interface{}{"scenario": s.Name, "space": s.Bounds}
		hs := map[uint64]bool{}
		oc := map[string]int{}
		var e, st, tr, va, mp int
		ex := true
		var bc []int
		var wall float64
		for _, j := range jobs {
			if j.s != s {
				continue
			}
			if j.res == nil {
				ex = false
				continue
			}
			r := j.res
			e += r.Executions
			st += r.States
			tr += r.Transitions
			va += r.Validated
			ex = ex && r.Exhaustive
			if r.Note != "" {
				m["note"] = r.Note
			}
			for _, h := range r.Hashes {
				hs[h] = true
			}
			for k, v := range r.Outcomes {
				if k == "cases in space" {
					oc[k] = v
				} else {
					oc[k] += v
				}
			}
			for i, v := range r.ByCost {
				for len(bc) <= i {
					bc = append(bc, 0)
				}
				bc[i] += v
			}
			if r.MaxPoints > mp {
				mp = r.MaxPoints
			}
			if len(samples) < 12 {
				for _, x := range r.Samples {
					if len(samples) < 12 {
						samples = append(samples, s.Name+": "+x)
					}
				}
			}
			for _, k := range r.Known {
				knownSeen = appendUniq(knownSeen, s.Name+"/"+k)
			}
			wall += r.Wall
		}
		if s.Enum != nil && len(hs) > 0 && len(hs) < hashCap {
			st = len(hs)
		}
		m["executions"], m["states"], m["transitions"], m["exhaustive"] = e, st, tr, ex
		if s.Enum == nil {
			m["executions_by_deviation_cost"] = bc
			m["max_choice_points"] = mp
		}
		if len(oc) > 0 {
			m["distinct_outcomes"] = len(oc)
			m["outcomes"] = topOutcomes(oc)
		}
		m["cpu_s"] = wall
		outAll += len(oc)
		detail = append(detail, m)
		states += st
		trans += tr
		valid += va
		execs += e
		exhaustive = exhaustive && ex
	}
	sort.Strings(samples)
	if samples == nil {
		samples = []string{}
	}
	cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = states, trans, valid
	cov["executions"] = execs
	cov["samples"], cov["exhaustive"], cov["scenarios"] = samples, exhaustive, detail
	cov["meaning"] = "states: distinct observed results of enumerations plus scheduling-tree nodes; transitions: operations executed on the implementation; traces_validated_against_impl: executions of the real code compared with the reference oracle without disagreement"
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nv := 0
	code := 0
	for _, k := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, knownWhat[k])
	}
	if viol != nil && confirmed {
		nv = 1
		code = 1
		dir := filepath.Join(*fVerif, "out")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", *fProp, strings.ReplaceAll(viol.Scenario, "/", "_")))
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("%s: scenario %s: %s\n", *fProp, viol.Scenario, viol.Desc)
		for _, m := range viol.Msgs {
			fmt.Println("  " + firstLines(m, 12))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, p)
	}
	ev := map[string]interface{}{"property": *fProp, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions(*fProp), "wall_s": time.Since(t0).Seconds(), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", *fProp+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, exhaustive=%v, %.1fs\n", *fProp, *fTier, execs, states, trans, exhaustive, time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("note:", firstLines(n, 8))
	}
	return code
}

func realCrash(s string) bool {
	return strings.Contains(s, "fatal error") || strings.Contains(s, "panic:") || strings.Contains(s, "goroutine ") || strings.Contains(s, "signal")
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}

func topOutcomes(m map[string]int) map[string]int {
	if len(m) <= 12 {
		return m
	}
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || (l[i].v == l[j].v && l[i].k < l[j].k) })
	o := map[string]int{}
	for _, e := range l[:12] {
		o[e.k] = e.v
	}
	return o
}

// replayOnce runs a counterexample again in a fresh process.
// crashAlone tells whether a single case runs a fresh process out of memory.
func crashAlone(j *job, at string, thorough bool) bool {
	var idx int
	if j.s.Enum == nil {
		return false
	}
	if _, err := fmt.Sscan(at, &idx); err != nil {
		return false
	}
	_, why := replayOnce(&Violation{Property: *fProp, Scenario: j.s.Name, Thorough: thorough, Case: idx})
	return strings.HasPrefix(why, "crashed")
}

func replayOnce(v *Violation) (bool, string) {
	b, _ := json.Marshal(v)
	f, err := os.CreateTemp("", "replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.Remove(f.Name())
	f.Write(b)
	f.Close()
	cmd := exec.Command(os.Args[0], "-replay", f.Name(), "-verif", *fVerif, "-prop", v.Property)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	o, err := cmd.Output()
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		return true, ""
	} else if ok && ee.ExitCode() == 2 {
		return false, "crashed: " + strings.TrimSpace(string(o))
	}
	return false, strings.TrimSpace(string(o))
}

func replayCmd(path string) int {
	limitMemory()
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 3
	}
	*fProp = v.Property
	loadKnown()
	s := find(v.Property, v.Scenario)
	if s == nil {
		fmt.Println("unknown scenario")
		return 3
	}
	r := runJob(s, v.Thorough, 0, 1, v.Case, v.Devs, true, time.Time{}, nil, func() {})
	if r.Viol != nil {
		fmt.Println(r.Viol.Desc)
		if r.Viol.Trace != "" {
			fmt.Println(r.Viol.Trace)
		}
		for _, m := range r.Viol.Msgs {
			fmt.Println("  " + m)
		}
		return 1
	}
	fmt.Println("not reproduced", r.Note)
	return 0
}

func assumptions(prop string) []string {
	return []string{
		"the instrumented code behaves as the original (the repository's tests pass on it; rewriting is type-directed)",
		"sequentially consistent interleaving at synchronisation operations; data races are decided separately by R01",
		"bounds as listed per scenario; values outside the listed alphabets are not covered",
	}
}
