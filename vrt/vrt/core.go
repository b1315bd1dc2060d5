// Package vrt is a deterministic cooperative scheduler used to model check the
// instrumented implementation: exactly one controlled goroutine runs at a time and
// every visible operation is a scheduling point at which the explorer decides who
// runs next.  With no execution active (X == nil) every operation falls back to the
// real Go operation, so the instrumented code can also run natively (that is used to
// run the repository's own tests on the instrumented code).
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// X is the active execution, nil outside explorations.
var X *Exec

// Config bounds one exploration.
type Config struct {
	Bound     int      // maximum total cost of deviations from the default schedule
	NPCost    int      // cost of a non-default pick when the running thread blocked or ended
	MaxSteps  int      // horizon: more steps than this is reported as livelock
	MaxTimers int      // timers fired (only when nothing else can run) before quiescence is declared
	Access    bool     // memory accesses are scheduling points
	In        []string // with Access: only in these packages (nil: all)
	Races     bool     // happens-before race detection
	MapOrder  bool     // map iteration order is an explored choice (else canonical)
	Trace     bool     // record a readable trace
}

const (
	kSched  = 1 // running thread still enabled
	kSwitch = 2 // running thread blocked or finished
	kSelect = 3 // several select cases ready
	kEnv    = 4 // environment answer
)

type cpoint struct {
	n    int
	kind uint8
	cost uint8 // cost of choosing any non-zero alternative
	sig  uint32
}

// Dev is one non-default choice of a schedule.
type Dev struct {
	Pos int    `json:"pos"`
	Alt int    `json:"alt"`
	Sig uint32 `json:"sig"`
}

type Thread struct {
	id     int
	Name   string
	wake   chan struct{}
	ready  func() bool
	what   string
	done   bool
	gone   chan struct{}
	vc     VC
	daemon bool
}

type PanicInfo struct {
	Thread string
	Value  string
	Stack  string
}

type Timer struct {
	at  int64
	seq int
	fn  func()
	off bool
	vc  VC
}

// Exec is one controlled execution.
type Exec struct {
	cfg       Config
	threads   []*Thread
	cur       *Thread
	devs      []Dev
	devPos    int
	points    []cpoint
	branching bool
	aborting  bool
	ended     bool
	clock     int64
	timers    []*Timer
	timerSeq  int
	fired     int
	fin       chan struct{}
	Steps     int
	Panics    []PanicInfo
	Fails     []string
	Races     []string
	Livelock  bool
	Diverged  string
	TraceLog  []string
	chans     map[uintptr]*chanState
	atomVC    map[uintptr]*VC
	mem       map[uintptr]*access
	keep      []interface{}
	mapSalt   int
	rnd       uint64
	raceSeen  map[string]bool
	timerVC   VC
	Data      interface{} // harness state
	Net       interface{} // virtual network of this execution
}

func newExec(cfg Config, devs []Dev) *Exec {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	return &Exec{cfg: cfg, devs: devs, fin: make(chan struct{}), clock: 1,
		chans: make(map[uintptr]*chanState)}
}

// run executes body as thread 0 until quiescence.
func (x *Exec) run(body func(x *Exec)) {
	resetGlobals()
	X = x
	t := x.newThread("main", func() { body(x) })
	x.cur = t
	t.wake <- struct{}{}
	<-x.fin
}

// teardown ends every thread that is still blocked.
func (x *Exec) teardown() {
	x.aborting = true
	for i := 0; i < len(x.threads); i++ {
		t := x.threads[i]
		if t.done {
			<-t.gone
			continue
		}
		x.cur = t
		t.wake <- struct{}{}
		<-t.gone
	}
	X = nil
}

func (x *Exec) newThread(name string, fn func()) *Thread {
	t := &Thread{id: len(x.threads), Name: name, wake: make(chan struct{}, 1), gone: make(chan struct{})}
	if x.cur != nil && x.cfg.Races {
		t.vc = x.cur.vc.clone()
		x.cur.vc = x.cur.vc.tick(x.cur.id)
	}
	t.vc = t.vc.tick(t.id)
	x.threads = append(x.threads, t)
	go func() {
		defer close(t.gone)
		<-t.wake
		if x.aborting {
			t.done = true
			return
		}
		normal := false
		func() {
			defer func() {
				if !normal && !x.aborting {
					// panic, or runtime.Goexit called by the code under test
					if r := recover(); r != nil {
						x.Panics = append(x.Panics, PanicInfo{t.Name, fmt.Sprint(r), string(debug.Stack())})
						t.done = true
						x.end()
						return
					}
				} else if x.aborting {
					recover()
				}
			}()
			fn()
			normal = true
		}()
		if x.aborting || x.ended {
			t.done = true
			return
		}
		t.done = true
		x.dispatch(t, true)
	}()
	return t
}

// end declares the execution over; the caller must not run further.
func (x *Exec) end() {
	if !x.ended {
		x.ended = true
		close(x.fin)
	}
}

// Go starts a controlled goroutine.
func Go(fn func()) { GoNamed("go", fn) }

func GoNamed(name string, fn func()) {
	x := X
	if x == nil {
		go fn()
		return
	}
	if x.aborting {
		return
	}
	n := fmt.Sprintf("%s#%d", name, len(x.threads))
	x.newThread(n, fn)
	Point("spawn " + n)
}

// Daemon marks the current thread as one that may stay blocked at the end.
func Daemon() {
	if X != nil && X.cur != nil {
		X.cur.daemon = true
	}
}

// SetName names the current thread in traces.
func SetName(n string) {
	if X != nil && X.cur != nil {
		X.cur.Name = n
	}
}

func hashStr(h uint32, s string) uint32 {
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

// choose returns the explorer's decision among n alternatives.
func (x *Exec) choose(kind uint8, n int, cost int, what string) int {
	if !x.branching || n <= 1 || x.aborting || x.ended {
		return 0
	}
	pos := len(x.points)
	sig := hashStr(2166136261^uint32(n)<<8^uint32(kind), what)
	x.points = append(x.points, cpoint{n, kind, uint8(cost), sig})
	c := 0
	if x.devPos < len(x.devs) && x.devs[x.devPos].Pos == pos {
		d := x.devs[x.devPos]
		x.devPos++
		if d.Alt >= n || (d.Sig != 0 && d.Sig != sig) {
			x.Diverged = fmt.Sprintf("at choice %d: recorded %+v, now n=%d sig=%d %s", pos, d, n, sig, what)
		} else {
			c = d.Alt
		}
	}
	return c
}

// Choose is an environment choice among n answers; answer 0 is the default and each
// other answer costs cost against the bound.
func Choose(n int, cost int, what string) int {
	if X == nil {
		return 0
	}
	c := X.choose(kEnv, n, cost, "env "+what)
	X.trace("choose %s = %d/%d", what, c, n)
	return c
}

// Branch turns exploration of alternatives on or off (set-up phases run deterministically).
func Branch(on bool) { X.branching = on }

func (x *Exec) trace(format string, args ...interface{}) {
	if x.cfg.Trace {
		n := "-"
		if x.cur != nil {
			n = x.cur.Name
		}
		x.TraceLog = append(x.TraceLog, fmt.Sprintf("%4d %-16s %s", x.Steps, n, fmt.Sprintf(format, args...)))
	}
}

// Log adds a line to the trace (harness use).
func Log(format string, args ...interface{}) {
	if X != nil {
		X.trace(format, args...)
	}
}

// Fail records a property violation seen in this execution.
func Fail(format string, args ...interface{}) {
	if X != nil && !X.aborting {
		X.Fails = append(X.Fails, fmt.Sprintf(format, args...))
		X.trace("FAIL "+format, args...)
	}
}

func (t *Thread) enabled() bool { return !t.done && (t.ready == nil || t.ready()) }

// next picks the thread to run; nil means quiescent.
func (x *Exec) next(cur *Thread, curOK bool) *Thread {
	for {
		var list [32]*Thread
		n := 0
		if curOK && cur.enabled() {
			list[0] = cur
			n = 1
		}
		for _, t := range x.threads {
			if t == cur && n > 0 && list[0] == cur {
				continue
			}
			if n < len(list) && t.enabled() {
				list[n] = t
				n++
			}
		}
		if n == 0 {
			if x.fireTimer() {
				continue
			}
			return nil
		}
		if n == 1 {
			return list[0]
		}
		kind, cost := uint8(kSwitch), x.cfg.NPCost
		if list[0] == cur {
			kind, cost = kSched, 1
		}
		what := "sched"
		if cur != nil {
			what = cur.Name
		}
		return list[x.choose(kind, n, cost, what)]
	}
}

// dispatch hands control over from t, which cannot continue (finished or blocked).
func (x *Exec) dispatch(t *Thread, finished bool) {
	nt := x.next(t, !finished)
	if nt == nil {
		x.end()
		return
	}
	if nt == t {
		return
	}
	x.cur = nt
	nt.wake <- struct{}{}
}

func (x *Exec) park(t *Thread) {
	<-t.wake
	if x.aborting {
		runtime.Goexit()
	}
}

func (x *Exec) step() {
	x.Steps++
	if x.Steps > x.cfg.MaxSteps && !x.ended {
		x.Livelock = true
		x.trace("step limit reached")
		t := x.cur
		x.end()
		x.park(t)
	}
}

// Point is a scheduling point before a visible operation.
func Point(what string) {
	x := X
	if x == nil || x.aborting {
		return
	}
	if x.ended {
		// a thread still running after the end (only the ender) must stop here
		x.park(x.cur)
	}
	x.step()
	t := x.cur
	if x.cfg.Trace {
		x.trace("%s", what)
	}
	nt := x.next(t, true)
	if nt != t {
		x.cur = nt
		nt.wake <- struct{}{}
		x.park(t)
	}
}

// Block waits until ready() holds; ready is evaluated by the scheduler.
func Block(what string, ready func() bool) {
	x := X
	if x.aborting {
		runtime.Goexit()
	}
	if ready() {
		return
	}
	t := x.cur
	t.ready, t.what = ready, what
	x.trace("blocked: %s", what)
	x.dispatchBlocked(t)
	t.ready, t.what = nil, ""
}

func (x *Exec) dispatchBlocked(t *Thread) {
	nt := x.next(t, false)
	if nt == t {
		return
	}
	if nt == nil {
		x.end()
	} else {
		x.cur = nt
		nt.wake <- struct{}{}
	}
	x.park(t)
}

// BlockForever never returns.
func BlockForever() {
	if X == nil {
		select {}
	}
	Block("forever", func() bool { return false })
}

// Blocked lists the threads that are not finished (valid after quiescence).
func (x *Exec) Blocked(includeDaemons bool) []string {
	var out []string
	for _, t := range x.threads {
		if !t.done && (includeDaemons || !t.daemon) {
			out = append(out, t.Name+": "+t.what)
		}
	}
	return out
}

// ---------------------------------------------------------------- virtual time

// AddTimer schedules fn at now+d; it runs when nothing else can.
func AddTimer(d int64, fn func()) *Timer {
	x := X
	if d < 0 {
		d = 0
	}
	x.timerSeq++
	t := &Timer{at: x.clock + d, seq: x.timerSeq, fn: fn}
	if x.cfg.Races && x.cur != nil {
		t.vc = x.cur.vc.clone()
		x.cur.vc = x.cur.vc.tick(x.cur.id)
	}
	if t.at < x.clock { // overflow
		t.at = 1<<63 - 1
	}
	x.timers = append(x.timers, t)
	return t
}

// Cancel reports whether the timer was still pending.
func (t *Timer) Cancel() bool {
	if t.off {
		return false
	}
	t.off = true
	return true
}

func (x *Exec) fireTimer() bool {
	if x.fired >= x.cfg.MaxTimers {
		return false
	}
	sort.SliceStable(x.timers, func(i, j int) bool {
		if x.timers[i].at != x.timers[j].at {
			return x.timers[i].at < x.timers[j].at
		}
		return x.timers[i].seq < x.timers[j].seq
	})
	for len(x.timers) > 0 {
		t := x.timers[0]
		x.timers = x.timers[1:]
		if t.off {
			continue
		}
		t.off = true
		x.fired++
		if t.at > x.clock {
			x.clock = t.at
		}
		x.trace("timer fires at %d", t.at)
		x.timerVC = t.vc
		t.fn()
		x.timerVC = nil
		return true
	}
	return false
}

// Clock is the virtual time in nanoseconds; every reading is distinct.
func Clock() int64 { X.clock += 200; return X.clock }

// ClockNow reads the virtual time without advancing it.
func ClockNow() int64 { return X.clock }

// Rand is deterministic pseudo-randomness per execution.
func Rand(b []byte) {
	for i := range b {
		X.rnd += 0x9E3779B97F4A7C15
		z := X.rnd
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		b[i] = byte(z ^ (z >> 31))
	}
}

// Cur returns the running thread's index.
func Cur() int { return X.cur.id }

// Aborting tells cleanup code that the execution is being torn down.
func Aborting() bool { return X != nil && X.aborting }

func (x *Exec) Trace() string { return strings.Join(x.TraceLog, "\n") }

// SpawnNow starts a thread from a timer, without a scheduling point.
func SpawnNow(name string, fn func()) {
	if X == nil || X.aborting {
		return
	}
	t := X.newThread(fmt.Sprintf("%s#%d", name, len(X.threads)), fn)
	t.vc = VC(nil).join(X.timerVC).tick(t.id)
}

// Point1 is a scheduling point standing for runtime.Gosched.
func Point1(func()) func() {
	return func() {
		if X == nil {
			runtime.Gosched()
			return
		}
		Point("Gosched")
	}
}

// Fatal is an unrecoverable run-time error of the code under test.
func Fatal(msg string) {
	x := X
	if x.aborting {
		return
	}
	x.Panics = append(x.Panics, PanicInfo{x.cur.Name, "fatal error: " + msg, string(debug.Stack())})
	t := x.cur
	x.end()
	x.park(t)
}
