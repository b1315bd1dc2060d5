// Package vsync replaces package sync in instrumented code.
package vsync

import (
	"sync"

	"github.com/tg123/phabrik/zzverif/vrt"
)

type Locker = sync.Locker

// gen ties shadow state to one execution so that package-level objects start fresh.
type gen struct {
	x  *vrt.Exec
	vc vrt.VC
}

func (g *gen) fresh() bool {
	if g.x != vrt.X {
		g.x = vrt.X
		g.vc = nil
		return true
	}
	return false
}

type Mutex struct {
	g    gen
	held bool
	real sync.Mutex
}

func (m *Mutex) chk() {
	if m.g.fresh() {
		m.held = false
	}
}

func (m *Mutex) free() bool { return !m.held }

func (m *Mutex) Lock() {
	if vrt.X == nil {
		m.real.Lock()
		return
	}
	vrt.Point("Mutex.Lock")
	if vrt.Aborting() {
		return
	}
	m.chk()
	vrt.Block("Mutex.Lock", m.free)
	m.held = true
	vrt.Acquire(&m.g.vc)
}

func (m *Mutex) TryLock() bool {
	if vrt.X == nil {
		return m.real.TryLock()
	}
	vrt.Point("Mutex.TryLock")
	m.chk()
	if m.held {
		return false
	}
	m.held = true
	vrt.Acquire(&m.g.vc)
	return true
}

func (m *Mutex) Unlock() {
	if vrt.X == nil {
		m.real.Unlock()
		return
	}
	if vrt.Aborting() {
		return
	}
	m.chk()
	if !m.held {
		vrt.Fatal("sync: unlock of unlocked mutex")
	}
	vrt.Release(&m.g.vc)
	m.held = false
	vrt.Point("Mutex.Unlocked")
}

type RWMutex struct {
	g       gen
	w       bool
	readers int
	waiting int // writers waiting: new readers queue behind them as in Go
	rvc     vrt.VC
	real    sync.RWMutex
}

func (m *RWMutex) chk() {
	if m.g.fresh() {
		m.w, m.readers, m.waiting, m.rvc = false, 0, 0, nil
	}
}

func (m *RWMutex) Lock() {
	if vrt.X == nil {
		m.real.Lock()
		return
	}
	vrt.Point("RWMutex.Lock")
	if vrt.Aborting() {
		return
	}
	m.chk()
	m.waiting++
	vrt.Block("RWMutex.Lock", func() bool { return !m.w && m.readers == 0 })
	m.waiting--
	m.w = true
	vrt.Acquire(&m.g.vc)
	vrt.Acquire(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	if vrt.X == nil {
		return m.real.TryLock()
	}
	vrt.Point("RWMutex.TryLock")
	m.chk()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	vrt.Acquire(&m.g.vc)
	vrt.Acquire(&m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	if vrt.X == nil {
		m.real.Unlock()
		return
	}
	if vrt.Aborting() {
		return
	}
	m.chk()
	if !m.w {
		vrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	vrt.Release(&m.g.vc)
	m.w = false
	vrt.Point("RWMutex.Unlocked")
}

func (m *RWMutex) RLock() {
	if vrt.X == nil {
		m.real.RLock()
		return
	}
	vrt.Point("RWMutex.RLock")
	if vrt.Aborting() {
		return
	}
	m.chk()
	vrt.Block("RWMutex.RLock", func() bool { return !m.w && m.waiting == 0 })
	m.readers++
	vrt.Acquire(&m.g.vc)
}

func (m *RWMutex) TryRLock() bool {
	if vrt.X == nil {
		return m.real.TryRLock()
	}
	vrt.Point("RWMutex.TryRLock")
	m.chk()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	vrt.Acquire(&m.g.vc)
	return true
}

func (m *RWMutex) RUnlock() {
	if vrt.X == nil {
		m.real.RUnlock()
		return
	}
	if vrt.Aborting() {
		return
	}
	m.chk()
	if m.readers <= 0 {
		vrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	vrt.Release(&m.rvc)
	m.readers--
	vrt.Point("RWMutex.RUnlocked")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	g    gen
	done bool
	m    Mutex
	real sync.Once
}

func (o *Once) Do(f func()) {
	if vrt.X == nil {
		o.real.Do(f)
		return
	}
	vrt.Point("Once.Do")
	if o.g.fresh() {
		o.done = false
	}
	if o.done {
		vrt.Acquire(&o.g.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			vrt.Release(&o.g.vc)
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type WaitGroup struct {
	g    gen
	n    int
	real sync.WaitGroup
}

func (w *WaitGroup) chk() {
	if w.g.fresh() {
		w.n = 0
	}
}

func (w *WaitGroup) Add(d int) {
	if vrt.X == nil {
		w.real.Add(d)
		return
	}
	if vrt.Aborting() {
		return
	}
	w.chk()
	if d < 0 {
		vrt.Release(&w.g.vc)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vrt.Point("WaitGroup.Add")
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if vrt.X == nil {
		w.real.Wait()
		return
	}
	vrt.Point("WaitGroup.Wait")
	if vrt.Aborting() {
		return
	}
	w.chk()
	vrt.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	vrt.Acquire(&w.g.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	q    []*bool
	real *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

// std is the real condition variable, used outside executions; a Cond may be a literal.
func (c *Cond) std() *sync.Cond {
	if c.real == nil {
		c.real = sync.NewCond(c.L)
	}
	return c.real
}

func (c *Cond) Wait() {
	if vrt.X == nil {
		c.std().Wait()
		return
	}
	w := new(bool)
	c.q = append(c.q, w)
	c.L.Unlock()
	if !vrt.Aborting() {
		vrt.Block("Cond.Wait", func() bool { return *w })
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if vrt.X == nil {
		c.std().Signal()
		return
	}
	vrt.Point("Cond.Signal")
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	if vrt.X == nil {
		c.std().Broadcast()
		return
	}
	vrt.Point("Cond.Broadcast")
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Map keeps insertion order so that Range is deterministic.
type Map struct {
	g    gen
	m    map[any]any
	keys []any
	real sync.Map
}

func (m *Map) at(what string) bool {
	if vrt.X == nil {
		return false
	}
	vrt.Point(what)
	if m.g.fresh() || m.m == nil {
		m.m = make(map[any]any)
		m.keys = nil
		// entries stored natively before the execution started
		m.real.Range(func(k, v any) bool { m.m[k] = v; m.keys = append(m.keys, k); return true })
	}
	return true
}

func (m *Map) acq() { vrt.Acquire(&m.g.vc) }
func (m *Map) rel() { vrt.Acquire(&m.g.vc); vrt.Release(&m.g.vc) }

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, o := range m.keys {
		if o == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) Load(k any) (any, bool) {
	if !m.at("Map.Load") {
		return m.real.Load(k)
	}
	m.acq()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	if !m.at("Map.Store") {
		m.real.Store(k, v)
		return
	}
	m.rel()
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if !m.at("Map.LoadOrStore") {
		return m.real.LoadOrStore(k, v)
	}
	m.rel()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	if !m.at("Map.LoadAndDelete") {
		return m.real.LoadAndDelete(k)
	}
	m.rel()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}

func (m *Map) Delete(k any) {
	if !m.at("Map.Delete") {
		m.real.Delete(k)
		return
	}
	m.rel()
	m.del(k)
}

func (m *Map) Swap(k, v any) (any, bool) {
	if !m.at("Map.Swap") {
		return m.real.Swap(k, v)
	}
	m.rel()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	if !m.at("Map.CompareAndSwap") {
		return m.real.CompareAndSwap(k, o, n)
	}
	m.rel()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	if !m.at("Map.CompareAndDelete") {
		return m.real.CompareAndDelete(k, o)
	}
	m.rel()
	if c, ok := m.m[k]; ok && c == o {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	if !m.at("Map.Clear") {
		m.real.Clear()
		return
	}
	m.rel()
	m.m = make(map[any]any)
	m.keys = nil
}

// Range visits a snapshot of the keys; each step is a scheduling point, as the real
// Range does not hold a lock between calls.
func (m *Map) Range(f func(k, v any) bool) {
	if !m.at("Map.Range") {
		m.real.Range(f)
		return
	}
	keys := append([]any(nil), m.keys...)
	for _, k := range keys {
		if vrt.Aborting() {
			return
		}
		v, ok := m.m[k]
		if !ok {
			continue
		}
		m.acq()
		if !f(k, v) {
			return
		}
		vrt.Point("Map.Range.next")
	}
}

// Pool never drops what was put: reuse happens at once, which is the behaviour most
// likely to expose use after Put.
type Pool struct {
	New  func() any
	g    gen
	free []any
	real sync.Pool
}

func (p *Pool) Get() any {
	if vrt.X == nil {
		if v := p.real.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	vrt.Point("Pool.Get")
	if p.g.fresh() {
		p.free = nil
	}
	if n := len(p.free); n > 0 {
		v := p.free[n-1]
		p.free = p.free[:n-1]
		vrt.Acquire(&p.g.vc)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if vrt.X == nil {
		p.real.Put(v)
		return
	}
	if v == nil {
		return
	}
	if p.g.fresh() {
		p.free = nil
	}
	vrt.Release(&p.g.vc)
	p.free = append(p.free, v)
	vrt.Point("Pool.Put")
}
