package vrt

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// VC is a vector clock.
type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }
func (v VC) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) grow(n int) VC {
	for len(v) < n {
		v = append(v, 0)
	}
	return v
}
func (v VC) tick(i int) VC { v = v.grow(i + 1); v[i]++; return v }
func (v VC) join(o VC) VC {
	v = v.grow(len(o))
	for i, c := range o {
		if c > v[i] {
			v[i] = c
		}
	}
	return v
}

func (x *Exec) acquire(o *VC) {
	if x.cfg.Races && x.cur != nil {
		x.cur.vc = x.cur.vc.join(*o)
	}
}

func (x *Exec) release(o *VC) {
	if x.cfg.Races && x.cur != nil {
		*o = (*o).join(x.cur.vc)
		x.cur.vc = x.cur.vc.tick(x.cur.id)
	}
}

// Acquire and Release create happens-before edges through o.
func Acquire(o *VC) {
	if X != nil {
		X.acquire(o)
	}
}
func Release(o *VC) {
	if X != nil {
		X.release(o)
	}
}

// AtomicVC is the clock of an atomic variable.
func AtomicVC(p unsafe.Pointer) *VC {
	x := X
	if x.atomVC == nil {
		x.atomVC = make(map[uintptr]*VC)
	}
	v := x.atomVC[uintptr(p)]
	if v == nil {
		v = new(VC)
		x.atomVC[uintptr(p)] = v
		x.keep = append(x.keep, p)
	}
	return v
}

type rd struct {
	t    int
	c    uint32
	site string
}

type access struct {
	wt    int
	wc    uint32
	wsite string
	reads []rd
}

func (x *Exec) mem1(p uintptr) *access {
	if x.mem == nil {
		x.mem = make(map[uintptr]*access)
	}
	a := x.mem[p]
	if a == nil {
		a = &access{wt: -1}
		x.mem[p] = a
	}
	return a
}

// touch visits every byte of composite values and the start of scalars, so that an
// access to a whole struct conflicts with accesses to its fields.
func touch(p unsafe.Pointer, t reflect.Type, f func(uintptr)) {
	base := uintptr(p)
	switch t.Kind() {
	case reflect.Struct, reflect.Array:
		n := t.Size()
		if n > 512 {
			n = 512
		}
		for i := uintptr(0); i < n; i++ {
			f(base + i)
		}
		if n == 0 {
			return
		}
	default:
		f(base)
	}
}

func (x *Exec) race(a, b string) {
	s := []string{a, b}
	sort.Strings(s)
	k := strings.Join(s, " <-> ")
	if x.raceSeen == nil {
		x.raceSeen = make(map[string]bool)
	}
	if !x.raceSeen[k] {
		x.raceSeen[k] = true
		x.Races = append(x.Races, k)
		x.trace("RACE %s", k)
	}
}

func (x *Exec) readAt(p uintptr, site string) {
	a := x.mem1(p)
	t := x.cur
	if a.wt >= 0 && a.wt != t.id && a.wc > t.vc.get(a.wt) {
		x.race("write "+a.wsite, "read "+site)
	}
	for i := range a.reads {
		if a.reads[i].t == t.id {
			a.reads[i].c, a.reads[i].site = t.vc.get(t.id), site
			return
		}
	}
	a.reads = append(a.reads, rd{t.id, t.vc.get(t.id), site})
}

func (x *Exec) writeAt(p uintptr, site string) {
	a := x.mem1(p)
	t := x.cur
	if a.wt >= 0 && a.wt != t.id && a.wc > t.vc.get(a.wt) {
		x.race("write "+a.wsite, "write "+site)
	}
	for _, r := range a.reads {
		if r.t != t.id && r.c > t.vc.get(r.t) {
			x.race("read "+r.site, "write "+site)
		}
	}
	a.wt, a.wc, a.wsite = t.id, t.vc.get(t.id), site
	a.reads = a.reads[:0]
}

func (c *Config) inside(site string) bool {
	if c.In == nil {
		return true
	}
	for _, p := range c.In {
		if strings.HasPrefix(site, p) {
			return true
		}
	}
	return false
}

func accessPoint(kind, site string) bool {
	x := X
	if x == nil || x.aborting || x.cur == nil {
		return false
	}
	if x.cfg.Access && len(x.threads) > 1 && x.cfg.inside(site) {
		Point(kind + site)
	}
	return X != nil && x.cfg.Races && !x.aborting
}

// R notes a read of *p and returns p.
func R[T any](p *T, site string) *T {
	if X != nil && accessPoint("read ", site) {
		X.keep = append(X.keep, p)
		touch(unsafe.Pointer(p), reflect.TypeOf(p).Elem(), func(a uintptr) { X.readAt(a, site) })
	}
	return p
}

// W notes a write of *p and returns p.
func W[T any](p *T, site string) *T {
	if X != nil && accessPoint("write ", site) {
		X.keep = append(X.keep, p)
		touch(unsafe.Pointer(p), reflect.TypeOf(p).Elem(), func(a uintptr) { X.writeAt(a, site) })
	}
	return p
}

// SetTo returns the function performing *p = v.
func SetTo[T any](p *T, site string) func(T) {
	return func(v T) { *W(p, site) = v }
}

// MR notes a read of a map's contents, MW a write.
func MR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if X != nil && m != nil && accessPoint("mapread ", site) {
		X.keep = append(X.keep, m)
		X.readAt(reflect.ValueOf(m).Pointer(), site)
	}
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M, site string) M {
	if X != nil && m != nil && accessPoint("mapwrite ", site) {
		X.keep = append(X.keep, m)
		X.writeAt(reflect.ValueOf(m).Pointer(), site)
	}
	return m
}

// MapSetTo returns the function performing m[k] = v.
func MapSetTo[M ~map[K]V, K comparable, V any](m M, k K, site string) func(V) {
	return func(v V) { MW[M, K, V](m, site)[k] = v }
}

// KV is one map entry.
type KV[K comparable, V any] struct {
	K K
	V V
}

// MapRange prepares a range over a map; the zero values give the loop variables their types.
func MapRange[M ~map[K]V, K comparable, V any](m M, site string) (es []KV[K, V], k K, v V) {
	return MapEntries[M, K, V](m, site), k, v
}

// ChZero is the zero value of a channel's elements.
func ChZero[T any](ch <-chan T) (z T) { return }

// MapEntries lists a map's entries in an order owned by the explorer: canonical by
// default, any rotation or the reverse when MapOrder is set.
func MapEntries[M ~map[K]V, K comparable, V any](m M, site string) []KV[K, V] {
	MR[M, K, V](m, site)
	out := make([]KV[K, V], 0, len(m))
	keys := make([]string, 0, len(m))
	for k, v := range m {
		out = append(out, KV[K, V]{k, v})
		keys = append(keys, fmt.Sprintf("%#v", k))
	}
	if X == nil {
		return out
	}
	sort.Sort(&kvSort[K, V]{out, keys})
	if X.cfg.MapOrder && len(out) > 1 && !X.aborting {
		// explore every permutation for small maps, else rotations
		n := len(out)
		if n <= 4 {
			rest := append([]KV[K, V](nil), out...)
			out = out[:0]
			for len(rest) > 0 {
				i := X.choose(kEnv, len(rest), 0, "maporder")
				out = append(out, rest[i])
				rest = append(rest[:i:i], rest[i+1:]...)
			}
		} else {
			r := X.choose(kEnv, n, 0, "maporder")
			out = append(append([]KV[K, V](nil), out[r:]...), out[:r]...)
		}
	}
	return out
}

func MapHas[M ~map[K]V, K comparable, V any](m M, k K) bool { _, ok := m[k]; return ok }

type kvSort[K comparable, V any] struct {
	e []KV[K, V]
	k []string
}

func (s *kvSort[K, V]) Len() int           { return len(s.e) }
func (s *kvSort[K, V]) Less(i, j int) bool { return s.k[i] < s.k[j] }
func (s *kvSort[K, V]) Swap(i, j int) {
	s.e[i], s.e[j] = s.e[j], s.e[i]
	s.k[i], s.k[j] = s.k[j], s.k[i]
}

// ---------------------------------------------------------------- package variables

var globals []func() func()

// RegisterGlobal makes every execution start with the value *p has when exploration begins.
func RegisterGlobal[T any](p *T) {
	globals = append(globals, func() func() {
		v := copyTop(reflect.ValueOf(p).Elem())
		return func() { reflect.ValueOf(p).Elem().Set(copyTop(v)) }
	})
}

func copyTop(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Map:
		if !v.IsNil() {
			m := reflect.MakeMapWithSize(v.Type(), v.Len())
			for _, k := range v.MapKeys() {
				m.SetMapIndex(k, v.MapIndex(k))
			}
			n.Set(m)
		}
	case reflect.Slice:
		if !v.IsNil() {
			s := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
			reflect.Copy(s, v)
			n.Set(s)
		}
	}
	return n
}

var restore []func()
var snapped bool

func resetGlobals() {
	if !snapped {
		snapped = true
		for _, g := range globals {
			restore = append(restore, g())
		}
		return
	}
	for _, f := range restore {
		f()
	}
}
