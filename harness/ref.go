package main

// Independent implementation of the Service Fabric object format, written from the
// format description (not from the code under test).

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"unicode/utf16"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
)

const (
	mEmpty = 0x40
	mArray = 0x80
)

var (
	guidT  = reflect.TypeOf(serialization.GUID{})
	nodeT  = reflect.TypeOf(federation.NodeID{})
	rangeT = reflect.TypeOf(federation.NodeIdRange{})
)

// refSelf is implemented by harness types with their own encoding.
type refSelf interface {
	refEncode() []byte
	refParse(meta byte, b []byte) ([]byte, error)
}

var refSelfT = reflect.TypeOf((*refSelf)(nil)).Elem()

// refVar is the canonical compressed integer: shortest two's complement in 7-bit groups.
func refVarU(v uint64) []byte {
	n := 1
	for ; n < 10; n++ {
		if v>>(uint(7*n)-1) == 0 {
			break
		}
	}
	return refGroups(v, n)
}

func refVarS(v int64) []byte {
	n := 1
	for ; n < 10; n++ {
		lim := int64(1) << (uint(7*n) - 1)
		if v >= -lim && v < lim {
			break
		}
	}
	return refGroups(uint64(v), n)
}

// refGroups writes the low 7*n bits (sign extended past 64) of v in n groups.
func refGroups(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		sh := uint(7 * (n - 1 - i))
		g := byte(0)
		if sh < 64 {
			g = byte(v>>sh) & 0x7f
		}
		if i < n-1 {
			g |= 0x80
		}
		out[i] = g
	}
	if n == 10 {
		// the top group holds bit 63 only; its remaining bits repeat the sign for signed values
		out[0] = 0x80 | byte(v>>63)
	}
	return out
}

func refVarS64(v int64) []byte {
	b := refVarS(v)
	if len(b) == 10 && v < 0 {
		b[0] = 0xff
	}
	return b
}

func scalarTag(k reflect.Kind) (byte, bool) {
	switch k {
	case reflect.Int8:
		return 0x03, true
	case reflect.Uint8:
		return 0x04, true
	case reflect.Int16:
		return 0x05, true
	case reflect.Uint16:
		return 0x06, true
	case reflect.Int32:
		return 0x07, true
	case reflect.Uint32:
		return 0x08, true
	case reflect.Int64:
		return 0x09, true
	case reflect.Uint64:
		return 0x0a, true
	case reflect.Float32, reflect.Float64:
		return 0x0b, true
	case reflect.Bool:
		return 0x02, true
	}
	return 0, false
}

func refGuid(g serialization.GUID) []byte {
	if g == (serialization.GUID{}) {
		return []byte{0x4c}
	}
	b := []byte{0x0c}
	b = binary.LittleEndian.AppendUint32(b, g.Data1)
	b = binary.LittleEndian.AppendUint16(b, g.Data2)
	b = binary.LittleEndian.AppendUint16(b, g.Data3)
	return append(b, g.Data4[:]...)
}

func refNode(n federation.NodeID) []byte {
	b := []byte{0x84, 0x10}
	b = binary.LittleEndian.AppendUint64(b, n.Hi)
	return binary.LittleEndian.AppendUint64(b, n.Lo)
}

func refObj(fields []byte) []byte { return refObjInfo(fields, nil) }

// headerFlags are further flags for object headers.
var headerFlags byte

// refObjInfo is an object, optionally with type information.
func refObjInfo(fields []byte, info []byte) []byte {
	b := []byte{0}
	extra := 0
	flag := headerFlags
	var ti []byte
	if info != nil {
		flag |= 1
		ti = append(refVarU(uint64(len(info))), info...)
		extra = len(ti)
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(fields)+11+extra))
	b = append(b, flag, 0, 0, 0)
	b = append(b, ti...)
	b = append(b, 0x1f)
	b = append(b, fields...)
	return append(b, 0x2f, 0x3f)
}

// permSel picks the order of map entries: each map with n entries consumes one
// selection out of n! from a mixed radix counter.
type permSel struct{ v, space int }

func (p *permSel) pick(n int) []int {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if p == nil {
		return idx
	}
	for i := 0; i < n-1; i++ {
		r := n - i
		if p.space < 1<<20 {
			p.space *= r
		}
		k := p.v % r
		p.v /= r
		idx[i], idx[i+k] = idx[i+k], idx[i]
	}
	return idx
}

// refEncode encodes a value; info, when not nil, is type information put in every object.
func refEncode(rv reflect.Value, ps *permSel, info []byte) []byte {
	t := rv.Type()
	switch t {
	case guidT:
		return refGuid(rv.Interface().(serialization.GUID))
	case nodeT:
		return refNode(rv.Interface().(federation.NodeID))
	case rangeT:
		r := rv.Interface().(federation.NodeIdRange)
		return append(refNode(r.Begin), refNode(r.End)...)
	}
	if reflect.PtrTo(t).Implements(refSelfT) {
		p := reflect.New(t)
		p.Elem().Set(rv)
		return p.Interface().(refSelf).refEncode()
	}
	switch t.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return []byte{0x42}
		}
		return []byte{0x72}
	case reflect.Int8:
		if rv.Int() == 0 {
			return []byte{0x43}
		}
		return []byte{0x03, byte(rv.Int())}
	case reflect.Uint8:
		if rv.Uint() == 0 {
			return []byte{0x44}
		}
		return []byte{0x04, byte(rv.Uint())}
	case reflect.Int16, reflect.Int32, reflect.Int64:
		tag, _ := scalarTag(t.Kind())
		if rv.Int() == 0 {
			return []byte{tag | mEmpty}
		}
		return append([]byte{tag}, refVarS64(rv.Int())...)
	case reflect.Uint16, reflect.Uint32, reflect.Uint64:
		tag, _ := scalarTag(t.Kind())
		if rv.Uint() == 0 {
			return []byte{tag | mEmpty}
		}
		return append([]byte{tag}, refVarU(rv.Uint())...)
	case reflect.Float32, reflect.Float64:
		bitsv := math.Float64bits(rv.Float())
		if bitsv == 0 {
			return []byte{0x4b}
		}
		return binary.LittleEndian.AppendUint64([]byte{0x0b}, bitsv)
	case reflect.String:
		if rv.Len() == 0 {
			return []byte{0xcd}
		}
		u := utf16.Encode([]rune(rv.String()))
		b := append([]byte{0x8d}, refVarU(uint64(len(u)))...)
		for _, c := range u {
			b = append(b, byte(c), byte(c>>8))
		}
		return b
	case reflect.Ptr:
		if rv.IsNil() {
			return []byte{0x41}
		}
		return append([]byte{0x01}, refEncode(rv.Elem(), ps, info)...)
	case reflect.Struct:
		var f []byte
		for _, x := range refFields(rv) {
			f = append(f, refEncode(x, ps, info)...)
		}
		return refObjInfo(f, info)
	case reflect.Slice:
		var tag byte
		switch t.Elem().Kind() {
		case reflect.String, reflect.Ptr:
			tag = 0x08
		case reflect.Struct:
			tag = mArray
		default:
			s, ok := scalarTag(t.Elem().Kind())
			if !ok {
				panic("refEncode: unsupported slice " + t.String())
			}
			tag = s | mArray
		}
		if rv.Len() == 0 {
			return []byte{tag | mEmpty}
		}
		b := append([]byte{tag}, refVarU(uint64(rv.Len()))...)
		for i := 0; i < rv.Len(); i++ {
			b = append(b, refEncode(rv.Index(i), ps, info)...)
		}
		return b
	case reflect.Map:
		if rv.Len() == 0 {
			return []byte{0xc0}
		}
		b := append([]byte{0x80}, refVarU(uint64(rv.Len()))...)
		keys := sortedKeys(rv)
		for _, i := range ps.pick(len(keys)) {
			e := refEncode(keys[i], ps, info)
			e = append(e, refEncode(rv.MapIndex(keys[i]), ps, info)...)
			b = append(b, refObjInfo(e, info)...)
		}
		return b
	}
	panic("refEncode: unsupported " + t.String())
}

func sortedKeys(rv reflect.Value) []reflect.Value {
	ks := rv.MapKeys()
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && fmt.Sprint(ks[j].Interface()) < fmt.Sprint(ks[j-1].Interface()); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// refFields lists the encoded fields: exported ones in order, embedded structs in place.
func refFields(rv reflect.Value) []reflect.Value {
	var out []reflect.Value
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			out = append(out, refFields(rv.Field(i))...)
		} else {
			out = append(out, rv.Field(i))
		}
	}
	return out
}

// refMarshal is the encoding of the struct v points to.
func refMarshal(v interface{}) []byte {
	return refEncode(reflect.ValueOf(v).Elem(), nil, nil)
}

// refMatches tells whether b is an allowed encoding of rv (map entries in any order).
func refMatches(b []byte, rv reflect.Value) (bool, []byte) {
	ps := &permSel{0, 1}
	first := refEncode(rv, ps, nil)
	if string(first) == string(b) {
		return true, first
	}
	n := ps.space
	if len(first) != len(b) || n > 5000 {
		return false, first
	}
	for i := 1; i < n; i++ {
		if string(refEncode(rv, &permSel{i, 1}, nil)) == string(b) {
			return true, first
		}
	}
	return false, first
}

// ---------------------------------------------------------------- reference decoder

type refErr string

func (e refErr) Error() string { return string(e) }

func refDecode(b []byte, p interface{}) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(refErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	d := &refDec{b}
	d.val(d.byte(), reflect.ValueOf(p).Elem())
	return nil
}

type refDec struct{ b []byte }

func (d *refDec) byte() byte { return d.take(1)[0] }
func (d *refDec) take(n int) []byte {
	if n < 0 || n > len(d.b) {
		panic(refErr("truncated"))
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}

func (d *refDec) varU(bits int) uint64 {
	max := (bits + 6) / 7
	var v uint64
	for i := 0; i < max; i++ {
		c := d.byte()
		if i == 0 && c&0x40 != 0 {
			v = ^uint64(0)
		}
		v = v<<7 | uint64(c&0x7f)
		if c&0x80 == 0 {
			return v
		}
	}
	panic(refErr("too long"))
}

func (d *refDec) obj(f func(end func() bool)) {
	rest := len(d.b)
	h := d.take(8)
	size := int(binary.LittleEndian.Uint32(h))
	if h[4]&1 != 0 {
		n := d.varU(32)
		if n == 0 || n > uint64(len(d.b)) {
			panic(refErr("type info"))
		}
		d.take(int(n))
	}
	if d.byte() != 0x1f {
		panic(refErr("scope begin"))
	}
	f(func() bool { return len(d.b) > 0 && d.b[0] == 0x2f })
	skip := size - 2 - (rest - len(d.b))
	if skip < 0 {
		panic(refErr("size"))
	}
	d.take(skip)
	if d.byte() != 0x2f || d.byte() != 0x3f {
		panic(refErr("scope end"))
	}
}

func (d *refDec) val(meta byte, rv reflect.Value) {
	t := rv.Type()
	if meta&mEmpty != 0 {
		if t.Kind() == reflect.Bool {
			switch meta {
			case 0x42:
				rv.SetBool(true)
			case 0x72:
				rv.SetBool(false)
			default:
				panic(refErr("bool"))
			}
			return
		}
		rv.Set(reflect.Zero(t))
		return
	}
	need := func(m byte) {
		if meta != m {
			panic(refErr(fmt.Sprintf("tag %#x for %v", meta, t)))
		}
	}
	switch t {
	case guidT:
		need(0x0c)
		b := d.take(16)
		g := serialization.GUID{Data1: binary.LittleEndian.Uint32(b), Data2: binary.LittleEndian.Uint16(b[4:]), Data3: binary.LittleEndian.Uint16(b[6:])}
		copy(g.Data4[:], b[8:])
		rv.Set(reflect.ValueOf(g))
		return
	case nodeT:
		need(0x84)
		if d.varU(32) != 16 {
			panic(refErr("node id size"))
		}
		b := d.take(16)
		rv.Set(reflect.ValueOf(federation.NodeID{Hi: binary.LittleEndian.Uint64(b), Lo: binary.LittleEndian.Uint64(b[8:])}))
		return
	case rangeT:
		d.val(meta, rv.Field(0))
		d.val(d.byte(), rv.Field(1))
		return
	}
	if rv.CanAddr() && rv.Addr().Type().Implements(refSelfT) {
		rest, err := rv.Addr().Interface().(refSelf).refParse(meta, d.b)
		if err != nil {
			panic(refErr(err.Error()))
		}
		d.b = rest
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		panic(refErr("bool"))
	case reflect.Int8:
		need(3)
		rv.SetInt(int64(int8(d.byte())))
	case reflect.Uint8:
		need(4)
		rv.SetUint(uint64(d.byte()))
	case reflect.Int16, reflect.Int32, reflect.Int64:
		if meta != 5 && meta != 7 && meta != 9 {
			need(5)
		}
		rv.SetInt(int64(d.varU(t.Bits())))
	case reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if meta != 6 && meta != 8 && meta != 10 {
			need(6)
		}
		rv.SetUint(d.varU(t.Bits()))
	case reflect.Float32, reflect.Float64:
		need(0x0b)
		rv.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(d.take(8))))
	case reflect.String:
		need(0x8d)
		n := d.varU(32)
		if n*2 > uint64(len(d.b)) {
			panic(refErr("truncated string"))
		}
		b := d.take(int(n) * 2)
		u := make([]uint16, n)
		for i := range u {
			u[i] = uint16(b[2*i]) | uint16(b[2*i+1])<<8
		}
		rv.SetString(string(utf16.Decode(u)))
	case reflect.Ptr:
		need(1)
		p := reflect.New(t.Elem())
		d.val(d.byte(), p.Elem())
		rv.Set(p)
	case reflect.Struct:
		need(0)
		d.obj(func(end func() bool) {
			for _, f := range refFields(rv) {
				if end() {
					break
				}
				d.val(d.byte(), f)
			}
		})
	case reflect.Slice:
		switch t.Elem().Kind() {
		case reflect.String, reflect.Ptr:
			need(8)
		case reflect.Struct:
			need(0x80)
		}
		n := d.varU(32)
		if n > uint64(len(d.b)) {
			panic(refErr("truncated slice"))
		}
		s := reflect.MakeSlice(t, int(n), int(n))
		for i := 0; i < int(n); i++ {
			d.val(d.byte(), s.Index(i))
		}
		rv.Set(s)
	case reflect.Map:
		need(0x80)
		n := d.varU(32)
		if n > uint64(len(d.b)) {
			panic(refErr("truncated map"))
		}
		m := reflect.MakeMap(t)
		for i := 0; i < int(n); i++ {
			k, v := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			em := d.byte()
			if em&mEmpty == 0 {
				if em != 0 {
					panic(refErr("map entry"))
				}
				d.obj(func(end func() bool) {
					if !end() {
						d.val(d.byte(), k)
					}
					if !end() {
						d.val(d.byte(), v)
					}
				})
			}
			m.SetMapIndex(k, v)
		}
		rv.Set(m)
	default:
		panic(refErr("unsupported"))
	}
}

// same compares values with nil and empty slices or maps identified and floats by bits.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !same(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return a.Interface() == b.Interface()
}

func show(v interface{}) string { return fmt.Sprintf("%+v", v) }
