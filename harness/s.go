package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime/metrics"
	"strings"

	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
)

// ---------------------------------------------------------------- types and values

// refPair is a harness type with its own encoding (meta 0x0e, compressed count, count words).
type refPair struct{ A, B uint32 }

func (p *refPair) Marshal(e serialization.Encoder) error {
	if err := e.WriteTypeMeta(0x0e); err != nil {
		return err
	}
	if err := e.WriteCompressedUInt32(p.A); err != nil {
		return err
	}
	return e.WriteBinary(p.B)
}

func (p *refPair) Unmarshal(m serialization.FabricSerializationType, d serialization.Decoder) error {
	if m != 0x0e {
		return fmt.Errorf("pair: got %v", m)
	}
	a, err := d.ReadCompressedUInt32()
	if err != nil {
		return err
	}
	p.A = a
	return d.ReadBinary(&p.B)
}

func (p *refPair) refEncode() []byte {
	b := append([]byte{0x0e}, refVarU(uint64(p.A))...)
	return append(b, byte(p.B), byte(p.B>>8), byte(p.B>>16), byte(p.B>>24))
}

func (p *refPair) refParse(meta byte, b []byte) ([]byte, error) {
	d := &refDec{b}
	if meta != 0x0e {
		return nil, fmt.Errorf("pair")
	}
	p.A = uint32(d.varU(32))
	w := d.take(4)
	p.B = uint32(w[0]) | uint32(w[1])<<8 | uint32(w[2])<<16 | uint32(w[3])<<24
	return d.b, nil
}

// refTick is self-encoding and built on the exported metas of other kinds.
type refTick struct{ V [2]byte }

func (p *refTick) Marshal(e serialization.Encoder) error {
	if err := e.WriteTypeMeta(0x84); err != nil {
		return err
	}
	return e.WriteBinary(p.V)
}
func (p *refTick) Unmarshal(m serialization.FabricSerializationType, d serialization.Decoder) error {
	if m != 0x84 {
		return fmt.Errorf("tick: got %v", m)
	}
	return d.ReadBinary(&p.V)
}
func (p *refTick) refEncode() []byte { return []byte{0x84, p.V[0], p.V[1]} }
func (p *refTick) refParse(meta byte, b []byte) ([]byte, error) {
	if meta != 0x84 || len(b) < 2 {
		return nil, fmt.Errorf("tick")
	}
	copy(p.V[:], b)
	return b[2:], nil
}

type myInt int32
type myStr string
type myBool bool

var leafTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), guidT, nodeT,
	reflect.TypeOf(refPair{}), reflect.TypeOf(refTick{}), reflect.TypeOf(myInt(0)), reflect.TypeOf(myStr("")), reflect.TypeOf(myBool(false)),
}

func structOf(ts ...reflect.Type) reflect.Type {
	var fs []reflect.StructField
	for i, t := range ts {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t})
	}
	return reflect.StructOf(fs)
}

func sliceable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Map:
		return false
	}
	return true
}

// wrapTypes applies every constructor of the grammar to t.
func wrapTypes(t reflect.Type) []reflect.Type {
	out := []reflect.Type{reflect.PtrTo(t), structOf(t), structOf(t, reflect.TypeOf(uint16(0)))}
	if sliceable(t) {
		out = append(out, reflect.SliceOf(t))
	}
	out = append(out, reflect.MapOf(reflect.TypeOf(""), t), reflect.MapOf(guidT, t))
	if t.Comparable() && t.Kind() != reflect.Ptr && t.Kind() != reflect.Float32 && t.Kind() != reflect.Float64 {
		out = append(out, reflect.MapOf(t, reflect.TypeOf(int32(0))))
	}
	return out
}

var longStr = strings.Repeat("x", 64)

func rvs(vs ...interface{}) []reflect.Value {
	var out []reflect.Value
	for _, v := range vs {
		out = append(out, reflect.ValueOf(v))
	}
	return out
}

// vals is the value alphabet of a type; n limits its size.
func vals(t reflect.Type, n int) []reflect.Value {
	v := allVals(t, n)
	if len(v) > n {
		v = v[:n]
	}
	return v
}

func conv(t reflect.Type, vs []reflect.Value) []reflect.Value {
	for i := range vs {
		vs[i] = vs[i].Convert(t)
	}
	return vs
}

func allVals(t reflect.Type, n int) []reflect.Value {
	switch t {
	case guidT:
		return rvs(serialization.GUID{Data1: 0x01020304, Data2: 0x0506, Data3: 0x0708, Data4: [8]byte{9, 10, 11, 12, 13, 14, 15, 16}}, serialization.GUID{}, serialization.GUID{Data4: [8]byte{7: 1}})
	case nodeT:
		return rvs(federation.NodeID{Hi: 0x0102030405060708, Lo: 0x90a0b0c0d0e0f000}, federation.NodeID{}, federation.NodeID{Hi: math.MaxUint64, Lo: math.MaxUint64})
	case reflect.TypeOf(refPair{}):
		return rvs(refPair{1, 2}, refPair{0, 0}, refPair{0, 5}, refPair{0xffffffff, 0x2f3f2f3f})
	case reflect.TypeOf(refTick{}):
		return rvs(refTick{[2]byte{0x2f, 0x3f}}, refTick{})
	}
	switch t.Kind() {
	case reflect.Bool:
		return conv(t, rvs(true, false))
	case reflect.Int8:
		return conv(t, rvs(int8(1), int8(0), int8(-1), int8(127), int8(-128), int8(0x2f), int8(0x3f)))
	case reflect.Uint8:
		return conv(t, rvs(uint8(1), uint8(0), uint8(255), uint8(128), uint8(0x2f), uint8(0x40)))
	case reflect.Int16:
		return conv(t, rvs(int16(-1), int16(0), int16(63), int16(64), int16(-64), int16(-65), int16(32767), int16(-32768)))
	case reflect.Uint16:
		return conv(t, rvs(uint16(64), uint16(0), uint16(63), uint16(8191), uint16(8192), uint16(65535)))
	case reflect.Int32:
		return conv(t, rvs(int32(-65), int32(0), int32(1), int32(math.MaxInt32), int32(math.MinInt32), int32(-8193)))
	case reflect.Uint32:
		return conv(t, rvs(uint32(300), uint32(0), uint32(1), uint32(math.MaxUint32), uint32(1<<20)))
	case reflect.Int64:
		return conv(t, rvs(int64(-1), int64(0), int64(1), int64(math.MaxInt64), int64(math.MinInt64), int64(1)<<40))
	case reflect.Uint64:
		return conv(t, rvs(uint64(127), uint64(0), uint64(1), uint64(math.MaxUint64), uint64(1)<<62, uint64(1)<<63))
	case reflect.Float32:
		return conv(t, rvs(float32(1.5), float32(0), float32(math.MaxFloat32), float32(math.Inf(-1))))
	case reflect.Float64:
		return conv(t, rvs(-2.25, 0.0, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1)))
	case reflect.String:
		return conv(t, rvs("a", "", "\U0001F600é\u2028", "x\x00y", longStr, "\ufffd\uffff", strings.Repeat("ж", 130)))
	case reflect.Ptr:
		out := []reflect.Value{}
		for i, e := range vals(t.Elem(), n) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			out = append(out, p)
			if i == 0 {
				out = append(out, reflect.Zero(t))
			}
		}
		z := reflect.New(t.Elem())
		return append(out, z)
	case reflect.Slice:
		es := vals(t.Elem(), 3)
		out := []reflect.Value{}
		mk := func(ix ...int) {
			s := reflect.MakeSlice(t, 0, len(ix))
			for _, i := range ix {
				s = reflect.Append(s, es[i%len(es)])
			}
			out = append(out, s)
		}
		mk(0)
		mk()
		mk(0, 1, 2)
		mk(1)
		mk(1, 0)
		out = append(out, reflect.Zero(t))
		long := make([]int, 70)
		for i := range long {
			long[i] = i % 3
		}
		if n > 6 {
			mk(long...)
		}
		return out
	case reflect.Map:
		ks, es := vals(t.Key(), 3), vals(t.Elem(), 3)
		out := []reflect.Value{}
		for _, c := range []int{1, 0, 2, 3} {
			m := reflect.MakeMap(t)
			for i := 0; i < c && i < len(ks); i++ {
				m.SetMapIndex(ks[i], es[i%len(es)])
			}
			out = append(out, m)
		}
		return append(out, reflect.Zero(t))
	case reflect.Struct:
		return structVals(t, n)
	}
	panic("vals: " + t.String())
}

// structVals combines field alphabets: the full product while it is small, otherwise
// every single and pairwise variation of the first values.
func structVals(t reflect.Type, n int) []reflect.Value {
	nf := t.NumField()
	var alph [][]reflect.Value
	prod := 1
	per := n
	if nf > 1 {
		per = 3
	}
	for i := 0; i < nf; i++ {
		a := vals(t.Field(i).Type, per)
		alph = append(alph, a)
		prod *= len(a)
		if prod > 1<<20 {
			prod = 1 << 20
		}
	}
	var out []reflect.Value
	mk := func(ix []int) {
		s := reflect.New(t).Elem()
		for i := range ix {
			if t.Field(i).PkgPath == "" {
				s.Field(i).Set(alph[i][ix[i]])
			}
		}
		out = append(out, s)
	}
	if nf == 0 {
		mk(nil)
		return out
	}
	ix := make([]int, nf)
	if prod <= 64 {
		for {
			mk(ix)
			k := nf - 1
			for k >= 0 {
				ix[k]++
				if ix[k] < len(alph[k]) {
					break
				}
				ix[k] = 0
				k--
			}
			if k < 0 {
				return out
			}
		}
	}
	mk(ix)
	for i := 0; i < nf; i++ {
		for a := 1; a < len(alph[i]); a++ {
			ix[i] = a
			mk(ix)
			for j := i + 1; j < nf; j++ {
				for b := 1; b < len(alph[j]); b++ {
					ix[j] = b
					mk(ix)
				}
				ix[j] = 0
			}
		}
		ix[i] = 0
	}
	return out
}

// ---------------------------------------------------------------- S01

func roundTrip(v reflect.Value) error {
	t := v.Type()
	p := reflect.New(t)
	p.Elem().Set(v)
	b, err := serialization.Marshal(p.Interface())
	if err != nil {
		return fmt.Errorf("encoding %v %s failed: %v", t, show(v.Interface()), err)
	}
	ok, want := refMatches(b, v)
	if !ok {
		return fmt.Errorf("encoding %v %s gives\n %x, the format is\n %x", t, show(v.Interface()), b, want)
	}
	q := reflect.New(t)
	if err := serialization.Unmarshal(b, q.Interface()); err != nil {
		return fmt.Errorf("decoding %x as %v (%s) failed: %v", b, t, show(v.Interface()), err)
	}
	if !same(v, q.Elem()) {
		return fmt.Errorf("%v %s came back as %s", t, show(v.Interface()), show(q.Elem().Interface()))
	}
	return nil
}

func rtCases(c *Ctx, t reflect.Type, n int) bool {
	for _, v := range vals(t, n) {
		v := v
		if !c.Case(func() string { return fmt.Sprintf("%v = %s", t, show(v.Interface())) }, func() error {
			c.Step(2)
			c.Obs(refEncode(v, nil, nil))
			return roundTrip(v)
		}) {
			return false
		}
	}
	return true
}

type emb1 struct {
	A int32
	B string
}
type Emb2 struct {
	C uint16
	D []string
}
type Emb1 struct {
	A int32
	B string
}
type EmbInt int32
type EmbTop struct {
	X bool
	Emb1
	Y int8
	Emb2
	Z *Emb1
}
type EmbDeep struct {
	EmbTop
	Last uint64
}
type EmbScalar struct {
	A uint16
	EmbInt
	B uint16
}
type EmbStr string
type EmbMix struct {
	EmbStr
	Emb1
	V GUIDs
}
type GUIDs []serialization.GUID
type hidden struct {
	A uint16
	b uint16
	C string
	d chan int
}

func init() {
	add(&Scenario{Prop: "S01", Name: "single", Shards: 2,
		Bounds: "every struct with one field of each of 19 leaf kinds and of each constructor (pointer, slice, map key/value, struct) applied once and twice (three times in the thorough tier), every value of the boundary alphabets",
		Enum: func(c *Ctx) {
			d0 := leafTypes
			var d1, d2 []reflect.Type
			for _, t := range d0 {
				if !rtCases(c, structOf(t), 20) {
					return
				}
				d1 = append(d1, wrapTypes(t)...)
			}
			for _, t := range d1 {
				if !rtCases(c, structOf(t), 12) {
					return
				}
				d2 = append(d2, wrapTypes(t)...)
			}
			for _, t := range d2 {
				if !rtCases(c, structOf(t), 8) {
					return
				}
			}
			if c.Thorough {
				for _, t := range d2 {
					for _, u := range wrapTypes(t) {
						if !rtCases(c, structOf(u), 6) {
							return
						}
					}
				}
			}
		}})
	add(&Scenario{Prop: "S01", Name: "fields", Shards: 3,
		Bounds: "every struct of two fields (three in the thorough tier) over 28 field types (leaves, pointers, slices, maps, nested structs), products of the value alphabets",
		Enum: func(c *Ctx) {
			ts := append([]reflect.Type{}, leafTypes[:16]...)
			ts = append(ts, reflect.TypeOf([]string{}), reflect.TypeOf([]uint8{}), reflect.TypeOf([]*int32{}), reflect.TypeOf(map[string]int32{}),
				reflect.TypeOf([]serialization.GUID{}), reflect.TypeOf((*string)(nil)), reflect.TypeOf([]Emb1{}), reflect.TypeOf((*Emb2)(nil)), reflect.TypeOf(map[string][]string{}),
				reflect.TypeOf(EmbTop{}), reflect.TypeOf([]bool{}), reflect.TypeOf(map[string]Emb1{}))
			for _, a := range ts {
				for _, b := range ts {
					if !rtCases(c, structOf(a, b), 30) {
						return
					}
				}
			}
			if c.Thorough {
				for _, a := range ts {
					for _, b := range ts {
						for _, d := range ts {
							if !rtCases(c, structOf(a, b, d), 30) {
								return
							}
						}
					}
				}
			}
		}})
	add(&Scenario{Prop: "S01", Name: "named", Bounds: "embedded structs (one and two levels), embedded named scalars, unexported fields between exported ones, the library's own wire structs; products of the alphabets",
		Enum: func(c *Ctx) {
			for _, v := range []interface{}{EmbTop{}, EmbDeep{}, EmbScalar{}, EmbMix{}, struct{}{}, struct{ A struct{} }{},
				federation.RoutingHeader{}, federation.PToPHeader{}, federation.FederationPartnerNodeHeader{}, federation.GlobalLease{}, federation.RoutingToken{}, federation.TicketGap{}, federation.BootingInfo{}} {
				t := reflect.TypeOf(v)
				if hasRange(t) {
					continue
				}
				if !rtCases(c, t, 4000) {
					return
				}
			}
			for _, h := range []hidden{{}, {A: 1}, {A: 1, C: "q"}, {C: "q"}} {
				h := h
				if !c.Case(func() string { return show(h) }, func() error {
					c.Step(2)
					x := h
					x.b, x.d = 9, make(chan int)
					b, err := serialization.Marshal(&x)
					want := refMarshal(&struct {
						A uint16
						C string
					}{h.A, h.C})
					if err != nil || !bytes.Equal(b, want) {
						return fmt.Errorf("struct with unexported fields: %x %v, want %x", b, err, want)
					}
					var y hidden
					if err := serialization.Unmarshal(b, &y); err != nil || y.A != h.A || y.C != h.C || y.b != 0 || y.d != nil {
						return fmt.Errorf("struct with unexported fields came back as %+v %v", y, err)
					}
					return nil
				}) {
					return
				}
			}
			// big values: every string and slice length around the compressed-count boundaries
			for _, n := range []int{1, 2, 62, 63, 64, 65, 127, 128, 255, 256, 8190, 8191, 8192, 8193, 16383, 16384, 70000, 1 << 20} {
				for k := 0; k < 4; k++ {
					n, k := n, k
					if n > 20000 && k > 1 {
						continue
					}
					var v interface{}
					switch k {
					case 0:
						v = struct{ S string }{strings.Repeat("é", n)}
					case 1:
						v = struct {
							B []uint8
							T uint16
						}{bytes.Repeat([]byte{7}, n), 5}
					case 2:
						v = struct {
							B []string
							T uint16
						}{make([]string, n), 5}
					case 3:
						v = struct {
							B []Emb1
							T uint16
						}{make([]Emb1, n), 5}
					}
					if !c.Case(func() string { return fmt.Sprintf("%T with length %d", v, n) }, func() error { c.Step(2); return roundTrip(reflect.ValueOf(v)) }) {
						return
					}
				}
			}
		}})
	add(&Scenario{Prop: "S01", Name: "deep", Shards: 4, Bounds: "recursive values (through pointers, slice elements, map values, alternating pointers) nested 1..130 levels and 11 depths up to 4000, with fields before and after each level",
		Enum: enumDeep})
	add(&Scenario{Prop: "S01", Name: "unsupported", Bounds: "11 unsupported kinds x zero and non-zero value x 9 placements (alone, first, last, nested, pointer, slice element, map value, embedded, behind interface): must be refused",
		Enum: enumUnsupported})
	add(&Scenario{Prop: "S02", Name: "16bit", Shards: 2, Bounds: "all 2^16 values of int16 and uint16; every byte sequence of length 0..2 and every 3-byte sequence starting with a continuation (stride over the last byte in the quick tier: 16 values)",
		Enum: enumS02a})
	add(&Scenario{Prop: "S02", Name: "wide", Shards: 4, Bounds: "int32/uint32/int64/uint64: all values 0..2^17 and their negatives, every 2^k+d (|d|<=130), every combination of 7-bit groups over {00,3f,40,7f} (quick: 3 letters); decoding of every group sequence over an 8-letter alphabet up to the maximum length (32 bit) and 3/4 letters (64 bit)",
		Enum: enumS02b})
	add(&Scenario{Prop: "S02", Name: "32bit", Shards: 8, Thorough: true, Bounds: "all 2^32 values of int32 and of uint32, as slice elements of 65536 at a time: bytes compared with the reference, decoded back",
		Enum: enumS02all})
	add(&Scenario{Prop: "S02", Name: "counts", Bounds: "Encoder/Decoder compressed counts through a self-encoding type: 0..70000 and every 2^k+d; string counts around group boundaries",
		Enum: enumS02c})
	add(&Scenario{Prop: "S03", Name: "skew", Shards: 4, Bounds: "common prefixes of 0..2 fields x writer or reader extra fields of 0..2 over 18 field types x 8 nesting contexts (top, nested, pointer, slice element, map value, nested twice, slice in slice element, pointer in map), each followed by sentinel fields; values of the alphabets",
		Enum: enumS03})
	add(&Scenario{Prop: "S03", Name: "typeinfo", Bounds: "type information of length 1..200 in every object header of 120 structs",
		Enum: enumS03b})
	add(&Scenario{Prop: "S04", Name: "short", Shards: 3, Bounds: "every byte string of length 0..2 after each of the type bytes, and every sequence of up to 4 (5 thorough) tokens (26 type tags and counts) as object content, into 14 struct types",
		Enum: enumS04a})
	add(&Scenario{Prop: "S04", Name: "mutate", Shards: 5, Bounds: "for valid encodings of 16 types: every proper prefix (must be rejected), every single byte replaced by all 256 values, every 5-byte count overwrite at every position, pairs of positions over 9 values (thorough)",
		Enum: enumS04b})
	add(&Scenario{Prop: "S04", Name: "rewind", Shards: 2, Bounds: "documents whose strings, type information and paddings contain end markers and object fragments: every object size field replaced by every value from 0 to the document length + 8, decoded into 5 types (two recursive); crafted size fields that point backwards with 10..8000 claimed elements",
		Enum: enumS04c})
	add(&Scenario{Prop: "S05", Name: "text", Shards: 3, Bounds: "each of 16 bytes x 256 values x 3 backgrounds formatted and parsed in both cases; every single-character substitution of all 36 positions by all 256 bytes x 3 templates, pairs of substitutions over 9 characters, all lengths 0..40, multi-byte runes",
		Enum: enumS05a})
	add(&Scenario{Prop: "S05", Name: "generate", Bounds: "all 2^16 values of the two random bytes that carry version and variant (twice: little- and big-endian byte positions), all-zero and all-one randomness: every generated GUID must be version 4 with the RFC variant",
		Enum: enumS05b})
}

func hasRange(t reflect.Type) bool {
	if t == rangeT {
		return true
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasRange(t.Field(i).Type) {
				return true
			}
		}
	case reflect.Slice, reflect.Ptr, reflect.Map:
		return hasRange(t.Elem())
	}
	return false
}

type EmbChan struct{ Z chan int }
type EmbOnlyFunc func()

func enumUnsupported(c *Ctx) {
	one := 1
	var ifc interface{} = 5
	kinds := []interface{}{int(0), int(5), uint(0), uint(5), uintptr(0), uintptr(5), complex64(0), complex64(1), complex128(0), complex128(1i),
		(chan int)(nil), make(chan int), (func())(nil), func() {}, [2]int32{}, [2]int32{1, 2}, [0]int32{}, [][]string{{"a"}}, [][]string{}, []interface{}{}, []interface{}{&one},
		[]map[string]string{}, []map[string]string{{"a": "b"}}, []int{1}, []int{}, []chan int{}, []func(){func() {}}, &ifc}
	for _, k := range kinds {
		kv := reflect.ValueOf(k)
		t := kv.Type()
		u16 := reflect.TypeOf(uint16(0))
		inner := structOf(u16, t)
		iv := reflect.New(inner).Elem()
		iv.Field(0).SetUint(3)
		iv.Field(1).Set(kv)
		var tops []reflect.Value
		mk := func(ts []reflect.Type, vs ...reflect.Value) {
			s := reflect.New(structOf(ts...)).Elem()
			for i, v := range vs {
				s.Field(i).Set(v)
			}
			tops = append(tops, s)
		}
		seven := reflect.ValueOf(uint16(7))
		mk([]reflect.Type{t}, kv)
		mk([]reflect.Type{u16, t}, seven, kv)
		mk([]reflect.Type{t, u16}, kv, seven)
		mk([]reflect.Type{u16, inner, u16}, seven, iv, seven)
		p := reflect.New(inner)
		p.Elem().Set(iv)
		mk([]reflect.Type{u16, p.Type(), u16}, seven, p, seven)
		sl := reflect.Append(reflect.MakeSlice(reflect.SliceOf(inner), 0, 1), iv)
		mk([]reflect.Type{sl.Type(), u16}, sl, seven)
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
		m.SetMapIndex(reflect.ValueOf("k"), kv)
		mk([]reflect.Type{m.Type()}, m)
		pk := reflect.New(t)
		pk.Elem().Set(kv)
		mk([]reflect.Type{pk.Type()}, pk)
		emb := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: u16}, {Name: "Inner", Type: inner, Anonymous: true}})).Elem()
		emb.Field(1).Set(iv)
		tops = append(tops, emb)
		for _, v := range tops {
			v := v
			if !c.Case(func() string { return v.Type().String() }, func() error {
				c.Step(1)
				q := reflect.New(v.Type())
				q.Elem().Set(v)
				b, err := serialization.Marshal(q.Interface())
				c.Obs(v.Type().String(), err != nil)
				if err == nil {
					return fmt.Errorf("a value of unsupported kind was accepted: %v encoded as %x", v.Type(), b)
				}
				return nil
			}) {
				return
			}
		}
	}
	for _, bad := range []interface{}{nil, 5, "x", struct{ A int32 }{}, new(int32), (*Emb1)(nil), []string{"a"}, map[string]int32{}, new([]string)} {
		bad := bad
		if !c.Case(func() string { return fmt.Sprintf("top-level %T", bad) }, func() error {
			c.Step(2)
			if bad != nil {
				if b, err := serialization.Marshal(bad); err == nil {
					return fmt.Errorf("Marshal(%T) gave %x instead of an error", bad, b)
				}
				if err := serialization.Unmarshal([]byte{0, 11, 0, 0, 0, 0, 0, 0, 0, 0x1f, 0x2f, 0x3f}, bad); err == nil {
					return fmt.Errorf("Unmarshal into %T gave no error", bad)
				}
			}
			return nil
		}) {
			return
		}
	}
}

// ---------------------------------------------------------------- S02

type i16s struct{ V int16 }
type u16s struct{ V uint16 }
type i32s struct{ V int32 }
type u32s struct{ V uint32 }
type i64s struct{ V int64 }
type u64s struct{ V uint64 }

func intRT(p, q interface{}, tag byte, enc []byte, zero bool) error {
	b, err := serialization.Marshal(p)
	if err != nil {
		return err
	}
	f := []byte{tag | mEmpty}
	if !zero {
		f = append([]byte{tag}, enc...)
	}
	if want := refObj(f); !bytes.Equal(b, want) {
		return fmt.Errorf("%+v encodes as %x, the canonical form is %x", p, b, want)
	}
	if err := serialization.Unmarshal(b, q); err != nil {
		return fmt.Errorf("%+v (%x) does not decode: %v", p, b, err)
	}
	if !reflect.DeepEqual(p, q) {
		return fmt.Errorf("%+v came back as %+v", p, q)
	}
	return nil
}

func (c *Ctx) vi(v int64, bits int) bool {
	return c.Case(func() string { return fmt.Sprintf("int%d %d", bits, v) }, func() error {
		c.Step(2)
		e := refVarS64(v)
		c.Obs(e)
		switch bits {
		case 16:
			return intRT(&i16s{int16(v)}, new(i16s), 5, e, v == 0)
		case 32:
			return intRT(&i32s{int32(v)}, new(i32s), 7, e, v == 0)
		}
		return intRT(&i64s{v}, new(i64s), 9, e, v == 0)
	})
}

func (c *Ctx) vu(v uint64, bits int) bool {
	return c.Case(func() string { return fmt.Sprintf("uint%d %d", bits, v) }, func() error {
		c.Step(2)
		e := refVarU(v)
		c.Obs(e)
		switch bits {
		case 16:
			return intRT(&u16s{uint16(v)}, new(u16s), 6, e, v == 0)
		case 32:
			return intRT(&u32s{uint32(v)}, new(u32s), 8, e, v == 0)
		}
		return intRT(&u64s{v}, new(u64s), 10, e, v == 0)
	})
}

// decSeq decodes a raw group sequence as each type of the width and compares with the reference.
func (c *Ctx) decSeq(seq []byte, bits int) bool {
	return c.Case(func() string { return fmt.Sprintf("%d-bit sequence %x", bits, seq) }, func() error {
		c.Step(2)
		d := &refDec{seq}
		var want uint64
		err := guarded(func() error { want = d.varU(bits); return nil })
		trunc := err != nil
		if !trunc && len(d.b) > 0 {
			return nil // more bytes than the value: not this case
		}
		for sg := 0; sg < 2; sg++ {
			var p interface{}
			var tag byte
			switch bits {
			case 16:
				p, tag = interface{}(new(i16s)), 5
				if sg == 1 {
					p, tag = new(u16s), 6
				}
			case 32:
				p, tag = new(i32s), 7
				if sg == 1 {
					p, tag = new(u32s), 8
				}
			default:
				p, tag = new(i64s), 9
				if sg == 1 {
					p, tag = new(u64s), 10
				}
			}
			full := refObj(append([]byte{tag}, seq...))
			var err error
			if trunc {
				full = full[:len(full)-2] // the input ends inside the integer
			}
			err = serialization.Unmarshal(full, p)
			if trunc {
				if err == nil {
					return fmt.Errorf("%d-bit sequence %x is truncated or too long but decodes to %+v", bits, seq, p)
				}
				if len(seq) < (bits+6)/7 {
					continue
				}
				// too long already: whatever completes it must be rejected too
				for _, more := range []int{0, 1, 10 - len(seq), 11 - len(seq)} {
					if more < 0 {
						continue
					}
					for _, last := range []byte{1, 0x40} {
						s := append(append([]byte{}, seq...), bytes.Repeat([]byte{0x80}, more)...)
						s = append(s, last)
						for _, enc := range [][]byte{refObj(append([]byte{tag}, s...)), append(append([]byte{}, full...), s[len(seq):]...)} {
							if err := serialization.Unmarshal(enc, p); err == nil {
								return fmt.Errorf("%d-bit sequence %x is too long but decodes to %+v", bits, s, p)
							}
						}
						if bits != 32 {
							continue
						}
						// the same as a count
						var q struct{ P refPair }
						if err := serialization.Unmarshal(refObj(append(append([]byte{0x0e}, s...), 1, 2, 3, 4)), &q); err == nil {
							return fmt.Errorf("count sequence %x is too long but decodes to %+v", s, q)
						}
					}
				}
				continue
			}
			// values outside the width have no defined result
			if bits < 64 {
				if sg == 0 {
					if s := int64(want); s < -(1<<(bits-1)) || s >= 1<<(bits-1) {
						continue
					}
				} else if want >= 1<<bits {
					continue
				}
			} else if len(seq) == 10 {
				if sg == 0 && seq[0] != 0x80 && seq[0] != 0xff {
					continue
				}
				if sg == 1 && seq[0] != 0x80 && seq[0] != 0x81 {
					continue
				}
			}
			if err != nil {
				return fmt.Errorf("%d-bit sequence %x fails: %v", bits, seq, err)
			}
			rv := reflect.ValueOf(p).Elem().Field(0)
			got := uint64(0)
			if sg == 0 {
				got = uint64(rv.Int())
			} else {
				got = rv.Uint()
			}
			if got != want {
				return fmt.Errorf("%d-bit sequence %x decodes to %x instead of %x", bits, seq, got, want)
			}
		}
		c.Obs(want, trunc)
		return nil
	})
}

func enumS02a(c *Ctx) {
	for v := 0; v < 1<<16; v++ {
		if !c.vi(int64(int16(v)), 16) || !c.vu(uint64(v), 16) {
			return
		}
	}
	if !c.decSeq(nil, 16) {
		return
	}
	for a := 0; a < 256; a++ {
		if !c.decSeq([]byte{byte(a)}, 16) {
			return
		}
		for b := 0; b < 256; b++ {
			if a < 128 {
				break
			}
			if !c.decSeq([]byte{byte(a), byte(b)}, 16) {
				return
			}
			if b < 128 {
				continue
			}
			for d := 0; d < 256; d++ {
				if !c.Thorough && d&7 != 0 && d&7 != 7 {
					continue
				}
				if !c.decSeq([]byte{byte(a), byte(b), byte(d)}, 16) {
					return
				}
			}
		}
	}
}

func enumS02b(c *Ctx) {
	for _, bits := range []int{32, 64} {
		lim := int64(1) << 17
		if c.Thorough {
			lim = 1 << 21
		}
		for v := int64(0); v < lim; v++ {
			if !c.vi(v, bits) || !c.vi(-v, bits) || !c.vu(uint64(v), bits) {
				return
			}
		}
		for k := 0; k < bits; k++ {
			for d := int64(-130); d <= 130; d++ {
				u := uint64(1)<<uint(k) + uint64(d)
				if bits == 32 {
					u = uint64(uint32(u))
				}
				if !c.vu(u, bits) {
					return
				}
				s := int64(u)
				if bits == 32 {
					s = int64(int32(uint32(u)))
				}
				if !c.vi(s, bits) || (s != math.MinInt32 || bits != 32) && !c.vi(-s, bits) {
					return
				}
			}
		}
		letters := []uint64{0, 0x40, 0x7f, 0x3f}
		groups := 5
		if bits == 64 {
			groups = 10
			if !c.Thorough {
				letters = letters[:3]
			}
		}
		tot := 1
		for i := 0; i < groups; i++ {
			tot *= len(letters)
		}
		for i := 0; i < tot; i++ {
			v := uint64(0)
			for k, j := 0, i; k < groups; k++ {
				v = v<<7 | letters[j%len(letters)]
				j /= len(letters)
			}
			if bits == 32 {
				if !c.vu(uint64(uint32(v)), 32) || !c.vi(int64(int32(uint32(v))), 32) {
					return
				}
			} else if !c.vu(v, 64) || !c.vi(int64(v), 64) {
				return
			}
		}
		// sequences: continuation groups then a final (or missing final) group
		alpha := []byte{0, 0x3f, 0x40, 0x7f, 1, 0x20, 0x6f, 0x0f}
		if bits == 64 {
			alpha = alpha[:3]
			if c.Thorough {
				alpha = []byte{0, 0x3f, 0x40, 0x7f}
			}
		} else if !c.Thorough {
			alpha = alpha[:5]
		}
		seq := make([]byte, 0, groups+1)
		var rec func() bool
		rec = func() bool {
			for _, a := range alpha {
				if !c.decSeq(append(append([]byte(nil), seq...), a), bits) {
					return false
				}
			}
			if len(seq) == groups {
				return true
			}
			for _, a := range alpha {
				seq = append(seq, a|0x80)
				if !c.decSeq(append([]byte(nil), seq...), bits) || !rec() {
					return false
				}
				seq = seq[:len(seq)-1]
			}
			return true
		}
		if !rec() {
			return
		}
	}
}

// enumS02all: every 32-bit value.
func enumS02all(c *Ctx) {
	const chunk = 1 << 16
	s, u := make([]int32, chunk), make([]uint32, chunk)
	want := make([]byte, 0, chunk*6+100)
	one := func(tag byte, hi int, in interface{}, el func(i int) []byte, zero int) error {
		want = append(want[:0], tag|mArray)
		want = append(want, refVarU(chunk)...)
		for i := 0; i < chunk; i++ {
			if i == zero {
				want = append(want, tag|mEmpty)
				continue
			}
			want = append(want, tag)
			want = append(want, el(i)...)
		}
		b, err := serialization.Marshal(in)
		if err != nil {
			return err
		}
		if w := refObj(want); !bytes.Equal(b, w) {
			for i := range w {
				if i >= len(b) || b[i] != w[i] {
					return fmt.Errorf("encodings differ at byte %d: %x, expected %x", i, clip(b[i:]), clip(w[i:]))
				}
			}
			return fmt.Errorf("%d bytes too many", len(b)-len(w))
		}
		return nil
	}
	for hi := 0; hi < 1<<16; hi++ {
		hi := hi
		if !c.Case(func() string { return fmt.Sprintf("values %#x0000 to %#xffff", hi, hi) }, func() error {
			c.Step(4 * chunk)
			c.Obs(hi)
			for i := range s {
				u[i] = uint32(hi)<<16 | uint32(i)
				s[i] = int32(u[i])
			}
			zero := -1
			if hi == 0 {
				zero = 0
			}
			si, ui := &struct{ A []int32 }{s}, &struct{ A []uint32 }{u}
			var so struct{ A []int32 }
			var uo struct{ A []uint32 }
			if err := one(7, hi, si, func(i int) []byte { return refVarS64(int64(s[i])) }, zero); err != nil {
				return fmt.Errorf("int32: %v", err)
			}
			if err := serialization.Unmarshal(refObj(want), &so); err != nil {
				return err
			}
			if err := one(8, hi, ui, func(i int) []byte { return refVarU(uint64(u[i])) }, zero); err != nil {
				return fmt.Errorf("uint32: %v", err)
			}
			if err := serialization.Unmarshal(refObj(want), &uo); err != nil {
				return err
			}
			if len(so.A) != chunk || len(uo.A) != chunk {
				return fmt.Errorf("decoded %d and %d elements", len(so.A), len(uo.A))
			}
			for i := range s {
				if so.A[i] != s[i] || uo.A[i] != u[i] {
					return fmt.Errorf("%d decodes to %d, %d to %d", s[i], so.A[i], u[i], uo.A[i])
				}
			}
			return nil
		}) {
			return
		}
	}
}

func enumS02c(c *Ctx) {
	check := func(v uint32) bool {
		return c.Case(func() string { return fmt.Sprintf("count %d", v) }, func() error {
			c.Step(2)
			p := &struct {
				P refPair
				T uint16
			}{refPair{v, 0x01020304}, 9}
			q := &struct {
				P refPair
				T uint16
			}{}
			b, err := serialization.Marshal(p)
			if err != nil {
				return err
			}
			if want := refMarshal(p); !bytes.Equal(b, want) {
				return fmt.Errorf("count %d encodes as %x, want %x", v, b, want)
			}
			c.Obs(b)
			if err := serialization.Unmarshal(b, q); err != nil {
				return fmt.Errorf("count %d (%x): %v", v, b, err)
			}
			if *p != *q {
				return fmt.Errorf("count %d came back as %+v", v, q)
			}
			return nil
		})
	}
	for v := uint32(0); v < 70000; v++ {
		if !check(v) {
			return
		}
	}
	for k := 0; k < 32; k++ {
		for d := -70; d <= 70; d++ {
			if !check(uint32(1)<<uint(k) + uint32(d)) {
				return
			}
		}
	}
	for n := 0; n < 300; n++ {
		n := n
		if !c.Case(func() string { return fmt.Sprintf("string length %d", n) }, func() error {
			c.Step(2)
			return roundTrip(reflect.ValueOf(struct {
				S string
				B []uint8
				M map[uint16]string
			}{strings.Repeat("k", n), make([]uint8, n), map[uint16]string{uint16(n): "v"}}))
		}) {
			return
		}
	}
}

// ---------------------------------------------------------------- S03

// skewPut copies the common leading fields (per nesting) of a writer value into the
// expected reader value.
func commonPrefix(dst, src reflect.Value) {
	n := dst.NumField()
	if src.NumField() < n {
		n = src.NumField()
	}
	for i := 0; i < n; i++ {
		if dst.Field(i).Type() == src.Field(i).Type() {
			dst.Field(i).Set(src.Field(i))
		}
	}
}

func enumS03(c *Ctx) {
	u16 := reflect.TypeOf(uint16(0))
	str := reflect.TypeOf("")
	fts := append([]reflect.Type{}, leafTypes[:15]...)
	fts = append(fts, reflect.TypeOf([]string{}), reflect.TypeOf(&Emb1{}), reflect.TypeOf(map[string]int32{}), reflect.TypeOf([]Emb1{}))
	prefixes := [][]reflect.Type{{}, {u16}, {str, reflect.TypeOf(false)}, {reflect.TypeOf([]Emb1{}), guidT}}
	var extras [][]reflect.Type
	for _, t := range fts {
		extras = append(extras, []reflect.Type{t}, []reflect.Type{t, str}, []reflect.Type{reflect.TypeOf(int8(0)), t})
	}
	for _, pre := range prefixes {
		for _, ex := range extras {
			long := structOf(append(append([]reflect.Type{}, pre...), ex...)...)
			short := structOf(pre...)
			for dir := 0; dir < 2; dir++ {
				wt, rt := long, short
				if dir == 1 {
					wt, rt = short, long
				}
				nv := 4
				if c.Thorough {
					nv = 12
				}
				for vi, wv := range vals(wt, nv) {
					// the writer's second value for containers with two elements
					all := vals(wt, nv)
					wv2 := all[(vi+1)%len(all)]
					for ctx := 0; ctx < 8; ctx++ {
						wv, wv2, ctx, dir := wv, wv2, ctx, dir
						if !c.Case(func() string {
							return fmt.Sprintf("context %d writer %v=%s reader %v", ctx, wt, show(wv.Interface()), rt)
						}, func() error {
							c.Step(1)
							return skewCase(c, ctx, wt, rt, wv, wv2, dir)
						}) {
							return
						}
					}
				}
			}
		}
	}
}

type ctxBuild func(t reflect.Type) reflect.Type

// skewCase embeds the skewed object in a context, encodes it as the writer and decodes as the reader.
func skewCase(c *Ctx, ctx int, wt, rt reflect.Type, wv, wv2 reflect.Value, dir int) error {
	u32 := reflect.TypeOf(uint32(0))
	str := reflect.TypeOf("")
	shape := func(t reflect.Type) reflect.Type {
		switch ctx {
		case 0:
			return t
		case 1:
			return structOf(u32, t, str)
		case 2:
			return structOf(u32, reflect.PtrTo(t), str)
		case 3:
			return structOf(u32, reflect.SliceOf(t), str)
		case 4:
			return structOf(u32, reflect.MapOf(str, t), str)
		case 5:
			return structOf(structOf(structOf(t, u32), str), u32)
		case 6:
			return structOf(reflect.SliceOf(structOf(reflect.SliceOf(t), u32)), str)
		}
		return structOf(reflect.MapOf(u32, reflect.PtrTo(t)), reflect.SliceOf(reflect.PtrTo(t)), str)
	}
	conv := func(t reflect.Type, v reflect.Value) reflect.Value {
		if v.Type() == t {
			return v
		}
		o := reflect.New(t).Elem()
		commonPrefix(o, v)
		return o
	}
	build := func(t reflect.Type) reflect.Value {
		a, b := conv(t, wv), conv(t, wv2)
		pa, pb := reflect.New(t), reflect.New(t)
		pa.Elem().Set(a)
		pb.Elem().Set(b)
		st := shape(t)
		s := reflect.New(st).Elem()
		sent := func(i int) {
			f := s.Field(i)
			if f.Kind() == reflect.String {
				f.SetString("sentinel")
			} else {
				f.SetUint(0xdead)
			}
		}
		list := func(st reflect.Type, vs ...reflect.Value) reflect.Value {
			return reflect.Append(reflect.MakeSlice(st, 0, 2), vs...)
		}
		switch ctx {
		case 0:
			s.Set(a)
		case 1:
			sent(0)
			s.Field(1).Set(a)
			sent(2)
		case 2:
			sent(0)
			s.Field(1).Set(pa)
			sent(2)
		case 3:
			sent(0)
			s.Field(1).Set(list(reflect.SliceOf(t), a, b, a))
			sent(2)
		case 4:
			sent(0)
			m := reflect.MakeMap(reflect.MapOf(str, t))
			m.SetMapIndex(reflect.ValueOf("x"), a)
			m.SetMapIndex(reflect.ValueOf("y"), b)
			s.Field(1).Set(m)
			sent(2)
		case 5:
			s.Field(0).Field(0).Field(0).Set(a)
			s.Field(0).Field(0).Field(1).SetUint(1)
			s.Field(0).Field(1).SetString("z")
			sent(1)
		case 6:
			et := s.Field(0).Type().Elem()
			e1, e2 := reflect.New(et).Elem(), reflect.New(et).Elem()
			e1.Field(0).Set(list(reflect.SliceOf(t), a, b))
			e1.Field(1).SetUint(1)
			e2.Field(0).Set(list(reflect.SliceOf(t), b))
			e2.Field(1).SetUint(2)
			s.Field(0).Set(list(s.Field(0).Type(), e1, e2))
			sent(1)
		case 7:
			m := reflect.MakeMap(s.Field(0).Type())
			m.SetMapIndex(reflect.ValueOf(uint32(1)), pa)
			m.SetMapIndex(reflect.ValueOf(uint32(2)), reflect.Zero(reflect.PtrTo(t)))
			s.Field(0).Set(m)
			s.Field(1).Set(list(s.Field(1).Type(), pb, reflect.Zero(reflect.PtrTo(t)), pa))
			sent(2)
		}
		return s
	}
	w := build(wt)
	want := build(rt)
	data := refEncode(w, nil, nil)
	c.Obs(data, rt.String())
	p := reflect.New(want.Type())
	if dir == 1 && ctx <= 1 {
		// fields the writer does not know must keep what they held
		fill := vals(rt, 1)[0]
		tgt, wt2 := p.Elem(), want
		if ctx == 1 {
			tgt, wt2 = p.Elem().Field(1), want.Field(1)
		}
		tgt.Set(fill)
		for i := wt.NumField(); i < rt.NumField(); i++ {
			wt2.Field(i).Set(fill.Field(i))
		}
	}
	// a target that holds an earlier object: elements are new ones, and whoever shares the
	// earlier slices and pointers does not see them change
	var shared, before reflect.Value
	var sharedMap reflect.Value
	mapLen := 0
	if ctx == 2 || ctx == 3 || ctx == 4 || ctx == 6 || ctx == 7 {
		fill := vals(rt, 1)[0]
		for _, v := range vals(rt, 3) {
			fill = v
		}
		old := reflect.New(rt).Elem()
		old.Set(fill)
		switch ctx {
		case 2:
			q := reflect.New(rt)
			q.Elem().Set(old)
			p.Elem().Field(1).Set(q)
			shared = q.Elem()
		case 3:
			l := reflect.MakeSlice(reflect.SliceOf(rt), 0, 8)
			for i := 0; i < 5; i++ {
				l = reflect.Append(l, old)
			}
			p.Elem().Field(1).Set(l)
			shared = l.Index(0)
		case 4:
			mm := reflect.MakeMap(reflect.MapOf(str, rt))
			mm.SetMapIndex(reflect.ValueOf("x"), old)
			mm.SetMapIndex(reflect.ValueOf("earlier"), old)
			p.Elem().Field(1).Set(mm)
			sharedMap, mapLen, shared = mm, 2, old
		case 7:
			q := reflect.New(rt)
			q.Elem().Set(old)
			mm := reflect.MakeMap(p.Elem().Field(0).Type())
			for _, k := range []uint32{1, 2, 9} {
				mm.SetMapIndex(reflect.ValueOf(k), q)
			}
			p.Elem().Field(0).Set(mm)
			p.Elem().Field(1).Set(reflect.Append(reflect.MakeSlice(p.Elem().Field(1).Type(), 0, 8), q, q, q, q))
			sharedMap, mapLen, shared = mm, 3, q.Elem()
		case 6:
			et := p.Elem().Field(0).Type().Elem()
			e := reflect.New(et).Elem()
			in := reflect.MakeSlice(reflect.SliceOf(rt), 0, 8)
			for i := 0; i < 5; i++ {
				in = reflect.Append(in, old)
			}
			e.Field(0).Set(in)
			p.Elem().Field(0).Set(reflect.Append(reflect.MakeSlice(reflect.SliceOf(et), 0, 8), e, e, e))
			shared = in.Index(0)
		}
		before = reflect.New(rt).Elem()
		before.Set(old)
	}
	if err := serialization.Unmarshal(data, p.Interface()); err != nil {
		return fmt.Errorf("reader %v of writer %v: %v\n data %x", want.Type(), w.Type(), err, data)
	}
	if before.IsValid() && !same(before, shared) {
		return fmt.Errorf("reader %v of writer %v changed an object decoded earlier into the same variable: %s became %s", want.Type(), w.Type(), show(before.Interface()), show(shared.Interface()))
	}
	if sharedMap.IsValid() && sharedMap.Len() != mapLen {
		return fmt.Errorf("reader %v of writer %v changed a map decoded earlier into the same variable: it has %d entries instead of %d", want.Type(), w.Type(), sharedMap.Len(), mapLen)
	}
	if !same(want, p.Elem()) {
		return fmt.Errorf("reader %v of writer %v got %s\n want %s\n data %x", want.Type(), w.Type(), show(p.Elem().Interface()), show(want.Interface()), data)
	}
	// the writer's own bytes are the reference bytes
	wp := reflect.New(w.Type())
	wp.Elem().Set(w)
	b, err := serialization.Marshal(wp.Interface())
	if err != nil {
		return err
	}
	if ok, _ := refMatches(b, w); !ok {
		return fmt.Errorf("writer bytes %x, want %x", b, data)
	}
	return nil
}

func enumS03b(c *Ctx) {
	types := []reflect.Type{reflect.TypeOf(Emb1{}), reflect.TypeOf(EmbTop{}), reflect.TypeOf(EmbDeep{}), reflect.TypeOf(EmbMix{}), reflect.TypeOf(struct {
		M map[string]Emb1
		L []EmbTop
		P *EmbDeep
		T uint16
	}{}), reflect.TypeOf(struct{}{})}
	for _, t := range types {
		for _, v := range vals(t, 20) {
			for _, n := range []int{1, 2, 9, 10, 11, 63, 64, 200, 9000} {
				for _, fill := range []byte{0x2f, 0x3f, 0x1f, 0, 0xff} {
					v, n, fill := v, n, fill
					if !c.Case(func() string { return fmt.Sprintf("type information of %d bytes %#x in %v", n, fill, v.Type()) }, func() error {
						c.Step(1)
						for _, other := range []byte{0, 2, 0x40, 0xfe} { // further flags next to the one for type information
							headerFlags = other
							data := refEncode(v, nil, bytes.Repeat([]byte{fill}, n))
							plain := refEncode(v, nil, nil)
							headerFlags = 0
							c.Obs(data)
							for _, data := range [][]byte{data, plain} {
								p := reflect.New(v.Type())
								if err := serialization.Unmarshal(data, p.Interface()); err != nil {
									return fmt.Errorf("%v with type information and flags %x: %v\n %x", v.Type(), other, err, data)
								}
								if !same(v, p.Elem()) {
									return fmt.Errorf("%v with type information and flags %x came back as %s instead of %s", v.Type(), other, show(p.Elem().Interface()), show(v.Interface()))
								}
							}
						}
						return nil
					}) {
						return
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- S04

type recT struct {
	V uint16
	L *recT
	R *recT
}

// enumDeep encodes and decodes values of recursive types.
func enumDeep(c *Ctx) {
	var ns []int
	for n := 1; n <= 130; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 199, 255, 256, 257, 511, 513, 1000, 1025, 2000, 3000, 4000)
	for _, n := range ns {
		for k := 0; k < 4; k++ {
			n, k := n, k
			if !c.Case(func() string { return fmt.Sprintf("%d levels, kind %d", n, k) }, func() error {
				c.Step(2)
				c.Obs(n, k)
				var v interface{}
				switch k {
				case 0, 3:
					var t *recT
					for i := 0; i < n; i++ {
						u := &recT{V: uint16(i)}
						if k == 3 && i%2 == 1 {
							u.R = t
						} else {
							u.L = t
						}
						t = u
					}
					v = t
				case 1:
					t := recS{}
					for i := 0; i < n; i++ {
						t = recS{A: []recS{t}, V: uint8(i)}
						if i%7 == 3 {
							t.A = append(t.A, recS{V: 1})
						}
					}
					v = &t
				case 2:
					t := recM{}
					for i := 0; i < n; i++ {
						t = recM{M: map[uint8]recM{uint8(i): t}}
					}
					v = &t
				}
				rv := reflect.ValueOf(v).Elem()
				b, err := serialization.Marshal(v)
				if err != nil {
					return fmt.Errorf("encoding failed: %v", err)
				}
				if want := refMarshal(v); !bytes.Equal(b, want) {
					return fmt.Errorf("%d bytes, the format has %d", len(b), len(want))
				}
				q := reflect.New(rv.Type())
				if err := serialization.Unmarshal(b, q.Interface()); err != nil {
					return fmt.Errorf("decoding %d bytes failed: %v", len(b), err)
				}
				if !same(rv, q.Elem()) {
					return fmt.Errorf("came back different")
				}
				return nil
			}) {
				return
			}
		}
	}
}

type recS struct {
	A []recS
	V uint8
}
type recM struct {
	M map[uint8]recM
}

func s04types() []reflect.Type {
	return []reflect.Type{
		reflect.TypeOf(struct{ V uint8 }{}), reflect.TypeOf(struct{ V int8 }{}), reflect.TypeOf(struct{ A, B uint32 }{}), reflect.TypeOf(struct{ A int16 }{}),
		reflect.TypeOf(struct{ S string }{}), reflect.TypeOf(struct{ S []string }{}), reflect.TypeOf(struct{ S []Emb1 }{}), reflect.TypeOf(struct{ S []*Emb1 }{}),
		reflect.TypeOf(struct{ S []uint8 }{}), reflect.TypeOf(struct{ M map[string]int32 }{}), reflect.TypeOf(struct{ M map[int8]string }{}), reflect.TypeOf(struct{ G serialization.GUID }{}),
		reflect.TypeOf(struct{ N []federation.NodeID }{}), reflect.TypeOf(EmbTop{}), reflect.TypeOf(recT{}), reflect.TypeOf(recS{}),
		reflect.TypeOf(struct {
			F float64
			P *float32
			B *bool
		}{}),
		reflect.TypeOf(struct{ S []uint64 }{}), reflect.TypeOf(struct{ S []big }{}),
	}
}

type big struct {
	A, B, C, D, E, F, G, H string
	I                      [0]int
}

func init() { _ = emb1{} }

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// totalDecode decodes arbitrary bytes and judges totality and memory.
func totalDecode(c *Ctx, t reflect.Type, data []byte) (bool, error) {
	c.Step(1)
	p := reflect.New(t)
	before := allocated()
	err := serialization.Unmarshal(data, p.Interface())
	if d := allocated() - before; d > uint64(1<<20+4096*len(data)) {
		return false, fmt.Errorf("decoding %d bytes %x as %v allocated %d bytes", len(data), clip(data), t, d)
	}
	if err == nil {
		c.Obs(t.String(), show(p.Elem().Interface()))
	} else {
		c.Obs(t.String(), "error")
	}
	return err == nil, nil
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func enumS04a(c *Ctx) {
	toks := [][]byte{{0x00, 20, 0, 0, 0, 0, 0, 0, 0, 0x1f}, {0x00, 0, 0, 0, 0, 0, 0, 0, 0, 0x1f}, {0x00, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0x1f}, {0x2f}, {0x3f}, {0x2f, 0x3f}, {0x01}, {0x41}, {0x42}, {0x02}, {0x03}, {0x04}, {0x05}, {0x06}, {0x08}, {0x0b}, {0x0c},
		{0x8d}, {0x80}, {0x84}, {0xc0}, {0x00}, {0x01, 0x01}, {0x05, 0x41}, {0x8f, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0xbf, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff, 0x7f}, {0x01, 0, 0, 0, 0}}
	run := func(t reflect.Type, data []byte) bool {
		return c.Case(func() string { return fmt.Sprintf("%v from %x", t, data) }, func() error {
			_, err := totalDecode(c, t, data)
			return err
		})
	}
	types := s04types()
	for _, t := range types {
		if !run(t, nil) {
			return
		}
		for a := 0; a < 256; a++ {
			if !run(t, []byte{byte(a)}) {
				return
			}
			for b := 0; b < 256; b++ {
				if !run(t, []byte{byte(a), byte(b)}) {
					return
				}
			}
		}
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for _, t := range types {
		var rec func(pre []byte, d int) bool
		rec = func(pre []byte, d int) bool {
			for _, k := range toks {
				b := append(append([]byte(nil), pre...), k...)
				if !run(t, refObj(b)) || !run(t, refObj(b)[:10+len(b)]) {
					return false
				}
				if d > 1 && !rec(b, d-1) {
					return false
				}
			}
			return true
		}
		if !rec(nil, depth) {
			return
		}
	}
	// nesting as deep as the input is long
	for _, n := range []int{100, 5000, 100000, 3000000} {
		for k := 0; k < 6; k++ {
			n, k := n, k
			if !c.Case(func() string { return fmt.Sprintf("%d levels, kind %d", n, k) }, func() error {
				lvl := [][]byte{{0x46, 0x01}, {0x01}, {0x80, 0x01}, {0x80, 0x01, 0x00, 0, 0, 0, 0, 0, 0, 0, 0, 0x1f}, {0x80, 0x01, 0x01, 0x04, 0x05}, {0x46, 0x01, 0x00, 0, 0, 0, 0, 0, 0, 0, 0, 0x1f}}[k]
				b := append(refObj(nil)[:10:10], bytes.Repeat(lvl, n)...)
				t := []reflect.Type{reflect.TypeOf(recT{}), reflect.TypeOf(recT{}), reflect.TypeOf(recS{}), reflect.TypeOf(recS{}), reflect.TypeOf(recM{}), reflect.TypeOf(recT{})}[k]
				_, err := totalDecode(c, t, b)
				return err
			}) {
				return
			}
		}
	}
	// deep nesting claims
	for _, n := range []int{10, 100, 1000, 5000} {
		n := n
		for k := 0; k < 3; k++ {
			k := k
			if !c.Case(func() string { return fmt.Sprintf("nesting %d variant %d", n, k) }, func() error {
				var b []byte
				for i := 0; i < n; i++ {
					if k == 2 {
						b = append(b, 0x00, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0x1f, 0x80, 0x3f)
					} else {
						b = append(b, 0x00, byte(k), 0, 0, 0, 0, 0, 0, 0, 0x1f, 0x46, 0x01)
					}
				}
				t := reflect.TypeOf(recT{})
				if k == 2 {
					t = reflect.TypeOf(recS{})
				}
				_, err := totalDecode(c, t, b)
				return err
			}) {
				return
			}
		}
	}
}

func enumS04b(c *Ctx) {
	var ms []reflect.Value
	for _, t := range s04types() {
		vs := vals2(t)
		ms = append(ms, vs...)
	}
	ints := []byte{0, 1, 0x2f, 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff}
	for _, v := range ms {
		data := refEncode(v, nil, nil)
		t := v.Type()
		if len(data) > 400 {
			continue
		}
		for n := 0; n < len(data); n++ {
			n := n
			if !c.Case(func() string { return fmt.Sprintf("prefix %d of %x as %v", n, data, t) }, func() error {
				ok, err := totalDecode(c, t, data[:n])
				if err == nil && ok {
					return fmt.Errorf("the first %d of %d bytes of %x are accepted as %v", n, len(data), data, t)
				}
				return err
			}) {
				return
			}
		}
		for i := range data {
			for x := 0; x < 256; x++ {
				m := append([]byte(nil), data...)
				m[i] = byte(x)
				if !c.Case(func() string { return fmt.Sprintf("%x as %v", m, t) }, func() error { _, err := totalDecode(c, t, m); return err }) {
					return
				}
			}
			for _, w := range [][]byte{{0x8f, 0xff, 0xff, 0xff, 0x7f}, {0x87, 0xff, 0xff, 0xff, 0x7f}, {0x80, 0x84, 0x80, 0x80, 0x00}, {0x80, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0x7f}, {0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0x7f}, {1, 0, 0, 0}, {0, 0, 0, 0x80}} {
				for mode := 0; mode < 2; mode++ {
					var m []byte
					if mode == 0 { // replace
						m = append(append(append([]byte(nil), data[:i]...), w...), tailOf(data, i+len(w))...)
					} else { // replace one byte
						m = append(append(append([]byte(nil), data[:i]...), w...), data[i+1:]...)
					}
					if !c.Case(func() string { return fmt.Sprintf("%x as %v", m, t) }, func() error { _, err := totalDecode(c, t, m); return err }) {
						return
					}
				}
			}
		}
		step := 4
		if c.Thorough {
			step = 1
		}
		for i := 0; i < len(data); i++ {
			for j := i + 1; j < len(data); j += step {
				if !c.Thorough && len(data) > 80 {
					break
				}
				for _, x := range ints {
					for _, y := range ints {
						m := append([]byte(nil), data...)
						m[i], m[j] = x, y
						if !c.Case(func() string { return fmt.Sprintf("%x as %v", m, t) }, func() error { _, err := totalDecode(c, t, m); return err }) {
							return
						}
					}
				}
			}
		}
	}
}

func tailOf(b []byte, n int) []byte {
	if n > len(b) {
		return nil
	}
	return b[n:]
}

func vals2(t reflect.Type) []reflect.Value {
	switch t {
	case reflect.TypeOf(recT{}):
		return rvs(recT{V: 3, L: &recT{V: 1}, R: &recT{L: &recT{}}}, recT{})
	case reflect.TypeOf(recS{}):
		return rvs(recS{A: []recS{{V: 1}, {A: []recS{{}}}}, V: 2})
	case reflect.TypeOf(struct{ S []big }{}):
		return nil
	case reflect.TypeOf(EmbTop{}):
		return rvs(EmbTop{true, Emb1{5, "ab"}, -3, Emb2{700, []string{"x", ""}}, &Emb1{-1, "z"}})
	}
	v := vals(t, 9)
	if len(v) > 3 {
		v = append(v[:3:3], v[len(v)-1])
	}
	return v
}

// ---------------------------------------------------------------- S05

func refGuidText(g serialization.GUID) string {
	const hex = "0123456789abcdef"
	b := []byte{byte(g.Data1 >> 24), byte(g.Data1 >> 16), byte(g.Data1 >> 8), byte(g.Data1), byte(g.Data2 >> 8), byte(g.Data2), byte(g.Data3 >> 8), byte(g.Data3)}
	b = append(b, g.Data4[:]...)
	s := ""
	for i, x := range b {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			s += "-"
		}
		s += string(hex[x>>4]) + string(hex[x&15])
	}
	return s
}

func refGuidParse(s string) (serialization.GUID, bool) {
	var g serialization.GUID
	if len(s) != 36 {
		return g, false
	}
	var nib []byte
	for i := 0; i < 36; i++ {
		ch := s[i]
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if ch != '-' {
				return g, false
			}
			continue
		}
		switch {
		case ch >= '0' && ch <= '9':
			nib = append(nib, ch-'0')
		case ch >= 'a' && ch <= 'f':
			nib = append(nib, ch-'a'+10)
		case ch >= 'A' && ch <= 'F':
			nib = append(nib, ch-'A'+10)
		default:
			return g, false
		}
	}
	var b [16]byte
	for i := range b {
		b[i] = nib[2*i]<<4 | nib[2*i+1]
	}
	g.Data1 = uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	g.Data2 = uint16(b[4])<<8 | uint16(b[5])
	g.Data3 = uint16(b[6])<<8 | uint16(b[7])
	copy(g.Data4[:], b[8:])
	return g, true
}

func guidTextCase(c *Ctx, s string) bool {
	return c.Case(func() string { return fmt.Sprintf("parse %q", s) }, func() error {
		c.Step(1)
		want, ok := refGuidParse(s)
		got, err := serialization.GUIDFromString(s)
		c.Obs(ok, want)
		if (err == nil) != ok {
			return fmt.Errorf("parsing %q: error %v, valid %v", s, err, ok)
		}
		if ok && got != want {
			return fmt.Errorf("parsing %q gives %+v, want %+v", s, got, want)
		}
		return nil
	})
}

func enumS05a(c *Ctx) {
	backs := []serialization.GUID{{}, {Data1: 0xffffffff, Data2: 0xffff, Data3: 0xffff, Data4: [8]byte{255, 255, 255, 255, 255, 255, 255, 255}}, {Data1: 0x01234567, Data2: 0x89ab, Data3: 0xcdef, Data4: [8]byte{0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10}}}
	for _, bk := range backs {
		for pos := 0; pos < 16; pos++ {
			for x := 0; x < 256; x++ {
				g := bk
				switch {
				case pos < 4:
					g.Data1 = g.Data1&^(0xff<<uint(8*pos)) | uint32(x)<<uint(8*pos)
				case pos < 6:
					g.Data2 = g.Data2&^(0xff<<uint(8*(pos-4))) | uint16(x)<<uint(8*(pos-4))
				case pos < 8:
					g.Data3 = g.Data3&^(0xff<<uint(8*(pos-6))) | uint16(x)<<uint(8*(pos-6))
				default:
					g.Data4[pos-8] = byte(x)
				}
				if !c.Case(func() string { return refGuidText(g) }, func() error {
					c.Step(4)
					s := g.String()
					c.Obs(s)
					if s != refGuidText(g) {
						return fmt.Errorf("%#v formats as %q, want %q", g, s, refGuidText(g))
					}
					for _, u := range []string{s, strings.ToUpper(s)} {
						if h, err := serialization.GUIDFromString(u); err != nil || h != g {
							return fmt.Errorf("%q parses to %v, %v", u, h, err)
						}
					}
					if g.IsEmpty() != (g == serialization.GUID{}) {
						return fmt.Errorf("IsEmpty of %s is %v", s, g.IsEmpty())
					}
					return nil
				}) {
					return
				}
			}
		}
	}
	temps := []string{"01234567-89ab-cdef-fedc-ba9876543210", "00000000-0000-0000-0000-000000000000", "ABCDEFAB-CDEF-ABCD-EFAB-CDEFABCDEFAB"}
	chars := []byte{'0', 'f', 'g', '-', '+', '_', 'x', ' ', 0}
	for _, t := range temps {
		for i := 0; i < 36; i++ {
			for x := 0; x < 256; x++ {
				b := []byte(t)
				b[i] = byte(x)
				if !guidTextCase(c, string(b)) {
					return
				}
			}
			for j := i + 1; j < 36; j++ {
				for _, x := range chars {
					for _, y := range chars {
						b := []byte(t)
						b[i], b[j] = x, y
						if !guidTextCase(c, string(b)) {
							return
						}
					}
				}
			}
		}
		for n := 0; n <= 80; n++ {
			s := (t + t + t)[:n]
			if !guidTextCase(c, s) || !guidTextCase(c, strings.Repeat("0", n)) || !guidTextCase(c, strings.Repeat("-", n)) || !guidTextCase(c, "{"+s+"}") {
				return
			}
		}
		for i := 0; i < 36; i++ {
			for _, r := range []string{"é", "０", "\U0001F600", "ａ"} {
				for k := i; k <= i+len(r) && k <= 36; k++ {
					if !guidTextCase(c, t[:i]+r+t[k:]) {
						return
					}
				}
			}
		}
	}
}

func enumS05b(c *Ctx) {
	gen := func(desc string, fill func(b []byte)) bool {
		return c.Case(func() string { return desc }, func() error {
			c.Step(1)
			setRand(fill)
			defer setRand(nil)
			g, err := serialization.NewGuidV4()
			if err != nil {
				return err
			}
			t := refGuidText(g)
			c.Obs(t)
			if t[14] != '4' || !strings.ContainsRune("89ab", rune(t[19])) || g.IsEmpty() {
				return fmt.Errorf("%s: generated %s is not a version 4 GUID", desc, t)
			}
			setRand(fill)
			if m := serialization.MustNewGuidV4(); m != g {
				return fmt.Errorf("%s: MustNewGuidV4 %v differs from NewGuidV4 %v", desc, m, g)
			}
			return nil
		})
	}
	for _, base := range []byte{0, 0xff} {
		base := base
		for x := 0; x < 1<<16; x++ {
			x := x
			for _, pos := range [][2]int{{7, 8}, {6, 8}} {
				pos := pos
				if !gen(fmt.Sprintf("random bytes %#x with %d=%#x %d=%#x", base, pos[0], x>>8, pos[1], x&255), func(b []byte) {
					for i := range b {
						b[i] = base
					}
					if len(b) == 16 {
						b[pos[0]], b[pos[1]] = byte(x>>8), byte(x)
					}
				}) {
					return
				}
			}
		}
	}
}

// rewX has a string followed by a list, so that a list element's size can point into the string.
type rewY struct {
	N []string
	L *rewY
	R *rewY
}
type rewX struct {
	S string
	A []rewY
	T uint16
}

func rawString(raw []byte) string {
	if len(raw)%2 == 1 {
		raw = append(raw, 0x44)
	}
	r := make([]rune, len(raw)/2)
	for i := range r {
		r[i] = rune(raw[2*i]) | rune(raw[2*i+1])<<8
		if r[i] >= 0xd800 && r[i] < 0xe000 {
			r[i] = 0x4444
		}
	}
	return string(r)
}

func enumS04c(c *Ctx) {
	run := func(desc string, t reflect.Type, data []byte) bool {
		return c.Case(func() string { return fmt.Sprintf("%s into %v from %x", desc, t, clip(data)) }, func() error {
			_, err := totalDecode(c, t, data)
			return err
		})
	}
	hdr := func(size int) []byte {
		return []byte{0, byte(size), byte(size >> 8), byte(size >> 16), byte(size >> 24), 0, 0, 0, 0, 0x1f}
	}
	// fragments that parsing may be made to resume in
	var frags [][]byte
	for _, tail := range [][]byte{{}, {0x48, 0x41, 0x41}, {0x48, 0x01, 0, 40, 0, 0, 0, 0, 0, 0, 0, 0x1f}, {0x41, 0x41, 0x41}} {
		frags = append(frags, append([]byte{0x2f, 0x3f}, append(hdr(2), tail...)...))
		frags = append(frags, append(append([]byte{0x2f, 0x3f}, hdr(0)...), tail...))
	}
	var docs [][]byte
	for _, f := range frags {
		for _, rep := range []int{1, 2} {
			x := &rewX{S: rawString(bytes.Repeat(f, rep)), A: []rewY{{N: []string{"", ""}}, {L: &rewY{}, R: &rewY{N: []string{"q"}}}, {}}, T: 7}
			docs = append(docs, refMarshal(x))
			docs = append(docs, refEncode(reflect.ValueOf(*x), nil, f))
		}
	}
	for _, d := range docs {
		for i := 0; i+9 < len(d); i++ {
			// any position that looks like an object header
			if d[i] != 0 || d[i+9] != 0x1f {
				continue
			}
			for sz := 0; sz < len(d)+8; sz++ {
				m := append([]byte(nil), d...)
				m[i+1], m[i+2], m[i+3], m[i+4] = byte(sz), byte(sz>>8), 0, 0
				if !run("size", reflect.TypeOf(rewX{}), m) {
					return
				}
			}
			for _, neg := range []uint32{0xffffffff, 0xfffffff0, 0x80000000, 0x7fffffff} {
				m := append([]byte(nil), d...)
				m[i+1], m[i+2], m[i+3], m[i+4] = byte(neg), byte(neg>>8), byte(neg>>16), byte(neg>>24)
				if !run("size", reflect.TypeOf(rewX{}), m) {
					return
				}
			}
		}
	}
	// list elements whose end position leads back into their own type information, where the
	// next element waits, while all of them share one large content behind it
	for _, n := range []int{2, 10, 100, 1000, 2000, 4000} {
		for back := -3; back <= 3; back++ {
			shared := append([]byte{0x1f, 0x08}, refVarU(uint64(8*n))...)
			shared = append(shared, bytes.Repeat([]byte{0xcd}, 8*n)...)
			shared = append(shared, 0x41, 0x41, 0x2f, 0x3f)
			var els []byte // built back to front; each is preceded by the markers
			for k := 0; k < n; k++ {
				l := refVarU(uint64(len(els) + 2))
				h := hdr(10 + len(l) + back)
				h[5] = 1
				e := append(h[:9:9], l...)
				els = append(append(e, 0x2f, 0x3f), els...)
			}
			b := []byte{0x8d, 1, 'a', 0, 0x80}
			b = append(b, refVarU(uint64(n))...)
			b = append(b, els...)
			b = append(b, shared...)
			doc := append(hdr(len(b)+11), b...)
			doc = append(doc, 0x2f, 0x3f)
			if !run(fmt.Sprintf("%d elements sharing content, back %d", n, back), reflect.TypeOf(rewX{}), doc) {
				return
			}
		}
	}
	// two children that share their content at every level
	for _, n := range []int{1, 2, 4, 8, 16, 22, 40} {
		for back := -1; back <= 1; back++ {
			doc := hdr(0)
			for k := 0; k < n; k++ {
				d := append(hdr(12 + back)[:9:9], 2, 0x2f, 0x3f)
				d[5] = 1
				ti := append([]byte{0x2f, 0x3f, 0x01}, d...)
				cc := append(hdr(11 + back)[:9:9], byte(len(ti)))
				cc[5] = 1
				doc = append(doc, 0x46, 0x01)
				doc = append(doc, cc...)
				doc = append(doc, ti...)
				doc = append(doc, 0x1f)
			}
			doc = append(doc, 0x46, 0x41, 0x41)
			sz := len(doc) + 1
			doc = append(doc, 0x2f, 0x3f)
			doc[1], doc[2] = byte(sz), byte(sz>>8)
			if !run(fmt.Sprintf("%d levels of shared children, back %d", n, back), reflect.TypeOf(recT{}), doc) {
				return
			}
		}
	}
}
