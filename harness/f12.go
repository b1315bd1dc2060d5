package main

import (
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"math"
	mbig "math/big"
	"math/bits"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
)

func init() {
	add(&Scenario{Prop: "F01", Name: "ring", Shards: 2, Bounds: "all triples (begin, end, id) over 34 (thorough: 90) ids: 0, max, 2^k +- 1, word boundaries, neighbours of one another; compared with the walk definition id-begin <= end-begin mod 2^128",
		Enum: enumF01})
	add(&Scenario{Prop: "F01", Name: "small", Bounds: "all triples over the 16 ids that surround each of 3 ring positions (zero, the 64-bit word boundary, the middle), i.e. an isomorphic image of a complete 48-element ring segment",
		Enum: enumF01b})
	add(&Scenario{Prop: "F01", Name: "wire", Bounds: "ranges and ids of the boundary set encoded alone, in slices, behind pointers and in the library's structs with neighbours; every prefix refused",
		Enum: enumF01c})
	add(&Scenario{Prop: "F02", Name: "text", Shards: 2, Bounds: "formatting and parsing of every byte position x 256 values x 3 backgrounds, digit strings of every length 0..40 and the largest and smallest of each, signs, prefixes, separators, every single-character substitution",
		Enum: enumF02a})
	add(&Scenario{Prop: "F02", Name: "names", Shards: 3, Bounds: "every string over {a, 7, 0, ., _, -, U+1F600, U+00E9, invalid UTF-8, space} up to length 5 (thorough 6) plus index suffixes with leading zeros, overflow, signs; compared with an independent implementation of the documented hashing",
		Enum: enumF02b})
	add(&Scenario{Prop: "F02", Name: "indices", Shards: 4, Bounds: "role names x consecutive indices: 2^16 indices (thorough: all 2^24) starting at 0 and around 2^24, 2^32 and 2^64 wrap: top 24 bits pairwise distinct, remaining bits determined by the name hash",
		Enum: enumF02c})
	add(&Scenario{Prop: "M01", Name: "spans", Bounds: "every duration 0..+-2*10^5 ns and every +-2^k+d, +-10^k+d (|d|<=210), the extremes; every time span of the same shape up to the largest; order compared for all neighbouring inputs",
		Enum: enumM01})
}

func nid(hi, lo uint64) federation.NodeID { return federation.NodeID{Hi: hi, Lo: lo} }

func nidAdd(a federation.NodeID, d int64) federation.NodeID {
	if d >= 0 {
		lo, c := bits.Add64(a.Lo, uint64(d), 0)
		hi, _ := bits.Add64(a.Hi, 0, c)
		return nid(hi, lo)
	}
	lo, b := bits.Sub64(a.Lo, uint64(-d), 0)
	hi, _ := bits.Sub64(a.Hi, 0, b)
	return nid(hi, lo)
}

var ringMod = new(mbig.Int).Lsh(mbig.NewInt(1), 128)

func nidBig(a federation.NodeID) *mbig.Int {
	v := new(mbig.Int).SetUint64(a.Hi)
	v.Lsh(v, 64)
	return v.Add(v, new(mbig.Int).SetUint64(a.Lo))
}

// ringDist is the number of upward steps from a to b on the 128-bit ring.
func ringDist(a, b federation.NodeID) *mbig.Int {
	d := new(mbig.Int).Sub(nidBig(b), nidBig(a))
	return d.Mod(d, ringMod)
}

func ringIds(thorough bool) []federation.NodeID {
	var out []federation.NodeID
	seen := map[federation.NodeID]bool{}
	put := func(n federation.NodeID) {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	max := nid(math.MaxUint64, math.MaxUint64)
	ds := []int64{0, 1, -1}
	for _, d := range ds {
		put(nidAdd(nid(0, 0), d))
		put(nidAdd(max, d))
		put(nidAdd(nid(1, 0), d))
		put(nidAdd(nid(1<<63, 0), d))
		put(nidAdd(nid(math.MaxUint64, 0), d))
		put(nidAdd(nid(0, 1<<63), d))
		put(nidAdd(nid(5, 7), d))
		put(nidAdd(nid(7, 5), d))
	}
	put(nid(5, 5))
	put(nid(7, 7))
	put(nid(0x0102030405060708, 0x090a0b0c0d0e0f10))
	put(nid(0x0102030405060708, 0))
	put(nid(0, 0x0102030405060708))
	put(nid(math.MaxUint64, 5))
	put(nid(5, math.MaxUint64))
	put(nid(math.MaxUint64-1, math.MaxUint64))
	if thorough {
		for k := uint(4); k < 64; k += 5 {
			for _, d := range ds {
				put(nidAdd(nid(1<<k, 0), d))
				put(nidAdd(nid(0, 1<<k), d))
			}
		}
	}
	return out
}

func rangeCase(c *Ctx, b, e, i federation.NodeID) bool {
	return c.Case(func() string { return fmt.Sprintf("[%v..%v] contains %v", b, e, i) }, func() error {
		c.Step(1)
		r := &federation.NodeIdRange{Begin: b, End: e}
		want := ringDist(b, i).Cmp(ringDist(b, e)) <= 0
		c.Obs(b.String(), e.String(), i.String(), want)
		if got := r.Contains(i); got != want {
			return fmt.Errorf("range [%v..%v] Contains(%v) = %v", b, e, i, got)
		}
		if r.Begin != b || r.End != e {
			return fmt.Errorf("Contains changed the range")
		}
		return nil
	})
}

func enumF01(c *Ctx) {
	ids := ringIds(c.Thorough)
	for _, b := range ids {
		for _, e := range ids {
			for _, i := range ids {
				if !rangeCase(c, b, e, i) {
					return
				}
			}
		}
	}
}

func enumF01b(c *Ctx) {
	var ids []federation.NodeID
	for _, at := range []federation.NodeID{nid(0, 0), nid(1, 0), nid(1<<63, 0)} {
		for d := int64(-8); d < 8; d++ {
			ids = append(ids, nidAdd(at, d))
		}
	}
	for _, b := range ids {
		for _, e := range ids {
			for _, i := range ids {
				if !rangeCase(c, b, e, i) {
					return
				}
			}
		}
	}
}

type f01wire struct {
	A federation.NodeID
	R federation.NodeIdRange
	L []federation.NodeID
	P *federation.NodeIdRange
	N federation.NodeInstance
	T uint16
}

func enumF01c(c *Ctx) {
	ids := ringIds(false)
	for ai, a := range ids {
		for bi, b := range ids {
			a, b := a, b
			if !c.Case(func() string { return fmt.Sprintf("wire %v %v", a, b) }, func() error {
				c.Step(2)
				w := &f01wire{A: a, R: federation.NodeIdRange{Begin: a, End: b}, L: []federation.NodeID{b, a, a}, P: &federation.NodeIdRange{Begin: b, End: a}, N: federation.NodeInstance{Id: b, InstanceId: a.Lo}, T: 9}
				want := refMarshal(w)
				got, err := serialization.Marshal(w)
				c.Obs(got)
				if err != nil || string(got) != string(want) {
					return fmt.Errorf("ids %v %v encode as %x %v, want %x", a, b, got, err, want)
				}
				var q f01wire
				if err := serialization.Unmarshal(got, &q); err != nil {
					return err
				}
				if q.A != w.A || q.R != w.R || *q.P != *w.P || q.N != w.N || q.T != 9 || len(q.L) != 3 || q.L[0] != b || q.L[1] != a || q.L[2] != a {
					return fmt.Errorf("%+v came back as %+v", w, q)
				}
				tok := &federation.RoutingToken{Range: w.R, Version: 77}
				tb, err := serialization.Marshal(tok)
				if err != nil || string(tb) != string(refMarshal(tok)) {
					return fmt.Errorf("routing token encodes as %x %v", tb, err)
				}
				var t2 federation.RoutingToken
				if err := serialization.Unmarshal(tb, &t2); err != nil || t2 != *tok {
					return fmt.Errorf("routing token came back as %+v %v", t2, err)
				}
				return nil
			}) {
				return
			}
			if ai < 3 && bi < 6 {
				full := refMarshal(&f01wire{A: a, R: federation.NodeIdRange{Begin: a, End: b}, T: 1})
				for n := range full {
					n := n
					if !c.Case(func() string { return fmt.Sprintf("wire prefix %d", n) }, func() error {
						c.Step(1)
						var q f01wire
						if err := serialization.Unmarshal(full[:n], &q); err == nil {
							return fmt.Errorf("prefix %d of %x accepted", n, full)
						}
						return nil
					}) {
						return
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- F02

func refNodeText(n federation.NodeID) string {
	const hex = "0123456789abcdef"
	s := make([]byte, 32)
	for i := 0; i < 16; i++ {
		s[i] = hex[n.Hi>>uint(60-4*i)&15]
		s[16+i] = hex[n.Lo>>uint(60-4*i)&15]
	}
	return string(s)
}

// refNodeParse: a hexadecimal number of at most 128 bits (leading zeros allowed).
func refNodeParse(s string) (federation.NodeID, bool) {
	var n federation.NodeID
	if s == "" {
		return n, false
	}
	for i := 0; i < len(s); i++ {
		var d uint64
		switch ch := s[i]; {
		case ch >= '0' && ch <= '9':
			d = uint64(ch - '0')
		case ch >= 'a' && ch <= 'f':
			d = uint64(ch-'a') + 10
		case ch >= 'A' && ch <= 'F':
			d = uint64(ch-'A') + 10
		default:
			return n, false
		}
		if n.Hi>>60 != 0 {
			return federation.NodeID{}, false
		}
		n.Hi = n.Hi<<4 | n.Lo>>60
		n.Lo = n.Lo<<4 | d
	}
	return n, true
}

func hexCase(c *Ctx, s string) bool {
	return c.Case(func() string { return fmt.Sprintf("parse %q", s) }, func() error {
		c.Step(1)
		want, ok := refNodeParse(s)
		got, err := federation.NodeIDFromHex(s)
		c.Obs(ok, want.String())
		if strings.HasPrefix(s, "+") {
			// an explicit plus sign is neither required nor forbidden
			w2, ok2 := refNodeParse(s[1:])
			if err == nil && (!ok2 || got != w2) {
				return fmt.Errorf("parsing %q gives %v", s, got)
			}
			return nil
		}
		if strings.HasPrefix(s, "-") && strings.Trim(s[1:], "0") == "" {
			return nil // minus zero
		}
		if (err == nil) != ok {
			return fmt.Errorf("parsing %q: result %v error %v, valid %v", s, got, err, ok)
		}
		if ok && got != want {
			return fmt.Errorf("parsing %q gives %v, want %v", s, got, want)
		}
		return nil
	})
}

func enumF02a(c *Ctx) {
	for _, bk := range []federation.NodeID{nid(0, 0), nid(math.MaxUint64, math.MaxUint64), nid(0x0123456789abcdef, 0xfedcba9876543210)} {
		for pos := uint(0); pos < 16; pos++ {
			for x := uint64(0); x < 256; x++ {
				n := bk
				if pos < 8 {
					n.Lo = n.Lo&^(0xff<<(8*pos)) | x<<(8*pos)
				} else {
					n.Hi = n.Hi&^(0xff<<(8*(pos-8))) | x<<(8*(pos-8))
				}
				if !c.Case(func() string { return refNodeText(n) }, func() error {
					c.Step(3)
					s := n.String()
					c.Obs(s)
					if s != refNodeText(n) {
						return fmt.Errorf("%#v prints as %q, want %q", n, s, refNodeText(n))
					}
					for _, u := range []string{s, strings.ToUpper(s)} {
						if m, err := federation.NodeIDFromHex(u); err != nil || m != n {
							return fmt.Errorf("%q parses as %v %v", u, m, err)
						}
					}
					return nil
				}) {
					return
				}
			}
		}
	}
	for n := 0; n <= 40; n++ {
		for _, p := range []string{"0", "f", "8", "1", "F", "a"} {
			s := strings.Repeat(p, n)
			for _, t := range []string{s, "0" + s, "-" + s, "+" + s, "0x" + s, " " + s, s + " ", s + "g", s + "\n", "00000000" + s, s + ".", s + "h", "--" + s, "#" + s, "_" + s} {
				if !hexCase(c, t) {
					return
				}
			}
			if n > 1 && !hexCase(c, s[:n/2]+"_"+s[n/2:]) {
				return
			}
			if n > 1 && !hexCase(c, s[:n/2]+"-"+s[n/2:]) {
				return
			}
			if n > 0 && !hexCase(c, "1"+s[1:]) {
				return
			}
			if n > 0 && !hexCase(c, "1"+strings.Repeat("0", n-1)) {
				return
			}
		}
	}
	t := "0123456789abcdeffedcba9876543210"
	for i := 0; i < 32; i++ {
		for x := 0; x < 256; x++ {
			if !hexCase(c, t[:i]+string([]byte{byte(x)})+t[i+1:]) {
				return
			}
		}
		for _, r := range []string{"é", "０", "ａ"} {
			if !hexCase(c, t[:i]+r+t[i+1:]) || !hexCase(c, r) {
				return
			}
		}
	}
}

// refPearson is Service Fabric's variant of the Pearson hash over the UTF-16 bytes of the decorated name.
func refPearson(v string) [16]byte {
	u := utf16.Encode([]rune("UTzJ" + v + "X3if"))
	var in []byte
	for _, c := range u {
		in = append(in, byte(c), byte(c>>8))
	}
	var out [16]byte
	for j := 0; j < 16; j++ {
		h := pearsonTable[byte(int(in[0])+j)]
		for _, b := range in[1:] {
			h = pearsonTable[h^b]
		}
		out[j] = h
	}
	return out
}

func refV4(v string) federation.NodeID {
	h := refPearson(v)
	n := nid(binary.LittleEndian.Uint64(h[:8]), binary.LittleEndian.Uint64(h[8:]))
	i := strings.LastIndexAny(v, "._")
	if i < 0 {
		return n
	}
	idx, ok := refDec64(v[i+1:])
	if !ok {
		return n
	}
	r := refPearson(v[:i])
	off := binary.LittleEndian.Uint64(r[8:])
	y := (((off & 0xffffff) + idx) & 0xffffff) * 14938617 & 0xffffff
	return nid(n.Hi&(1<<40-1)|y<<40, n.Lo)
}

func refDec64(s string) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	var v uint64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d := uint64(s[i] - '0')
		if v > (math.MaxUint64-d)/10 {
			return 0, false
		}
		v = v*10 + d
	}
	return v, true
}

func nameCase(c *Ctx, s string) bool {
	return c.Case(func() string { return fmt.Sprintf("name %q", s) }, func() error {
		c.Step(4)
		a := federation.NodeIDFromV4Generator(s)
		m := federation.NodeIDFromMD5(s)
		if a != federation.NodeIDFromV4Generator(s) || m != federation.NodeIDFromMD5(s) {
			return fmt.Errorf("ids of %q are not deterministic", s)
		}
		c.Obs(a.String())
		if w := refV4(s); a != w {
			return fmt.Errorf("generator id of %q is %v, want %v", s, a, w)
		}
		h := md5.Sum([]byte(s))
		if w := nid(binary.LittleEndian.Uint64(h[:8]), binary.LittleEndian.Uint64(h[8:])); m != w {
			return fmt.Errorf("md5 id of %q is %v, want %v", s, m, w)
		}
		return nil
	})
}

func enumF02b(c *Ctx) {
	alpha := []string{"a", "7", "0", ".", "_", "-", "\U0001F600", "é", "\xff", " "}
	depth := 5
	if c.Thorough {
		depth = 6
	}
	var rec func(pre string, d int) bool
	rec = func(pre string, d int) bool {
		if !nameCase(c, pre) {
			return false
		}
		if d == 0 {
			return true
		}
		for _, a := range alpha {
			if !rec(pre+a, d-1) {
				return false
			}
		}
		return true
	}
	if !rec("", depth) {
		return
	}
	for _, role := range []string{"FE29236", "", "a.b", "x_y", "ж", strings.Repeat("n", 3000), "_", "."} {
		for _, sep := range []string{".", "_", "", "-", ":"} {
			for _, ix := range []string{"0", "00", "2", "007", "16777215", "16777216", "16777217", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "+1", "-1", "0x1", "1_0", "1e3", " 1", "1 ", "１", "", "a", "1.", "1_"} {
				if !nameCase(c, role+sep+ix) {
					return
				}
			}
		}
	}
	if !c.Case(func() string { return "documented vectors" }, func() error {
		c.Step(2)
		if s := federation.NodeIDFromV4Generator("FE29236_2").String(); s != "a524682b4ceb893541e862483db07d22" {
			return fmt.Errorf("FE29236_2 gives %s", s)
		}
		if s := federation.NodeIDFromMD5("NodeName").String(); s != "0dc87bf4b3176cc286c5d707132f62a9" {
			return fmt.Errorf("NodeName gives %s", s)
		}
		return nil
	}) {
		return
	}
}

func enumF02c(c *Ctx) {
	// one case per (role, start): all consecutive indices of the window
	n := uint64(1 << 16)
	if c.Thorough {
		n = 1 << 24
	}
	roles := []string{"FE", "_x", "n.1", "ж"}
	starts := []uint64{0, 1<<24 - n/2, 1<<32 - n/2, 0 - n}
	for _, role := range roles {
		for _, st := range starts {
			for _, sep := range []string{"_", "."} {
				if c.Thorough && sep == "." && role != "FE" {
					continue
				}
				role, st, sep := role, st, sep
				if !c.Case(func() string { return fmt.Sprintf("role %q%s indices %d..+%d", role, sep, st, n) }, func() error {
					seen := make([]uint64, 1<<18)
					for k := uint64(0); k < n; k++ {
						name := fmt.Sprintf("%s%s%d", role, sep, st+k)
						id := federation.NodeIDFromV4Generator(name)
						c.Step(1)
						top := id.Hi >> 40
						if seen[top>>6]>>(top&63)&1 != 0 {
							return fmt.Errorf("%s: top 24 bits %06x already used by another index of the role", name, top)
						}
						seen[top>>6] |= 1 << (top & 63)
						if k&1023 == 0 {
							c.Obs(id.String())
						}
						if n <= 1<<16 || k&255 == 0 {
							if w := refV4(name); id != w {
								return fmt.Errorf("%s gives %v, want %v", name, id, w)
							}
						}
						if c.Thorough {
							c.begin()
						}
					}
					return nil
				}) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- M01

func enumM01(c *Ctx) {
	var ds []int64
	for d := int64(-200000); d <= 200000; d++ {
		ds = append(ds, d)
	}
	addAll := func(base int64) {
		for k := int64(-210); k <= 210; k++ {
			v := base + k
			if (k > 0 && v < base) || (k < 0 && v > base) {
				continue
			}
			ds = append(ds, v)
		}
	}
	for k := uint(17); k < 63; k++ {
		addAll(1 << k)
		addAll(-(1 << k))
	}
	addAll(math.MaxInt64)
	addAll(math.MinInt64)
	addAll(math.MaxInt64 / 100)
	addAll(math.MinInt64 / 100)
	addAll(math.MaxInt64 / 2)
	for p := int64(1000000); p < 1<<62/10; p *= 10 {
		addAll(p)
		addAll(-p)
	}
	limit := int64(math.MaxInt64 / 100)
	for _, d := range ds {
		d := d
		if !c.Case(func() string { return fmt.Sprintf("duration %d", d) }, func() error {
			c.Step(4)
			dd := time.Duration(d)
			s := common.TimeSpanFromDuration(dd)
			if int64(s) != d/100 {
				return fmt.Errorf("duration %d becomes time span %d, want %d", d, s, d/100)
			}
			if back := s.ToDuration(); int64(back) != d/100*100 {
				return fmt.Errorf("duration %d comes back as %d", d, back)
			}
			if d < math.MaxInt64 {
				if n := common.TimeSpanFromDuration(dd + 1); n < s {
					return fmt.Errorf("duration %d gives %d but %d gives %d", d, s, d+1, n)
				}
			}
			// the same number as a time span
			ts := common.TimeSpan(d)
			got := ts.ToDuration()
			want := d * 100
			if d > limit {
				want = math.MaxInt64
			}
			if d < -limit {
				// no duration is that small: only the order matters
				if int64(got) > -limit*100 {
					return fmt.Errorf("time span %d becomes %d", d, got)
				}
			} else if int64(got) != want {
				return fmt.Errorf("time span %d becomes duration %d, want %d", d, got, want)
			}
			if d < math.MaxInt64 {
				if n := common.TimeSpan(d + 1).ToDuration(); n < got {
					return fmt.Errorf("time span %d gives %d but %d gives %d", d, got, d+1, n)
				}
			}
			c.Obs(int64(got))
			return nil
		}) {
			return
		}
	}
	if !c.Case(func() string { return "infinite" }, func() error {
		c.Step(1)
		if d := common.TimeSpanMax.ToDuration(); d != math.MaxInt64 {
			return fmt.Errorf("the infinite time span becomes duration %v", d)
		}
		return nil
	}) {
		return
	}
}
