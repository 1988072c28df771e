// Package codec enumerates encodings (C01) and damaged encodings (C02).
package codec

import (
	"bytes"
	"fmt"
	"strings"

	"ninepverif/api"
	"ninepverif/kit"
	"ninepverif/wire"
)

var lens = []int{0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535}
var lens2 = []int{0, 1, 2, 255, 256, 257, 65535}
var counts = []int{0, 1, 2, 3, 16, 17, 255, 256, 257, 65535}
var datalens = []int{0, 1, 2, 255, 256, 257, 65535, 65536, 65537, 1<<20 + 3}

// Pat makes n distinctive bytes; s tells apart different fields.
func Pat(n, s int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + s*31 + i>>8*3 + 1)
	}
	return b
}

func ints(w uint) []uint64 {
	m := ^uint64(0) >> (64 - 8*w)
	v := []uint64{0, 1, 0x7f, 0x80, m, m - 1, m >> 1, m>>1 + 1, 0x0807060504030201 & m, 0xf1f2f3f4f5f6f7f8 & m}
	for i := uint(0); i < w; i++ {
		v = append(v, 0xa5<<(8*i)&m)
	}
	var r []uint64
	seen := map[uint64]bool{}
	for _, x := range v {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

// Values gives the boundary values of a field. s tells apart fields.
func Values(k wire.Kind, s int, small bool) []any {
	var r []any
	switch k {
	case wire.U8:
		for i := 0; i < 256; i += 1 {
			if !small || i < 4 || i%37 == 0 || i >= 254 {
				r = append(r, uint8(i))
			}
		}
	case wire.U16:
		for _, v := range ints(2) {
			r = append(r, uint16(v))
		}
	case wire.U32:
		for _, v := range ints(4) {
			r = append(r, uint32(v))
		}
	case wire.U64:
		for _, v := range ints(8) {
			r = append(r, v)
		}
	case wire.Str:
		l := lens
		if small {
			l = lens2
		}
		for _, n := range l {
			r = append(r, string(Pat(n, s)))
		}
		r = append(r, "\x00", "\xff\xfe", "..", "/", "a/b", "é€")
	case wire.Names:
		for _, n := range counts {
			l := []string{}
			for i := 0; i < n; i++ {
				l = append(l, string(Pat((i+1)%4, i+s)))
			}
			r = append(r, l)
		}
		r = append(r, []string{""}, []string{"", "", ""}, []string{string(Pat(65535, s)), "x", string(Pat(256, 1))})
	case wire.QID:
		for _, t := range []uint8{0, 1, 0x80, 0xff} {
			for _, v := range ints(4) {
				r = append(r, wire.Qid{Type: t, Vers: uint32(v), Path: 0x1122334455667788})
			}
			for _, v := range ints(8) {
				r = append(r, wire.Qid{Type: t, Vers: 0x99aabbcc, Path: v})
			}
		}
	case wire.Qids:
		for _, n := range counts {
			l := []wire.Qid{}
			for i := 0; i < n; i++ {
				l = append(l, wire.Qid{Type: uint8(i*5 + 1), Vers: uint32(i)*0x01020305 + 7, Path: uint64(i+1) * 0x0102030405060709})
			}
			r = append(r, l)
		}
	case wire.Data32:
		l := datalens
		if small {
			l = datalens[:8]
		}
		for _, n := range l {
			r = append(r, Pat(n, s))
		}
	case wire.Data16:
		for _, n := range lens {
			r = append(r, Pat(n, s))
		}
	}
	return r
}

// Tags to be tried.
var Tags = []uint16{0, 1, 0xff, 0x100, 0x1234, 0x8000, 0xfffe, 0xffff}

// product calls f for every combination.
func product(v [][]any, f func([]any)) {
	cur := make([]any, len(v))
	var rec func(i int)
	rec = func(i int) {
		if i == len(v) {
			f(append([]any{}, cur...))
			return
		}
		for _, x := range v[i] {
			cur[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

func dirty(n int) *bytes.Buffer {
	b := &bytes.Buffer{}
	if n > 0 {
		b.Write(bytes.Repeat([]byte{0xee}, n))
		b.Next(n / 3)
	}
	return b
}

func one(c *kit.Ctx, m wire.Msg) {
	want := wire.Encode(m)
	var exp []any
	for i := range m.F {
		exp = append(exp, m.F[i])
	}
	for _, d := range []int{0, 1, 200} {
		b := dirty(d)
		if err := api.Catch(func() { api.Marshal(b, m) }); err != nil {
			c.Violate("encoding panics", "%v: %v", m, err)
			return
		}
		c.Count("encodings", 1)
		if !bytes.Equal(b.Bytes(), want) {
			c.Violate("wrong encoding", "%v (buffer held %d bytes before): got %d bytes % x, want %d bytes % x", m, d, b.Len(), clip(b.Bytes()), len(want), clip(want))
			return
		}
		if d != 0 {
			continue
		}
		body := append([]byte{}, b.Bytes()[5:]...)
		buf := bytes.NewBuffer(body)
		var got wire.Msg
		var err error
		if perr := api.Catch(func() { got, err = api.Unmarshal(m.Type, buf) }); perr != nil {
			c.Violate("decoding panics", "%v: %v", m, perr)
			return
		}
		c.Count("decodings", 1)
		if err != nil {
			c.Violate("a valid message does not decode", "%v: %v", m, err)
			return
		}
		if got.Tag != m.Tag || !api.Equal(got.F, exp) {
			c.Violate("round trip changes values", "sent %v, got %v", m, got)
			return
		}
		if buf.Len() != 0 {
			c.Violate("decoding leaves bytes", "%v: %d bytes left", m, buf.Len())
			return
		}
	}
	if len(m.F) > 0 {
		c.Distinct("nontrivial", string(want))
	}
}

func clip(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

// C01 enumerates encodings.
func C01(c *kit.Ctx) {
	idx := 0
	for _, s := range wire.Specs {
		s := s
		big := 0
		for _, f := range s.Fields {
			if f.Kind >= wire.Str && f.Kind != wire.QID {
				big++
			}
		}
		// every field over its whole set, other fields at three backgrounds; all tags
		for bg := 0; bg < 3; bg++ {
			for fi := -1; fi < len(s.Fields); fi++ {
				var vals []any
				if fi < 0 {
					vals = []any{nil}
				} else {
					vals = Values(s.Fields[fi].Kind, fi, false)
					if bg == 0 && s.Fields[fi].Kind == wire.Data32 {
						vals = append(vals, Pat(1<<24+5, fi)) // all four bytes of size and count in use
					}
				}
				for vi, v := range vals {
					for ti, tag := range Tags {
						idx++
						if ti > 1 && vi > 6 && !c.Thorough() {
							continue
						}
						if !c.Case(idx, fmt.Sprintf("one %s bg%d field%d value%d tag%d", s.Name, bg, fi, vi, tag)) {
							continue
						}
						m := background(s, bg, tag)
						if fi >= 0 {
							m.F[fi] = v
						}
						one(c, m)
						if c.Violated() {
							return
						}
					}
				}
			}
		}
		// all combinations of the small sets
		var sets [][]any
		for i, f := range s.Fields {
			v := Values(f.Kind, i, true)
			if big > 1 && f.Kind >= wire.Str && f.Kind != wire.QID && !c.Thorough() {
				v = v[:6]
			}
			sets = append(sets, v)
		}
		n := 0
		product(sets, func(f []any) {
			idx++
			n++
			tag := Tags[n%len(Tags)]
			if !c.Case(idx, fmt.Sprintf("all %s #%d tag%d", s.Name, n, tag)) {
				return
			}
			one(c, wire.Msg{Type: s.Type, Tag: tag, F: f})
		})
		if c.Violated() {
			return
		}
	}
	dirs(c, &idx)
}

func background(s *wire.Spec, bg int, tag uint16) wire.Msg {
	m := wire.Msg{Type: s.Type, Tag: tag}
	for i, f := range s.Fields {
		m.F = append(m.F, bgValue(f.Kind, bg, i))
	}
	return m
}

func bgValue(k wire.Kind, bg, i int) any {
	switch k {
	case wire.U8:
		return []uint8{0, 0x15, 0xff}[bg]
	case wire.U16:
		return []uint16{0, 0x2117, 0xffff}[bg]
	case wire.U32:
		return []uint32{0, 0x34333231, 0xffffffff}[bg] + uint32(i)<<8
	case wire.U64:
		return []uint64{0, 0x4847464544434241, 0xffffffffffffffff}[bg]
	case wire.Str:
		return []string{"", string(Pat(5, i)), string(Pat(300, i))}[bg]
	case wire.Names:
		return [][]string{{}, {"usr", "", "x"}, {string(Pat(256, i)), "/", ".."}}[bg]
	case wire.QID:
		return []wire.Qid{{}, {Type: 0x51, Vers: 0x54535251, Path: 0x6867666564636261}, {Type: 0xff, Vers: 0xffffffff, Path: 0xffffffffffffffff}}[bg]
	case wire.Qids:
		return [][]wire.Qid{{}, {{Type: 0x51, Vers: 0x54535251, Path: 0x6867666564636261}}, {{Type: 0x80, Vers: 7, Path: 8}, {Vers: 9, Path: 10}}}[bg]
	default:
		return [][]byte{{}, Pat(9, i), Pat(400, i)}[bg]
	}
}

func oneDir(c *kit.Ctx, d wire.Dir) {
	want := wire.EncodeDir(d)
	for _, n := range []int{0, 1, 200} {
		b := dirty(n)
		if err := api.Catch(func() { api.MarshalDir(b, d) }); err != nil {
			c.Violate("encoding panics", "directory record: %v", err)
			return
		}
		c.Count("encodings", 1)
		if !bytes.Equal(b.Bytes(), want) {
			c.Violate("wrong encoding", "directory record (buffer held %d bytes before): got %d bytes % x, want %d bytes % x", n, b.Len(), clip(b.Bytes()), len(want), clip(want))
			return
		}
	}
	for _, trail := range []int{0, 1, 70} {
		buf := bytes.NewBuffer(append(append([]byte{}, want...), Pat(trail, 5)...))
		var got wire.Dir
		var err error
		if perr := api.Catch(func() { got, err = api.UnmarshalDir(buf) }); perr != nil {
			c.Violate("decoding panics", "directory record: %v", perr)
			return
		}
		c.Count("decodings", 1)
		if err != nil || got != d {
			c.Violate("round trip changes values", "directory record %s: %v %s", short(d), err, short(got))
			return
		}
		if !bytes.Equal(buf.Bytes(), Pat(trail, 5)) {
			c.Violate("decoding a directory record consumes the wrong number of bytes", "%d bytes left, want %d", buf.Len(), trail)
			return
		}
	}
	c.Distinct("nontrivial", "dir"+string(want))
}

func short(d wire.Dir) string {
	s := fmt.Sprintf("%+v", d)
	if len(s) > 500 {
		s = s[:500]
	}
	return s
}

func bgDir(bg int) wire.Dir {
	switch bg {
	case 0:
		return wire.Dir{}
	case 1:
		return wire.Dir{Type: 0x0201, Dev: 0x06050403, Qid: wire.Qid{Type: 0x77, Vers: 0x14131211, Path: 0x2827262524232221}, Mode: 0x800001ed,
			Atime: 0x34333231, Mtime: 0x44434241, Length: 0x5857565554535251, Name: "name", Uid: "user1", Gid: "gr", Muid: "modifie"}
	}
	d := wire.DontTouch()
	d.Name, d.Uid, d.Gid, d.Muid = string(Pat(255, 1)), string(Pat(256, 2)), string(Pat(257, 3)), string(Pat(300, 4))
	return d
}

func dirs(c *kit.Ctx, idx *int) {
	run := func(key string, d wire.Dir) {
		*idx++
		if len(wire.EncodeDir(d)) > 65537 || !c.Case(*idx, "dir "+key) {
			return
		}
		oneDir(c, d)
	}
	for bg := 0; bg < 3; bg++ {
		for _, v := range ints(2) {
			d := bgDir(bg)
			d.Type = uint16(v)
			run(fmt.Sprint("type ", bg, v), d)
		}
		for i, v := range ints(4) {
			for f := 0; f < 5; f++ {
				d := bgDir(bg)
				*[]*uint32{&d.Dev, &d.Qid.Vers, &d.Mode, &d.Atime, &d.Mtime}[f] = uint32(v)
				run(fmt.Sprint("u32 ", bg, f, i), d)
			}
		}
		for i, v := range ints(8) {
			for f := 0; f < 2; f++ {
				d := bgDir(bg)
				*[]*uint64{&d.Qid.Path, &d.Length}[f] = v
				run(fmt.Sprint("u64 ", bg, f, i), d)
			}
		}
		for v := 0; v < 256; v++ {
			d := bgDir(bg)
			d.Qid.Type = uint8(v)
			run(fmt.Sprint("qt ", bg, v), d)
		}
		for f := 0; f < 4; f++ {
			for _, n := range append([]int{65000, 65535 - 47}, lens...) {
				d := bgDir(bg)
				*[]*string{&d.Name, &d.Uid, &d.Gid, &d.Muid}[f] = string(Pat(n, f))
				run(fmt.Sprint("str ", bg, f, n), d)
			}
		}
	}
	sl := []int{0, 1, 3, 255, 256, 257, 16000}
	for _, a := range sl {
		for _, b := range sl {
			for _, g := range sl {
				for _, m := range sl {
					d := bgDir(1)
					d.Name, d.Uid, d.Gid, d.Muid = string(Pat(a, 1)), string(Pat(b, 2)), string(Pat(g, 3)), string(Pat(m, 4))
					run(fmt.Sprint("strs ", a, b, g, m), d)
				}
			}
		}
	}
}

var used int
var area = bytes.Repeat([]byte{0x5a}, 70000) // must never show up in a value

// spare copies b, into a buffer with spare capacity if capx is 1.
func spare(b []byte, capx int) []byte {
	if capx == 0 || len(b) > len(area)/2 {
		x := make([]byte, len(b))
		copy(x, b)
		return x
	}
	for i := len(b); i < used; i++ {
		area[i] = 0x5a
	}
	used = copy(area, b)
	return area[:len(b)]
}

// check one body: the decoder agrees with the strict reference.
func decode(c *kit.Ctx, t uint8, body []byte, key func() string) bool {
	want, werr := wire.DecodeBody(t, body)
	for capx := 0; capx < 2; capx++ {
		b := spare(body, capx)
		var got wire.Msg
		var err error
		perr := api.Catch(func() { got, err = api.Unmarshal(t, bytes.NewBuffer(b)) })
		c.Eval(1)
		bad := ""
		switch {
		case perr != nil:
			bad = "decoder panics"
		case werr != nil && err == nil:
			bad = "decoder accepts a malformed message"
		case werr == nil && err != nil:
			bad = "decoder rejects a well-formed message"
		case werr == nil && (got.Tag != want.Tag || !api.Equal(got.F, want.F)):
			bad = "decoder returns wrong values"
		}
		if bad != "" {
			c.Set(key())
			c.Violate(bad, "%s body % x (%d bytes, spare capacity %d): reference: %v; decoder: %v %v, panic: %v", wire.ByType(t).Name, clip(body), len(body), capx*70000, werr, got, err, perr)
			return false
		}
		if capx == 0 {
			if werr != nil {
				c.Distinct("nontrivial", string(rune(t))+string(body))
			} else {
				c.Count("wellformed", 1)
			}
			if len(body) > 4096 {
				break
			}
		}
	}
	return true
}

func decodeDir(c *kit.Ctx, b []byte, key func() string) bool {
	// the leading size is redundant and not judged: reference with the right size
	var werr error
	var want wire.Dir
	fields, rest := dirFields(b)
	if rest == nil {
		werr = fmt.Errorf("too short")
	} else {
		want, _, werr = wire.DecodeDir(append(wire.Int(nil, uint64(len(fields)), 2), fields...))
	}
	for capx := 0; capx < 2; capx++ {
		buf := bytes.NewBuffer(spare(b, capx))
		var got wire.Dir
		var err error
		perr := api.Catch(func() { got, err = api.UnmarshalDir(buf) })
		c.Eval(1)
		bad := ""
		switch {
		case perr != nil:
			bad = "decoder panics"
		case werr != nil && err == nil:
			bad = "decoder accepts a malformed directory record"
		case werr == nil && err == nil && got != want:
			bad = "decoder returns wrong values"
		}
		if werr == nil && err != nil {
			// only well-formed if the leading size agrees
			if n := int(b[0]) | int(b[1])<<8; n == len(fields) {
				bad = "decoder rejects a well-formed directory record"
			}
		}
		if bad != "" {
			c.Set(key())
			c.Violate(bad, "% x (%d bytes): reference: %v; decoder: %s %v, panic: %v", clip(b), len(b), werr, short(got), err, perr)
			return false
		}
		if capx == 0 {
			if werr != nil {
				c.Distinct("nontrivial", "dir"+string(b))
			} else {
				c.Count("wellformed", 1)
			}
		}
	}
	return true
}

// dirFields finds the extent of the fields of a directory record.
func dirFields(b []byte) (fields, rest []byte) {
	if len(b) < 2+39 {
		return nil, nil
	}
	n := 2 + 39
	for i := 0; i < 4; i++ {
		if len(b) < n+2 {
			return nil, nil
		}
		l := int(b[n]) | int(b[n+1])<<8
		n += 2 + l
		if len(b) < n {
			return nil, nil
		}
	}
	return b[2:n], append([]byte{}, b[n:]...)
}

// C02 enumerates damaged encodings.
func C02(c *kit.Ctx) {
	idx := 0
	begin := func(key string) bool {
		idx++
		return c.Case(idx, key)
	}
	for _, s := range wire.Specs {
		var bases []wire.Msg
		for bg := 0; bg < 3; bg++ {
			bases = append(bases, background(s, bg, []uint16{0, 0x1234, 0xffff}[bg]))
		}
		if s.Type == wire.Twalk {
			bases = append(bases, wire.M(wire.Twalk, 5, uint32(1), uint32(2), []string{"", "", ""}), wire.M(wire.Twalk, 5, uint32(1), uint32(2), []string{"a", "bcd"}))
		}
		if s.Type == wire.Rwalk {
			bases = append(bases, wire.M(wire.Rwalk, 5, []wire.Qid{{Type: 1}, {Type: 2}, {Type: 3}}))
		}
		for _, n := range []int{15, 16, 17, 31, 33, 64, 200, 300} { // long lists
			switch s.Type {
			case wire.Twalk:
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, "abc"[:i%4])
				}
				bases = append(bases, wire.M(wire.Twalk, 5, uint32(1), uint32(2), l))
			case wire.Rwalk:
				var l []wire.Qid
				for i := 0; i < n; i++ {
					l = append(l, wire.Qid{Type: uint8(i), Vers: uint32(i), Path: uint64(i)})
				}
				bases = append(bases, wire.M(wire.Rwalk, 5, l))
			}
		}
		for bi, m := range bases {
			body := wire.Encode(m)[5:]
			key := fmt.Sprintf("damage %s base%d", s.Name, bi)
			k := func() string { return key }
			if begin(key) {
				// every truncation
				for n := 0; n <= len(body); n++ {
					if !decode(c, s.Type, body[:n], k) {
						return
					}
				}
				// trailing bytes
				for _, tr := range [][]byte{{0}, {1}, {0xff}, {0, 0}, {1, 0}, {0xff, 0xff}, {0, 0, 0}, {1, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0}, bytes.Repeat([]byte{7}, 13), bytes.Repeat([]byte{0}, 300)} {
					if !decode(c, s.Type, append(append([]byte{}, body...), tr...), k) {
						return
					}
				}
			}
			// every single byte replaced by every value; with and without the last byte
			if len(body) <= 120 && begin(key+" bytes") {
				for i := range body {
					for v := 0; v < 256; v++ {
						x := append([]byte{}, body...)
						x[i] = byte(v)
						if !decode(c, s.Type, x, func() string { return key + " bytes" }) {
							return
						}
					}
				}
			}
			// every 2-byte position set to every 16-bit value (catches lengths and counts)
			if len(body) <= 60 && len(s.Fields) > 0 {
				for i := 2; i+2 <= len(body); i++ {
					for part := 0; part < 16; part++ {
						kk := fmt.Sprintf("%s word%d.%d", key, i, part)
						if !begin(kk) {
							continue
						}
						for v := part << 12; v < (part+1)<<12; v++ {
							if !c.Thorough() && v > 600 && v < 65000 && v%251 != 0 {
								continue
							}
							x := append([]byte{}, body...)
							x[i], x[i+1] = byte(v), byte(v>>8)
							if !decode(c, s.Type, x, func() string { return kk }) {
								return
							}
						}
					}
				}
			}
			// every 4-byte position set to boundary values (data counts)
			if len(body) <= 60 && begin(key+" dwords") {
				for i := 2; i+4 <= len(body); i++ {
					for d := -20; d <= 20; d++ {
						for _, v := range []uint32{uint32(d), uint32(len(body) + d), 0x80000000 + uint32(d), uint32(1<<16 + d), uint32(1<<24 + d)} {
							x := append([]byte{}, body...)
							copy(x[i:], wire.Int(nil, uint64(v), 4))
							if !decode(c, s.Type, x, func() string { return key + " dwords" }) {
								return
							}
						}
					}
				}
			}
		}
		// all byte strings up to length 2, and longer ones over a small alphabet
		kk := "short " + s.Name
		if begin(kk) {
			k := func() string { return kk }
			if !decode(c, s.Type, nil, k) {
				return
			}
			for a := 0; a < 256; a++ {
				if !decode(c, s.Type, []byte{byte(a)}, k) {
					return
				}
				for b := 0; b < 256; b++ {
					if !decode(c, s.Type, []byte{byte(a), byte(b)}, k) {
						return
					}
				}
			}
		}
		alpha := []byte{0, 1, 2, 0xff}
		max := 7
		if c.Thorough() {
			alpha = []byte{0, 1, 2, 3, 0x80, 0xff}
			max = 8
		}
		for n := 1; n <= max; n++ {
			kk := fmt.Sprintf("strings %s length %d", s.Name, n)
			if !begin(kk) {
				continue
			}
			x := make([]byte, n)
			x0 := make([]int, n)
			for {
				for i := range x {
					x[i] = alpha[x0[i]]
				}
				// tag 1, then the string
				if !decode(c, s.Type, append([]byte{1, 0}, x...), func() string { return kk }) {
					return
				}
				i := n - 1
				for ; i >= 0; i-- {
					x0[i]++
					if x0[i] < len(alpha) {
						break
					}
					x0[i] = 0
				}
				if i < 0 || c.Done() {
					break
				}
			}
		}
	}
	// directory records
	for bg := 0; bg < 3; bg++ {
		rec := wire.EncodeDir(bgDir(bg))
		key := fmt.Sprintf("dir base%d", bg)
		if begin(key) {
			for n := 0; n <= len(rec); n++ {
				if !decodeDir(c, rec[:n], func() string { return key }) {
					return
				}
			}
			if !decodeDir(c, append(append([]byte{}, rec...), rec...), func() string { return key }) {
				return
			}
		}
		if len(rec) > 200 {
			continue
		}
		for i := 2; i < len(rec); i++ {
			kk := fmt.Sprintf("%s word%d", key, i)
			if !begin(kk) {
				continue
			}
			for v := 0; v < 256; v++ {
				x := append([]byte{}, rec...)
				x[i] = byte(v)
				if !decodeDir(c, x, func() string { return kk }) {
					return
				}
			}
			if i+1 < len(rec) && i >= 41 {
				for v := 0; v < 65536; v++ {
					x := append([]byte{}, rec...)
					x[i], x[i+1] = byte(v), byte(v>>8)
					if !decodeDir(c, x, func() string { return kk }) {
						return
					}
				}
			}
		}
	}
	for n := 0; n <= 60; n++ {
		for _, v := range []byte{0, 1, 0xff} {
			kk := fmt.Sprintf("dir fill %d %d", n, v)
			if begin(kk) && !decodeDir(c, bytes.Repeat([]byte{v}, n), func() string { return kk }) {
				return
			}
		}
	}
}

// Rules describes the enumeration for the evidence.
var Rules = map[string]string{
	"C01": strings.Join(strings.Fields(`every message type: each field over its boundary values (all byte positions, lengths 0..65535 at every carry, lists of 0..65535 elements,
	data to 2^24+5 bytes) against three backgrounds of the other fields and 8 tags, plus the full product of smaller sets; directory records likewise; each encoded
	into an empty, a 1-byte and a 200-byte dirty buffer and compared with an independent encoder, then decoded and compared. Non-trivial: the message has fields.`), " "),
	"C02": strings.Join(strings.Fields(`every message type: all truncations, trailing bytes, every byte set to every value, every 2-byte window set to 16-bit values, every 4-byte
	window set to boundary counts, all strings up to 2 bytes and all strings over a small alphabet; each decoded from an exact buffer and from one with spare
	capacity; verdict and values compared with a strict independent decoder. Non-trivial: the reference calls the input malformed.`), " "),
}
