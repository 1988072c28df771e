package ufsx

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"ninepverif/kit"
	"ninepverif/wire"
)

// C17: byte arrays.
func C17(c *kit.Ctx) {
	init := tree{
		"":  {dir: true, perm: 0755},
		"f": {perm: 0644, data: "0123456789"},
		"g": {perm: 0644},
		"r": {perm: 0444, data: "read only"},
		"w": {perm: 0200, data: "write only"},
	}
	var ops []op
	add := func(o ...op) { ops = append(ops, o...) }
	add(op{t: wire.Tattach, f: 0})
	for _, f := range []uint32{1, 2} {
		add(op{t: wire.Twalk, f: 0, g: f, names: []string{"f"}})
		for _, m := range []uint8{0, 1, 2, 0x11, 0x12} {
			add(op{t: wire.Topen, f: f, mode: m})
		}
		add(op{t: wire.Tclunk, f: f})
		for _, off := range []uint64{0, 3, 10, 13} {
			for _, n := range []uint32{0, 2, 100} {
				add(op{t: wire.Tread, f: f, at: true, off: off, cnt: n})
			}
		}
		for _, off := range []uint64{0, 3, 9, 12} {
			for _, d := range []string{"", "A", "BCD"} {
				add(op{t: wire.Twrite, f: f, at: true, off: off, data: d})
			}
		}
	}
	add(op{t: wire.Twalk, f: 0, g: 2, names: []string{"g"}}, op{t: wire.Twalk, f: 0, g: 1, names: []string{"r"}}, op{t: wire.Twalk, f: 0, g: 1, names: []string{"w"}})
	for _, m := range []uint8{3, 0x10, 0x13, 0x20, 0x21, 0x22, 0x23, 0x31, 0x32, 0x41, 0x42, 0x61, 0x81, 0x82, 0xe1, 0xe2} {
		add(op{t: wire.Topen, f: 1, mode: m})
	}
	d := 6
	if c.Thorough() {
		d = 8
	}
	bfs(c, "bytes", space{init: init, ops: ops, depth: d, judge: func(l *lab, s *sess, end *state) string {
		if r := diff(look(l.root), end.t); r != "" {
			return "host files: " + r
		}
		return ""
	}})
	// Every sequence of reads and writes, through two identifiers of one file
	// and one of another, whatever the model takes for the same state.
	prefix := []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: []string{"f"}}, {t: wire.Topen, f: 1, mode: 2}, {t: wire.Twalk, f: 0, g: 2, names: []string{"f"}}, {t: wire.Topen, f: 2, mode: 2},
		{t: wire.Twalk, f: 0, g: 3, names: []string{"g"}}, {t: wire.Topen, f: 3, mode: 2}, {t: wire.Twalk, f: 0, g: 4, names: []string{"f"}}}
	io := []op{
		{t: wire.Tread, f: 1, at: true, off: 0, cnt: 3}, {t: wire.Tread, f: 1, at: true, off: 3, cnt: 3}, {t: wire.Tread, f: 1, at: true, off: 4, cnt: 100},
		{t: wire.Twrite, f: 1, at: true, off: 0, data: "ABC"}, {t: wire.Twrite, f: 1, at: true, off: 3, data: "de"}, {t: wire.Twrite, f: 1, at: true, off: 14, data: "Z"}, {t: wire.Twrite, f: 1, at: true, off: 3, data: "\x00\x00"},
		{t: wire.Tread, f: 2, at: true, off: 3, cnt: 3}, {t: wire.Twrite, f: 2, at: true, off: 3, data: "XYZ"}, {t: wire.Tread, f: 3, at: true, off: 0, cnt: 6}, {t: wire.Twrite, f: 3, at: true, off: 3, data: "gg"},
		{t: wire.Topen, f: 4, mode: 0x11}, {t: wire.Tread, f: 1, at: true, off: 6, cnt: 0}, {t: wire.Tclunk, f: 2}, {t: wire.Tread, f: 1, at: true, off: 12, cnt: 5},
	}
	judge := func(l *lab, s *sess, end *state) string {
		if r := diff(look(l.root), end.t); r != "" {
			return "host files: " + r
		}
		return probe(s, end, []uint32{1, 2, 3, 4})
	}
	d = 4
	if c.Thorough() {
		d = 5
	}
	paths(c, "io", space{init: init, judge: judge}, prefix, io, d)
	patterns(c)
	filesizes(c)
	others(c, "C17", []string{"write", "grow", "cut", "empty", "remove", "make", "swap", "back"}, 3)
	large(c)
	offsets(c)
}

// large reads and writes.
func large(c *kit.Ctx) {
	big := make([]byte, 150000)
	for i := range big {
		big[i] = byte(i*7 + i>>8)
	}
	init := tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: string(big)}, "e": {perm: 0644}}
	idx := 0
	for _, off := range []uint64{0, 1, 4095, 4096, 8191, 65535, 65536, 100000, 149999, 150000} {
		for _, n := range []uint32{1, 4095, 4096, 4097, 8168, 8192, 16384, 65000, 65512} {
			ops := []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: []string{"f"}}, {t: wire.Topen, f: 1, mode: 2},
				{t: wire.Tread, f: 1, at: true, off: off, cnt: n},
				{t: wire.Twrite, f: 1, at: true, off: off, data: strings.Repeat("ab\x00c", int(n)/4+1)},
				{t: wire.Tread, f: 1, at: true, off: off / 2, cnt: n},
				{t: wire.Tread, f: 1, at: true, off: off, cnt: n},
				{t: wire.Twalk, f: 0, g: 2, names: []string{"e"}}, {t: wire.Topen, f: 2, mode: 1},
				{t: wire.Twrite, f: 2, at: true, off: off, data: strings.Repeat("xyz", int(n)/3)},
			}
			idx++
			if c.Case(idx, fmt.Sprintf("large at %d count %d", off, n)) {
				c.Count("traces_validated_against_impl", 1)
				newLab(c).replay(space{init: init, ops: ops, judge: func(l *lab, s *sess, end *state) string {
					g := look(l.root)
					for k, e := range end.t {
						if g[k].data != e.data {
							return fmt.Sprintf("host file %q differs from the model (length %d, want %d)", k, len(g[k].data), len(e.data))
						}
					}
					return ""
				}}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9})
			}
		}
	}
}

// offsets beyond 32 bits.
func offsets(c *kit.Ctx) {
	offs := []uint64{1<<31 - 2, 1 << 31, 1<<32 - 2, 1 << 32, 1<<32 + 5, 1<<33 + 1, 1 << 40}
	idx := 0
	for _, o1 := range offs {
		for _, o2 := range append([]uint64{0, 5}, offs...) {
			idx++
			if !c.Case(idx, fmt.Sprintf("offsets %d %d", o1, o2)) {
				continue
			}
			c.Count("traces_validated_against_impl", 1)
			l := newLab(c)
			l.fresh(tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "0123456789"}})
			l.run(func() {
				s := dial(listen())
				defer s.end()
				s.version()
				s.attach(0, "")
				s.walk(0, 1, "f")
				s.open(1, 2)
				w := []string{"first", "second!"}
				for i, o := range []uint64{o1, o2} {
					m := s.write(1, o, w[i])
					if !ok(m) {
						// the host may refuse such sizes
						if strings.Contains(fmt.Sprint(m), "large") {
							return
						}
						c.Violate("a write at a large offset failed", "offset %d: %v", o, m)
						return
					}
				}
				// the model: the original, then the two writes, zeros elsewhere
				at := func(pos uint64) byte {
					for i := 1; i >= 0; i-- {
						o := []uint64{o1, o2}[i]
						if pos >= o && pos < o+uint64(len(w[i])) {
							return w[i][pos-o]
						}
					}
					if pos < 10 {
						return byte('0' + pos)
					}
					return 0
				}
				end := o1 + uint64(len(w[0]))
				if e := o2 + uint64(len(w[1])); e > end {
					end = e
				}
				st, err := os.Stat(filepath.Join(l.root, "f"))
				if err != nil || uint64(st.Size()) != end {
					c.Violate("the file has the wrong length", "got %v, want %d", st, end)
					return
				}
				h, err := os.Open(filepath.Join(l.root, "f"))
				must(err)
				defer h.Close()
				for _, o := range append([]uint64{0, 5}, offs...) {
					for _, d := range []uint64{0, 3} {
						pos := o + d - 1
						if o+d == 0 {
							pos = 0
						}
						var want []byte
						for k := pos; k < pos+20 && k < end; k++ {
							want = append(want, at(k))
						}
						m := s.read(1, pos, 20)
						if !ok(m) || !bytes.Equal(data(m), want) {
							c.Violate("a read gives the wrong bytes", "offset %d: %v, want %q", pos, m, want)
							return
						}
						b := make([]byte, 20)
						n, _ := h.ReadAt(b, int64(pos))
						if !bytes.Equal(b[:n], want) {
							c.Violate("the host file holds the wrong bytes", "offset %d: %q, want %q", pos, b[:n], want)
							return
						}
					}
				}
				if s.dead != "" {
					c.Violate(s.dead, "")
				}
			})
			l.clean()
		}
	}
	// reads far beyond the end
	for k, o := range []uint64{1 << 44, 1<<52 - 1, 1 << 60, 1 << 62, 1<<62 + 1<<61, 1<<63 - 4096, 1<<63 - 21} {
		if !c.Case(900+k, fmt.Sprintf("read at %d", o)) {
			continue
		}
		l := newLab(c)
		l.fresh(tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "0123456789"}})
		l.run(func() {
			s := dial(listen())
			defer s.end()
			s.version()
			s.attach(0, "")
			s.walk(0, 1, "f")
			s.open(1, 0)
			for _, n := range []uint32{20, 1, 0} {
				if m := s.read(1, o, n); !ok(m) || len(data(m)) > 0 {
					c.Violate("a read past the end does not give nothing", "%d at %d: %v %s", n, o, m, s.dead)
				}
			}
			if m := s.read(1, 2, 3); !ok(m) || string(data(m)) != "234" {
				c.Violate("a read after one past the end gives the wrong bytes", "%v %s", m, s.dead)
			}
		})
		l.clean()
	}
	// offsets at which nothing can be written: the host refuses, nothing changes
	for k, o := range []uint64{1<<63 - 2, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		if !c.Case(1000+k, fmt.Sprintf("impossible offset %d", o)) {
			continue
		}
		l := newLab(c)
		init := tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "0123456789"}}
		l.fresh(init)
		l.run(func() {
			s := dial(listen())
			defer s.end()
			s.version()
			s.attach(0, "")
			s.walk(0, 1, "f")
			s.open(1, 2)
			if m := s.write(1, o, "abcd"); ok(m) {
				c.Violate("a write at an impossible offset reports success", "%v", m)
			}
			if m := s.read(1, o, 10); ok(m) && len(data(m)) > 0 {
				c.Violate("a read past the end gives bytes", "%v", m)
			}
			if r := diff(look(l.root), init); r != "" {
				c.Violate("a failed write changed a file", "%s", r)
			}
			if s.dead != "" && !c.Violated() {
				c.Violate(s.dead, "")
			}
		})
		l.clean()
	}
}
