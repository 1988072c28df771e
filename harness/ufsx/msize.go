package ufsx

import (
	"fmt"
	"strings"

	"ninepverif/bub"
	"ninepverif/kit"
	"ninepverif/wire"
)

// raw sends a request and gives the reply and its length.
func (s *sess) raw(t uint8, f ...any) (wire.Msg, int) {
	if s.dead != "" {
		return wire.Msg{}, 0
	}
	s.tag++
	s.conn.Feed(wire.Encode(wire.M(t, s.tag, f...)))
	bub.Wait()
	out := s.conn.Take()
	m, err := wire.Decode(out)
	if err != nil || m.Tag != s.tag {
		s.dead = fmt.Sprintf("request %v is answered by %d bytes: %v", wire.M(t, s.tag, f...), len(out), err)
		return wire.Msg{}, 0
	}
	return m, len(out)
}

func uniq(l []uint64) (r []uint64) {
	seen := map[uint64]bool{}
	for _, x := range l {
		if !seen[x] && x < 1<<62 {
			seen[x] = true
			r = append(r, x)
		}
	}
	return
}

// C25: message sizes.
func C25(c *kit.Ctx) {
	asked := []uint64{0, 1, 11, 23, 24, 25, 26, 48, 100, 255, 256, 257, 1000, 4096, 8191, 8192, 8193, 8216, 65535, 65536, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	if c.Thorough() {
		for n := uint64(0); n < 400; n++ {
			asked = append(asked, n)
		}
	}
	asked = uniq(asked)
	renegotiate(c)
	idx := 0
	for _, a := range asked {
		for _, second := range []uint64{0, 64, 8192, 1 << 31} {
			for which := 0; which < 2; which++ {
				idx++
				if c.Case(idx, fmt.Sprintf("msize %d then %d, %d", a, second, which)) {
					sizes(c, a, second, which == 1)
				}
			}
		}
	}
}

// renegotiate: all sequences of version requests, good and bad, on two
// connections, with reads of open files in between.
func renegotiate(c *kit.Ctx) {
	type step struct {
		conn int
		n    uint32
		v    string
	}
	var al []step
	for conn := 0; conn < 2; conn++ {
		al = append(al, step{conn, 100, "9P2000"}, step{conn, 9000, "9P2000"}, step{conn, 600, "9P2000"}, step{conn, 8, "9P2000"}, step{conn, 20000, "9P1776"}, step{conn, 20000, "9P2000.u"}, step{conn, 50, ""}, step{conn, 1<<32 - 1, "9P2000"})
	}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	n := 0
	seq(al, depth, func(sc []step) {
		n++
		if c.Violated() || !c.Mine(n) && c.Only() == "" {
			return
		}
		if !c.Case(n, fmt.Sprintf("renegotiate %v", sc)) {
			return
		}
		l := newLab(c)
		defer l.clean()
		body := strings.Repeat("0123456789abcdef", 2000)
		t := tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: body}}
		for i := 0; i < 6; i++ {
			t[fmt.Sprintf("entry%d", i)] = ent{perm: 0644}
		}
		l.fresh(t)
		l.run(func() {
			srv := listen()
			var ss [2]*sess
			var max [2]int
			for i := range ss {
				ss[i] = dial(srv)
				defer ss[i].end()
			}
			var log []string
			for _, st := range sc {
				s := ss[st.conn]
				m, _ := s.raw(wire.Tversion, st.n, st.v)
				log = append(log, fmt.Sprintf("%v => %v", st, m))
				if s.dead != "" {
					c.Violate(s.dead, "%s", strings.Join(log, "\n"))
					return
				}
				if ok(m) {
					got := m.F[0].(uint32)
					if got > st.n {
						c.Violate("the answered message size is larger than the one asked for", "%s", strings.Join(log, "\n"))
						return
					}
					if m.F[1].(string) == "9P2000" {
						max[st.conn] = int(got)
					}
				}
				for i, s := range ss {
					if max[i] == 0 {
						continue
					}
					// Identifiers may or may not survive a version request.
					s.raw(wire.Tattach, uint32(0), uint32(nofid), "u", "")
					s.raw(wire.Twalk, uint32(0), uint32(1), []string{"f"})
					s.raw(wire.Topen, uint32(1), uint8(0))
					s.raw(wire.Twalk, uint32(0), uint32(2), []string{})
					s.raw(wire.Topen, uint32(2), uint8(0))
					for _, rd := range []struct {
						f   uint32
						o   uint64
						cnt uint32
					}{{1, 0, 100}, {1, 5, 8192}, {1, 0, 30000}, {2, 0, 30000}, {1, 31990, 4000}} {
						m, ln := s.raw(wire.Tread, rd.f, rd.o, rd.cnt)
						c.Count("evaluations", 1)
						if s.dead != "" {
							c.Violate(s.dead, "%s", strings.Join(log, "\n"))
							return
						}
						if !ok(m) || ln > max[i] {
							c.Violate(fmt.Sprintf("with a message size of %d, a read of %d bytes is answered by %d bytes (success %v)", max[i], rd.cnt, ln, ok(m)), "connection %d\n%s", i, strings.Join(log, "\n"))
							return
						}
						if rd.f == 1 {
							b := string(data(m))
							if b == "" || !strings.HasPrefix(body[rd.o:], b) {
								c.Violate("a read gives the wrong bytes", "connection %d %v: %d bytes\n%s", i, rd, len(b), strings.Join(log, "\n"))
								return
							}
						}
					}
				}
			}
			c.Distinct("nontrivial", strings.Join(log, "\n"))
		})
	})
}

func sizes(c *kit.Ctx, asked, second uint64, isdir bool) {
	l := newLab(c)
	defer l.clean()
	// What will be answered is not known here; file sizes around the likely ones.
	M := asked
	if second != 0 {
		M = second
	}
	if M > 1<<20 {
		M = 1 << 20
	}
	var fsizes []uint64
	for _, n := range []int64{0, 1, int64(M) - 25, int64(M) - 24, int64(M) - 23, int64(M) - 12, int64(M) - 11, int64(M) - 10, int64(M), int64(M) + 1, 2*int64(M) + 3, 9000, 65536 - 24, 65536, 100000} {
		if n >= 0 {
			fsizes = append(fsizes, uint64(n))
		}
	}
	fsizes = uniq(fsizes)
	t := tree{"": {dir: true, perm: 0755}, "dir": {dir: true, perm: 0755}}
	body := func(n uint64) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*13 + i>>8)
		}
		return string(b)
	}
	if isdir {
		for _, n := range []int{1, 2, 8, 40, 120, 255} {
			t["dir/"+strings.Repeat("e", n)] = ent{perm: 0644}
		}
	} else {
		for _, n := range fsizes {
			t[fmt.Sprintf("f%d", n)] = ent{perm: 0644, data: body(n)}
		}
	}
	l.fresh(t)
	l.run(func() {
		s := dial(listen())
		defer s.end()
		max := 0
		negotiate := func(n uint64) bool {
			m, _ := s.raw(wire.Tversion, uint32(n), "9P2000")
			if s.dead != "" {
				c.Violate(s.dead, "asked for %d", n)
				return false
			}
			if !ok(m) {
				return false
			}
			got := m.F[0].(uint32)
			if uint64(got) > n {
				c.Violate("the answered message size is larger than the one asked for", "asked %d, got %d", n, got)
				return false
			}
			max = int(got)
			return true
		}
		good := negotiate(asked)
		if c.Violated() {
			return
		}
		if !good && asked >= 256 {
			c.Violate("a reasonable message size is refused", "%d", asked)
			return
		}
		if second != 0 {
			if !negotiate(second) {
				if !c.Violated() && second >= 256 {
					c.Violate("a reasonable message size is refused", "%d, after %d", second, asked)
				}
				return
			}
		} else if !good {
			return
		}
		s.attach(0, "")
		counts := []uint64{0, 1, 2, uint64(max) - 25, uint64(max) - 24, uint64(max) - 23, uint64(max) - 12, uint64(max) - 11, uint64(max) - 10, uint64(max) - 1, uint64(max), uint64(max) + 1, 8192, 65535, 65536, 1 << 20, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 24, 1<<32 - 1}
		counts = uniq(counts)
		read := func(fid uint32, off uint64, n uint32) (wire.Msg, bool) {
			m, ln := s.raw(wire.Tread, fid, off, n)
			c.Count("evaluations", 1)
			if s.dead != "" {
				c.Violate(s.dead, "message size %d", max)
				return m, false
			}
			if ok(m) && ln > max {
				c.Violate(fmt.Sprintf("a read reply of %d bytes with a message size of %d", ln, max), "count %d offset %d", n, off)
				return m, false
			}
			if ok(m) && uint64(len(data(m))) > uint64(n) {
				c.Violate("a read reply has more bytes than asked for", "count %d offset %d: %d", n, off, len(data(m)))
				return m, false
			}
			if !ok(m) && n < 1<<31 && !isdir {
				c.Violate("a read with a positive count fails", "count %d offset %d: %v", n, off, m)
				return m, false
			}
			c.Distinct("nontrivial", fmt.Sprint(max, n, off, fid, len(fmt.Sprint(m))))
			return m, true
		}
		if isdir {
			for _, n := range counts {
				s.walk(0, 1, "dir")
				s.open(1, 0)
				g := &listing{want: map[string]int{}}
				for k := range t {
					if strings.HasPrefix(k, "dir/") {
						g.want[k[4:]] = recSize(k[4:])
					}
				}
				g.rewind()
				zero := false
				for i := 0; i < 10; i++ {
					m, good := read(1, g.off, uint32(n))
					if !good {
						return
					}
					before := g.off
					// room for any entry within both limits?
					room := uint32(n)
					if int64(n) > int64(max)-24 {
						room = uint32(max - 24)
					}
					if n >= 1<<31 && !ok(m) {
						break
					}
					if bad := g.take(m, room); bad != "" && !(ok(m) && len(data(m)) > int(room) && len(data(m)) <= max-11) {
						c.Violate(bad, "message size %d count %d", max, n)
						return
					}
					if g.off == before {
						zero = true
						break
					}
				}
				if !zero && n < 1<<31 {
					c.Violate("a directory listing does not end", "message size %d count %d", max, n)
					return
				}
				s.clunk(1)
			}
			return
		}
		for _, fsz := range fsizes {
			name := fmt.Sprintf("f%d", fsz)
			want := t[name].data
			s.walk(0, 1, name)
			s.open(1, 0)
			for _, n := range counts {
				for _, off := range uniq([]uint64{0, 1, fsz / 2, fsz - 1, fsz, fsz + 1}) {
					if off > 1<<40 {
						continue
					}
					m, good := read(1, off, uint32(n))
					if !good {
						return
					}
					if !ok(m) {
						continue
					}
					rest := ""
					if off < fsz {
						rest = want[off:]
					}
					b := string(data(m))
					if !strings.HasPrefix(rest, b) || n > 0 && b == "" && rest != "" && n < 1<<31 {
						c.Violate("a read gives the wrong bytes", "message size %d file of %d bytes, offset %d count %d: %d bytes", max, fsz, off, n, len(b))
						return
					}
				}
			}
			// the whole file
			for _, n := range counts {
				if n == 0 || n >= 1<<31 || fsz/n > 3000 || max < 200 && fsz > 10000 {
					continue
				}
				var got strings.Builder
				for i := 0; i < 12000; i++ {
					m, good := read(1, uint64(got.Len()), uint32(n))
					if !good {
						return
					}
					if len(data(m)) == 0 {
						break
					}
					got.Write(data(m))
				}
				if got.String() != want {
					c.Violate("reading on does not give the whole file", "message size %d file of %d bytes, count %d: got %d bytes", max, fsz, n, got.Len())
					return
				}
			}
			s.clunk(1)
		}
		if s.dead != "" && !c.Violated() {
			c.Violate(s.dead, "")
		}
	})
}
