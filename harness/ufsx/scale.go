package ufsx

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"ninepverif/kit"
	"ninepverif/wire"
)

// What depends on how much there is: files, requests and directories of sizes
// around the powers of two, and many identifiers at once.

func around(lo, hi int) (r []int) {
	for k := lo; k <= hi; k++ {
		r = append(r, 1<<k-1, 1<<k, 1<<k+1)
	}
	return
}

func noise(n int) []byte {
	b := make([]byte, n)
	x := uint32(n)*2654435761 + 1
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// filesizes reads and writes files of many sizes: at offsets around their ends
// and the multiples of usual buffer sizes, with as many counts.
func filesizes(c *kit.Ctx) {
	lens := append(around(9, 17), 0, 1, 3*4096, 3*8192, 5*8192, 3*32768, 65512, 65513, 100000)
	counts := append(around(9, 15), 1, 1000, 24576, 65000, 65511, 65512)
	for i, n := range lens {
		if c.Case(i+1, fmt.Sprintf("file of %d bytes", n)) {
			c.Count("traces_validated_against_impl", 1)
			c.Eval(len(counts))
			ofSize(c, n, counts)
		}
		if c.Done() {
			return
		}
	}
}

func ofSize(c *kit.Ctx, n int, counts []int) {
	want := noise(n)
	l := newLab(c)
	l.fresh(tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: string(want)}})
	defer l.clean()
	l.run(func() {
		s := dial(listen())
		defer s.end()
		s.version()
		s.attach(0, "")
		s.walk(0, 1, "f")
		s.open(1, 2)
		bad := false
		read := func(off, cnt int) int {
			if off < 0 || bad {
				return 0
			}
			m := s.read(1, uint64(off), uint32(cnt))
			var w []byte
			if off < len(want) {
				w = want[off:min(len(want), off+cnt)]
			}
			if !ok(m) || !bytes.Equal(data(m), w) {
				bad = true
				g := 0
				if ok(m) {
					g = len(data(m))
				}
				c.Violate("a read gives the wrong bytes", "file of %d bytes, %d at %d: type %d, %d bytes, want %d; %s", len(want), cnt, off, m.Type, g, len(w), s.dead)
			}
			return len(w)
		}
		for _, cnt := range counts {
			// from the start to the end
			if cnt >= 511 || n <= 1025 {
				for off := 0; !bad; {
					k := read(off, cnt)
					if k == 0 {
						break
					}
					off += k
				}
			}
			for _, off := range []int{1, n, n - 1, n + 1, n - cnt, n - cnt + 1, n - cnt - 1, n - 2*cnt} {
				read(off, cnt)
			}
			for _, back := range around(9, 15) {
				read(n-back, cnt)
			}
		}
		write := func(off, cnt int) {
			if off < 0 || bad {
				return
			}
			b := noise(cnt)
			m := s.write(1, uint64(off), string(b))
			if !ok(m) || m.F[0].(uint32) != uint32(cnt) {
				bad = true
				c.Violate("a write is not executed", "file of %d bytes, %d at %d: %v %s", len(want), cnt, off, m, s.dead)
				return
			}
			if off+cnt > len(want) {
				want = append(want, make([]byte, off+cnt-len(want))...)
			}
			copy(want[off:], b)
			h, err := os.ReadFile(filepath.Join(l.root, "f"))
			if err != nil || !bytes.Equal(h, want) {
				bad = true
				c.Violate("a write of many bytes does not do what it must", "file of %d bytes, %d at %d: %v, length %d", n, cnt, off, err, len(h))
			}
		}
		for _, cnt := range counts {
			for _, off := range []int{0, n - cnt, n, n - 1} {
				write(off, cnt)
				read(off, cnt)
			}
			// and again small, for the next count
			if !bad {
				want = want[:min(n, len(want))]
				must(os.Truncate(filepath.Join(l.root, "f"), int64(len(want))))
			}
		}
	})
}

// listings of directories of many sizes.
func listings(c *kit.Ctx) {
	ns := around(8, 10)
	for n := 0; n <= 140; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 150, 192, 200, 300, 320, 384, 400, 500, 640, 768, 1000)
	idx := 0
	for _, n := range ns {
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("%04d", i))
		}
		z := uint32(recSize("0000"))
		for _, cnt := range []uint32{8000, z, 3*z + 5, 65000} {
			idx++
			if c.Case(idx, fmt.Sprintf("%d entries, %d bytes", n, cnt)) {
				var s []dstep
				for i := 0; i <= n; i++ {
					s = append(s, dstep{0, cnt, false})
				}
				listdir(c, names, s)
			}
		}
		if c.Done() {
			return
		}
	}
}

// crowd has many identifiers open at once, on files of their own, some of
// which are removed or renamed by others meanwhile.
func crowd(c *kit.Ctx) {
	ns := []int{5, 8, 9, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 66, 80, 100, 127, 128, 129, 130, 150, 200, 255, 256, 257, 300, 400, 513, 600, 700}
	idx := 0
	for _, n := range ns {
		for _, how := range []string{"leave", "remove", "rename", "swap", "clunk", "same"} {
			idx++
			if c.Case(idx, fmt.Sprintf("%d open, %s", n, how)) {
				c.Count("traces_validated_against_impl", 1)
				c.Eval(1)
				crowded(c, n, how)
			}
			if c.Done() {
				return
			}
		}
	}
}

func crowded(c *kit.Ctx, n int, how string) {
	const other = 100000
	name := func(i int) string { return fmt.Sprintf("f%d", i) }
	t := tree{"": {dir: true, perm: 0755}}
	for i := 0; i < n; i++ {
		if i%9 == 4 {
			t[name(i)] = ent{dir: true, perm: 0755}
			t[name(i)+"/in"+name(i)] = ent{perm: 0600}
		} else {
			t[name(i)] = ent{perm: 0644, data: "this is " + name(i)}
		}
	}
	l := newLab(c)
	l.fresh(t)
	defer l.clean()
	defer noGC()()
	defer runtime.GC()
	l.run(func() {
		s := dial(listen())
		defer s.end()
		s.version()
		s.attach(0, "")
		fail := func(i int, what string, m wire.Msg) bool {
			c.Violate(what, "%d identifiers, %s, identifier %d: %v %s", n, how, i, m, s.dead)
			return false
		}
		isDir := func(i int) bool { return i%9 == 4 }
		// with "same", all identifiers are of a few files
		of := func(i int) int {
			if how == "same" {
				return i % 9
			}
			return i
		}
		want := map[int]string{}
		for i := 0; i < n; i++ {
			want[of(i)] = "this is " + name(of(i))
		}
		open := map[int]bool{}
		count := func(when string) bool {
			if g := descriptors(l.root); len(g) != len(open) {
				c.Violate(fmt.Sprintf("the server holds another number of host files open than identifiers are"), "%s, %s: %d identifiers, %d files", how, when, len(open), len(g))
				return false
			}
			return true
		}
		check := func(i int, write bool) bool {
			if isDir(of(i)) {
				m := s.read(uint32(i+1), 0, 8000)
				if !ok(m) {
					return fail(i, "an open directory cannot be read", m)
				}
				d, rest, err := wire.DecodeDir(data(m))
				if err != nil || len(rest) > 0 || d.Name != "in"+name(of(i)) {
					return fail(i, "an open directory is not read as it is", m)
				}
				return true
			}
			m := s.read(uint32(i+1), 0, 100)
			if !ok(m) || string(data(m)) != want[of(i)] {
				return fail(i, "an open identifier does not read its file", m)
			}
			if write {
				m := s.write(uint32(i+1), uint64(i%5), "W"+name(i))
				if !ok(m) {
					return fail(i, "an open identifier does not write its file", m)
				}
				w := []byte(want[of(i)])
				for len(w) < i%5+1+len(name(i)) {
					w = append(w, 0)
				}
				copy(w[i%5:], "W"+name(i))
				want[of(i)] = string(w)
			}
			return true
		}
		for i := 0; i < n; i++ {
			if m := s.walk(0, uint32(i+1), name(of(i))); !ok(m) || len(m.F[0].([]wire.Qid)) != 1 {
				fail(i, "a walk fails", m)
				return
			}
			mode := uint8(2)
			if isDir(of(i)) {
				mode = 0
			}
			if m := s.open(uint32(i+1), mode); !ok(m) {
				fail(i, "an open fails", m)
				return
			}
			open[i] = true
		}
		if !count("after the opens") {
			return
		}
		// through identifiers that are not open
		at := map[int]string{}
		for i := 0; i < n; i++ {
			at[i] = name(i)
		}
		wstat := func(f uint32, to string) wire.Msg {
			d := wire.DontTouch()
			d.Name = to
			return s.do(wire.Twstat, f, wire.EncodeDir(d))
		}
		for i := 0; i < n && how != "leave" && how != "same"; i++ {
			if isDir(i) || i%3 == 1 {
				continue
			}
			var m wire.Msg
			if how == "clunk" {
				m = s.clunk(uint32(i + 1))
				delete(open, i)
			} else {
				s.walk(0, other, name(i))
				switch {
				case how == "remove":
					m = s.remove(other)
					at[i] = ""
				case how == "rename":
					m = wstat(other, "was"+name(i))
					at[i] = "was" + name(i)
					s.clunk(other)
				case how == "swap" && i%3 == 0 && i+2 < n && !isDir(i+2):
					// two files exchange their names
					s.walk(0, other+1, name(i+2))
					m = wstat(other, "tmp")
					m = wstat(other+1, name(i))
					m = wstat(other, name(i+2))
					at[i], at[i+2] = name(i+2), name(i)
					s.clunk(other)
					s.clunk(other + 1)
				default:
					m = s.clunk(other)
				}
			}
			if !ok(m) {
				fail(i, "a request on one of many files fails", m)
				return
			}
		}
		if !count("after " + how) {
			return
		}
		for k := 0; k < n; k++ {
			i := n - 1 - k
			if open[i] && !check(i, true) {
				return
			}
		}
		for i := 0; i < n; i++ {
			if open[i] && !check(i, false) {
				return
			}
		}
		if !count("after use") {
			return
		}
		got := look(l.root)
		for i := 0; i < n; i++ {
			if isDir(of(i)) || at[i] == "" || of(i) != i {
				continue
			}
			if e, have := got[at[i]]; !have || e.data != want[i] {
				c.Violate("a host file does not hold what was written through its identifier", "%s: %q is %s, want %q", how, at[i], e, want[i])
				return
			}
		}
		for i := 0; i < n; i += 2 {
			if open[i] {
				s.clunk(uint32(i + 1))
				delete(open, i)
			}
		}
		if !count("after half were clunked") {
			return
		}
		for i := 1; i < n; i += 2 {
			if open[i] && !check(i, false) {
				return
			}
		}
		for i := 1; i < n; i += 2 {
			if open[i] {
				if m := s.clunk(uint32(i + 1)); !ok(m) {
					fail(i, "a clunk fails", m)
					return
				}
				delete(open, i)
			}
		}
		count("after all were clunked")
		// and the numbers can be used again
		for i := 0; i < n && how == "leave"; i++ {
			if m := s.walk(0, uint32(i+1), name(n-1-i)); !ok(m) {
				fail(i, "an identifier that was clunked cannot be used again", m)
				return
			}
			if m := s.do(wire.Tstat, uint32(i+1)); !ok(m) || !strings.Contains(string(data(m)), name(n-1-i)) {
				fail(i, "an identifier used again is of another file", m)
				return
			}
		}
	})
}
