package ufsx

import (
	"fmt"
	"sort"
	"strings"

	"ninepverif/kit"
	"ninepverif/wire"
)

// listing is the model of reading one directory through one identifier.
type listing struct {
	want map[string]int // name to size of its record
	got  map[string]bool
	off  uint64
}

func (g *listing) rewind() { g.off, g.got = 0, map[string]bool{} }

// take judges one read reply.
func (g *listing) take(r wire.Msg, count uint32) string {
	var left []string
	least, most := 1<<30, 0
	for n, sz := range g.want {
		if !g.got[n] {
			left = append(left, n)
			least, most = min(least, sz), max(most, sz)
		}
	}
	if !ok(r) {
		if len(left) > 0 && int(count) < most {
			return ""
		}
		return fmt.Sprintf("reading %d bytes with entries of at most %d bytes left fails: %v", count, most, r)
	}
	b := data(r)
	if len(b) > int(count) {
		return fmt.Sprintf("%d bytes were asked for and %d returned", count, len(b))
	}
	if len(b) == 0 && len(left) > 0 && int(count) >= most {
		return fmt.Sprintf("reading %d bytes gives nothing although %v, of at most %d bytes each, are left", count, left, most)
	}
	g.off += uint64(len(b))
	for len(b) > 0 {
		d, rest, err := wire.DecodeDir(b)
		if err != nil {
			return fmt.Sprintf("a read returned something else than whole entries: %v (%q)", err, b)
		}
		if _, have := g.want[d.Name]; !have {
			return fmt.Sprintf("%q is listed and does not exist", d.Name)
		}
		if g.got[d.Name] {
			return fmt.Sprintf("%q is listed twice", d.Name)
		}
		g.got[d.Name] = true
		b = rest
	}
	return ""
}

func (g *listing) missing() (l []string) {
	for n := range g.want {
		if !g.got[n] {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return
}

func recSize(name string) int { return 2 + 39 + 2 + len(name) + 3*2 + 6 + 6 } // user and group "harvey"

// step of a listing script: identifier, count (or rewind).
type dstep struct {
	fid   int
	count uint32
	rew   bool // offset 0 again
}

func (d dstep) String() string {
	s := fmt.Sprintf("%d:%d", d.fid, d.count)
	if d.rew {
		s += "<"
	}
	return s
}

// C18: directories.
func C18(c *kit.Ctx) {
	long := strings.Repeat("n", 255)
	dirs := [][]string{
		{}, {"a"}, {"a", "bb"}, {"a", strings.Repeat("b", 30), "ccc"}, {strings.Repeat("x", 100), "y", "zz", strings.Repeat("w", 41)},
		{"d1", "d2", "d3", "d4", "d5"}, {long, "s", long[:254]},
		{"..x", ".h", "..."}, {"a b", "\xff", "%d", "ü\n"}, {"harvey", "..harvey", "-", "a.", ". "},
	}
	idx := 0
	for di, names := range dirs {
		lo, hi := 1<<20, 0
		for _, n := range names {
			lo, hi = min(lo, recSize(n)), max(hi, recSize(n))
		}
		if len(names) == 0 {
			lo, hi = 60, 61
		}
		var counts []uint32
		for _, n := range []int{0, 1, lo - 1, lo, hi - 1, hi, lo + hi, 3 * hi, 8000} {
			dup := false
			for _, x := range counts {
				dup = dup || x == uint32(n)
			}
			if !dup {
				counts = append(counts, uint32(n))
			}
		}
		depth := 4
		if c.Thorough() {
			depth = 6
			if len(names) > 3 {
				depth = 5
			}
		}
		// one identifier: all sequences of counts and rewinds
		var one []dstep
		for _, n := range counts {
			one = append(one, dstep{0, n, false})
		}
		one = append(one, dstep{0, uint32(hi), true}, dstep{0, uint32(lo - 1), true}, dstep{0, 8000, true})
		var two []dstep
		for f := 0; f < 2; f++ {
			two = append(two, dstep{f, uint32(lo - 1), false}, dstep{f, uint32(hi), false}, dstep{f, 8000, true})
		}
		for k, al := range [][]dstep{one, two} {
			d := depth
			if k == 1 {
				d++
			}
			seq(al, d, func(s []dstep) {
				idx++
				if c.Mine(idx) && c.Case(idx, fmt.Sprintf("dir %d %v", di, s)) {
					listdir(c, names, s)
				}
			})
			if c.Done() {
				return
			}
		}
	}
	// large directories: constant and alternating counts
	sizes := []int{100, 700}
	if c.Thorough() {
		sizes = []int{100, 700, 3000}
	}
	for _, n := range sizes {
		for _, ln := range []int{4, 40, 200} {
			var names []string
			for i := 0; i < n; i++ {
				names = append(names, fmt.Sprintf("%04d%s", i, strings.Repeat("q", ln-4)))
			}
			z := uint32(recSize(names[0]))
			for _, pat := range [][]uint32{{z}, {z - 1, z}, {z, z, z - 1, 0, 8000}, {8000}, {2*z + 1}, {65000}, {z + 1, 0}} {
				idx++
				if c.Case(idx, fmt.Sprintf("large %d %d %v", n, ln, pat)) {
					var s []dstep
					for i := 0; i < n; i++ {
						s = append(s, dstep{0, pat[i%len(pat)], false})
					}
					listdir(c, names, s)
				}
			}
		}
	}
	listings(c)
	others(c, "C18", []string{"more", "sub", "less", "named"}, 4)
}

func seq[T any](al []T, depth int, f func([]T)) {
	s := make([]T, depth)
	var rec func(int)
	rec = func(i int) {
		if i == depth {
			f(s)
			return
		}
		for _, a := range al {
			s[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

func listdir(c *kit.Ctx, names []string, script []dstep) {
	l := newLab(c)
	t := tree{"": {dir: true, perm: 0755}, "dir": {dir: true, perm: 0755}, "other": {perm: 0644}}
	for i, n := range names {
		t["dir/"+n] = ent{dir: i%3 == 1, perm: 0700, data: strings.Repeat("z", i%7*((i+1)%3%2))}
	}
	for k, e := range t {
		if e.dir {
			e.data = ""
			t[k] = e
		}
	}
	l.fresh(t)
	defer l.clean()
	l.run(func() {
		s := dial(listen())
		defer s.end()
		s.version()
		s.attach(0, "")
		g := make([]*listing, 2)
		for f := range g {
			g[f] = &listing{want: map[string]int{}}
			g[f].rewind()
			for _, n := range names {
				g[f].want[n] = recSize(n)
			}
			s.walk(0, uint32(f)+1, "dir")
			if m := s.open(uint32(f)+1, 0); !ok(m) {
				c.Violate("a directory cannot be opened", "%v %s", m, s.dead)
				return
			}
		}
		var log []string
		read := func(st dstep) bool {
			g := g[st.fid]
			if st.rew || g.off == 0 {
				g.rewind()
			}
			r := s.read(uint32(st.fid)+1, g.off, st.count)
			log = append(log, fmt.Sprintf("read %d at %d count %d => %d", st.fid, g.off, st.count, r.Type))
			if s.dead != "" {
				c.Violate(s.dead, "%s", strings.Join(log, "\n"))
				return false
			}
			if bad := g.take(r, st.count); bad != "" {
				c.Violate(bad, "%s", strings.Join(log, "\n"))
				return false
			}
			return true
		}
		for _, st := range script {
			if !read(st) {
				return
			}
		}
		// finish both listings
		for f := range g {
			for i := 0; i <= len(names)+1; i++ {
				before := g[f].off
				if !read(dstep{fid: f, count: 8000}) {
					return
				}
				if g[f].off == before {
					break
				}
			}
			if m := g[f].missing(); len(m) > 0 {
				c.Violate(fmt.Sprintf("a listing ended without %d of %d entries", len(m), len(names)), "%q\n%s", m, strings.Join(log, "\n"))
				return
			}
		}
		key := ""
		for f := range g {
			key += fmt.Sprint(g[f].off, " ")
		}
		c.Distinct("nontrivial", strings.Join(log, "\n"))
	})
}
