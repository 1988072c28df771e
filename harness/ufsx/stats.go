package ufsx

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"ninepverif/kit"
	"ninepverif/wire"
)

// book records which QID was seen for which state of which host file.
type book struct {
	paths map[inode]uint64 // host file to QID path
	inos  map[uint64]inode // and back
	vers  map[inode][]seen
}

// inode identifies a host file.
type inode struct{ dev, ino uint64 }

type seen struct {
	mtime time.Time
	q     wire.Qid
	how   string
}

func newBook() *book {
	return &book{map[inode]uint64{}, map[uint64]inode{}, map[inode][]seen{}}
}

// note judges a QID of the host file st.
func (b *book) note(how string, q wire.Qid, st os.FileInfo, version bool) string {
	sys := st.Sys().(*syscall.Stat_t)
	ino := inode{uint64(sys.Dev), sys.Ino}
	want := uint8(0)
	if st.IsDir() {
		want = 0x80
	}
	if st.Mode()&os.ModeSymlink != 0 {
		want = 0x02
	}
	if q.Type&0x82 != want {
		return fmt.Sprintf("%s: the QID type is %#x for %v", how, q.Type, st.Mode())
	}
	if p, ok := b.paths[ino]; ok && p != q.Path {
		return fmt.Sprintf("%s: the QID path is %#x, but was %#x for the same file", how, q.Path, p)
	}
	if i, ok := b.inos[q.Path]; ok && i != ino {
		return fmt.Sprintf("%s: two different files have QID path %#x", how, q.Path)
	}
	b.paths[ino], b.inos[q.Path] = q.Path, ino
	if !version {
		return ""
	}
	for _, s := range b.vers[ino] {
		d := st.ModTime().Sub(s.mtime)
		if d < 0 {
			d = -d
		}
		if d == 0 && s.q != q {
			return fmt.Sprintf("%s: QID %v, but %s of the same unmodified file gave %v", how, q, s.how, s.q)
		}
		if d >= time.Millisecond && d < 40*24*time.Hour && s.q.Vers == q.Vers {
			return fmt.Sprintf("%s: version %#x after a change of the modification time by %v, as in %s before", how, q.Vers, d, s.how)
		}
	}
	b.vers[ino] = append(b.vers[ino], seen{st.ModTime(), q, how})
	return ""
}

// truth compares a stat record with the host file.
func truth(d wire.Dir, st os.FileInfo, root bool) string {
	mode := uint32(st.Mode().Perm())
	if st.IsDir() {
		mode |= 0x80000000
	}
	switch {
	case d.Mode&0x800001ff != mode:
		return fmt.Sprintf("the mode is %o, the host file's %o", d.Mode, mode)
	case st.Mode().IsRegular() && d.Length != uint64(st.Size()):
		return fmt.Sprintf("the length is %d, the host file's %d", d.Length, st.Size())
	case int64(d.Mtime) != st.ModTime().Unix():
		return fmt.Sprintf("the modification time is %d, the host file's %d", d.Mtime, st.ModTime().Unix())
	case !root && d.Name != st.Name():
		return fmt.Sprintf("the name is %q, the host file's %q", d.Name, st.Name())
	}
	return ""
}

// survey looks at every file of the tree in every way that gives a QID.
func (l *lab) survey(s *sess, b *book) string {
	bad := ""
	fail := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	next := uint32(1000)
	var rec func(rel string, comps []string)
	rec = func(rel string, comps []string) {
		host := filepath.Join(l.root, rel)
		st, err := os.Lstat(host)
		if err != nil || bad != "" {
			return
		}
		link := st.Mode()&os.ModeSymlink != 0
		check := func(how string, q wire.Qid) {
			if r := b.note(how+" of "+fmt.Sprintf("%q", rel), q, st, true); r != "" {
				fail("%s", r)
			}
		}
		next += 4
		f, g, h := next, next+1, next+2
		if !link {
			if m := s.attach(f, rel); ok(m) {
				check("attach", m.F[0].(wire.Qid))
				if d, good := s.stat(f); !good {
					fail("stat of %q after attach fails", rel)
				} else {
					check("stat after attach", d.Qid)
				}
				s.clunk(f)
			} else if st.Mode().Perm() == 0777 {
				fail("attach to %q fails: %v", rel, m)
			}
		}
		// walk all names from the root; every QID on the way
		m := s.walk(0, f, comps...)
		if !ok(m) || len(m.F[0].([]wire.Qid)) != len(comps) {
			fail("walk to %q fails: %v %s", comps, m, s.dead)
			return
		}
		p := l.root
		for i, q := range m.F[0].([]wire.Qid) {
			p = filepath.Join(p, comps[i])
			st, err := os.Lstat(p)
			must(err)
			if r := b.note(fmt.Sprintf("walk %q, name %d", comps, i), q, st, true); r != "" {
				fail("%s", r)
			}
		}
		d, good := s.stat(f)
		if !good {
			fail("stat of %q fails %s", rel, s.dead)
			return
		}
		check("stat", d.Qid)
		if r := truth(d, st, rel == ""); r != "" {
			fail("stat of %q: %s", rel, r)
		}
		if !st.IsDir() && !st.Mode().IsRegular() {
			s.clunk(f) // opening could block
			return
		}
		s.walk(f, g)
		s.walk(f, h)
		if m := s.open(g, 0); ok(m) {
			check("open", m.F[0].(wire.Qid))
			if d, good := s.stat(g); good {
				check("stat of the open identifier", d.Qid)
				if r := truth(d, st, rel == ""); r != "" {
					fail("stat of %q, open: %s", rel, r)
				}
			} else {
				fail("stat of %q, open, fails", rel)
			}
		}
		if st.Mode().Perm()&0200 != 0 && !st.IsDir() {
			if m := s.open(h, 1); ok(m) {
				check("open for writing", m.F[0].(wire.Qid))
			}
		}
		s.clunk(h)
		s.clunk(f)
		if st.IsDir() {
			off := uint64(0)
			var names []string
			for k := 0; k < 5000; k++ {
				r := s.read(g, off, 8000)
				if !ok(r) || len(data(r)) == 0 {
					break
				}
				x := data(r)
				off += uint64(len(x))
				for len(x) > 0 {
					d, rest, err := wire.DecodeDir(x)
					if err != nil {
						fail("reading %q: %v", rel, err)
						return
					}
					x = rest
					est, err := os.Lstat(filepath.Join(host, d.Name))
					if err != nil {
						fail("reading %q lists %q: %v", rel, d.Name, err)
						return
					}
					if r := b.note(fmt.Sprintf("entry %q of %q", d.Name, rel), d.Qid, est, true); r != "" {
						fail("%s", r)
					}
					if r := truth(d, est, false); r != "" {
						fail("entry %q of %q: %s", d.Name, rel, r)
					}
					names = append(names, d.Name)
				}
			}
			s.clunk(g)
			for _, n := range names {
				if rel == "" {
					rec(n, []string{n})
				} else {
					rec(rel+"/"+n, append(append([]string{}, comps...), n))
				}
			}
			return
		}
		s.clunk(g)
	}
	rec("", nil)
	if bad == "" && s.dead != "" {
		bad = s.dead
	}
	return bad
}

// C19: stat data and QIDs.
func C19(c *kit.Ctx) {
	idx := 0
	one := func(key string, t tree, more func(l *lab)) {
		idx++
		if !c.Case(idx, key) {
			return
		}
		l := newLab(c)
		l.fresh(t)
		defer l.clean()
		if more != nil {
			more(l)
		}
		l.run(func() {
			s := dial(listen())
			defer s.end()
			s.version()
			s.attach(0, "")
			b := newBook()
			for k := 0; k < 2; k++ {
				if bad := l.survey(s, b); bad != "" {
					c.Violate(bad, "%s", t.key())
					return
				}
			}
			c.Distinct("nontrivial", key)
		})
	}
	for perm := 0; perm < 512; perm++ {
		p := os.FileMode(perm)
		one(fmt.Sprintf("permissions %o", perm), tree{"": {dir: true, perm: 0755}, "f": {perm: p, data: "x"}, "d": {dir: true, perm: p}, "e": {perm: p ^ 0777}, "d2": {dir: true, perm: p ^ 0777}}, nil)
		if p&0500 == 0500 {
			one(fmt.Sprintf("root permissions %o", perm), tree{"": {dir: true, perm: p}, "f": {perm: 0600, data: "x"}}, nil)
		}
	}
	for _, n := range []string{" ", "a b", "...", ".hidden", "-x", "a\\b", "a\nb", "ünï", "a:b", "\xff\xfe", strings.Repeat("l", 255), "%s", "d.", "harvey", "*", "~", "0"} {
		one(fmt.Sprintf("name %q", n), tree{"": {dir: true, perm: 0755}, n: {perm: 0644, data: "x"}, "sub": {dir: true, perm: 0755}, "sub/" + n: {dir: true, perm: 0755}, "sub/" + n + "/" + n: {perm: 0600}}, nil)
	}
	for _, ln := range []int64{0, 1, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40} {
		one(fmt.Sprintf("length %d", ln), tree{"": {dir: true, perm: 0755}, "f": {perm: 0644}}, func(l *lab) { must(os.Truncate(filepath.Join(l.root, "f"), ln)) })
	}
	times := []time.Time{}
	for _, sec := range []int64{0, 1, 255, 256, 65536, 1e9, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for _, ns := range []int64{0, 1, 999, 999999, 1000000, 499999999, 500000000, 999000000, 999999999} {
			times = append(times, time.Unix(sec, ns))
		}
	}
	for _, tm := range times {
		one(fmt.Sprintf("time %d.%09d", tm.Unix(), tm.Nanosecond()), tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "x"}, "d": {dir: true, perm: 0755}, "l": {link: "f"}}, func(l *lab) {
			for _, n := range []string{"f", "d", ""} {
				must(os.Chtimes(filepath.Join(l.root, n), time.Unix(77, 0), tm))
			}
		})
	}
	kinds := tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "x"}, "g": {perm: 0644, data: "x"}, "empty": {perm: 0644}, "d": {dir: true, perm: 0755}, "d/d": {dir: true, perm: 0755}, "d/f": {perm: 0644, data: "x"},
		"lf": {link: "f"}, "ld": {link: "d"}, "dangling": {link: "nowhere"}, "d/up": {link: ".."}}
	one("kinds", kinds, nil)
	one("kinds and special files", kinds, func(l *lab) {
		must(syscall.Mkfifo(filepath.Join(l.root, "fifo"), 0640))
		must(syscall.Mkfifo(filepath.Join(l.root, "d/fifo2"), 0600))
		if s, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0); err == nil {
			if d, err := syscall.Open(l.root, syscall.O_RDONLY, 0); err == nil {
				// by a short name: that of a socket must not be long
				syscall.Bind(s, &syscall.SockaddrUnix{Name: fmt.Sprintf("/proc/self/fd/%d/sock", d)})
				syscall.Close(d)
			}
			syscall.Close(s)
		}
		os.Chmod(filepath.Join(l.root, "f"), 0644|os.ModeSetuid)
		os.Chmod(filepath.Join(l.root, "d"), 0755|os.ModeSticky)
		os.Chmod(filepath.Join(l.root, "d/d"), 0755|os.ModeSetgid)
	})
	idx++
	if c.Case(idx, "several file systems") {
		several(c)
	}
	for _, n := range []int{300, 70000} {
		idx++
		if c.Case(idx, fmt.Sprintf("%d files", n)) {
			plenty(c, n)
		}
	}
	// histories
	alphabet := []string{"touch f +1ms", "touch f +1s", "touch f -1ms", "touch d +1ms", "touch f +999us", "write f", "append f", "chmod f", "rename f", "rename d", "truncate f", "mtime f", "create in d", "mkdir in d", "open trunc f", "walk and wait"}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	seq(alphabet, depth, func(s []string) {
		idx++
		if c.Mine(idx) && c.Case(idx, fmt.Sprintf("history %q", s)) {
			history(c, s)
		}
	})
	others(c, "C19", []string{"write", "grow", "cut", "chmod", "touch", "remove", "make", "swap", "back", "more", "less"}, 3)
}

// several exports the whole host, just to walk to where its file systems are
// mounted: the first files of many file systems have the same inode number.
func several(c *kit.Ctx) {
	l := newLab(c)
	info, err := os.ReadFile("/proc/self/mountinfo")
	if err != nil {
		return
	}
	l.run(func() {
		l.export("/")
		s := dial(listen())
		defer s.end()
		s.version()
		s.attach(0, "")
		b := newBook()
		devs := map[uint64]bool{}
		for i, line := range strings.Split(string(info), "\n") {
			f := strings.Fields(line)
			if len(f) < 5 || len(devs) > 60 || strings.Contains(f[4], "\\") {
				continue
			}
			names := strings.Split(strings.Trim(f[4], "/"), "/")
			if f[4] == "/" {
				names = nil
			}
			st, err := os.Lstat(f[4])
			if err != nil || !st.IsDir() {
				continue
			}
			fid := uint32(i + 1)
			if len(names) == 0 {
				s.walk(0, fid)
			} else if m := s.walk(0, fid, names...); !ok(m) || len(m.F[0].([]wire.Qid)) != len(names) {
				continue
			}
			d, good := s.stat(fid)
			now, err := os.Lstat(f[4])
			if !good || err != nil || !os.SameFile(st, now) {
				continue
			}
			devs[uint64(st.Sys().(*syscall.Stat_t).Dev)] = true
			c.Count("mounts", 1)
			if bad := b.note("stat of "+f[4], d.Qid, st, false); bad != "" {
				c.Violate(bad, "mounts %q", f[4])
				return
			}
		}
		c.Distinct("nontrivial", fmt.Sprint("file systems ", len(devs)))
	})
}

// plenty looks at the QIDs of many files in one directory.
func plenty(c *kit.Ctx, n int) {
	l := newLab(c)
	l.fresh(tree{"": {dir: true, perm: 0755}, "d": {dir: true, perm: 0755}})
	defer l.clean()
	for i := 0; i < n; i++ {
		must(os.WriteFile(filepath.Join(l.root, "d", fmt.Sprint(i)), nil, 0644))
	}
	l.run(func() {
		s := dial(listen())
		defer s.end()
		s.version()
		s.attach(0, "")
		b := newBook()
		for i := 0; i < n; i++ {
			name := fmt.Sprint(i)
			st, err := os.Lstat(filepath.Join(l.root, "d", name))
			must(err)
			f := uint32(i + 1)
			m := s.walk(0, f, "d", name)
			if !ok(m) || len(m.F[0].([]wire.Qid)) != 2 {
				c.Violate("a file cannot be walked to", "%d files: %v %s", n, m, s.dead)
				return
			}
			if bad := b.note("walk to "+name, m.F[0].([]wire.Qid)[1], st, true); bad != "" {
				c.Violate(bad, "%d files", n)
				return
			}
			s.clunk(f)
		}
		c.Distinct("nontrivial", fmt.Sprint(n, " files"))
	})
}

// history performs changes and surveys the tree after each.
func history(c *kit.Ctx, script []string) {
	l := newLab(c)
	l.fresh(tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "contents"}, "g": {perm: 0644, data: "contents"}, "d": {dir: true, perm: 0755}, "d/x": {perm: 0600, data: "x"}})
	defer l.clean()
	t0 := time.Unix(1500000000, 123456789)
	for _, n := range []string{"f", "g", "d/x", "d", ""} {
		must(os.Chtimes(filepath.Join(l.root, n), t0, t0))
	}
	l.run(func() {
		s := dial(listen())
		defer s.end()
		s.version()
		s.attach(0, "")
		s.walk(0, 1, "f")
		s.walk(0, 2, "d")
		s.walk(0, 3, "f")
		s.open(3, 1)
		fname, dname, made := "f", "d", 0
		b := newBook()
		if bad := l.survey(s, b); bad != "" {
			c.Violate(bad, "before any change")
			return
		}
		wstat := func(f uint32, ch func(*wire.Dir)) wire.Msg {
			d := wire.DontTouch()
			ch(&d)
			return s.do(wire.Twstat, f, wire.EncodeDir(d))
		}
		for i, a := range script {
			fh, dh := filepath.Join(l.root, fname), filepath.Join(l.root, dname)
			move := func(n string, d time.Duration) {
				st, err := os.Lstat(n)
				must(err)
				must(os.Chtimes(n, t0, st.ModTime().Add(d)))
			}
			var m wire.Msg
			m.Type = 1
			switch a {
			case "touch f +1ms":
				move(fh, time.Millisecond)
			case "touch f +999us":
				move(fh, 999*time.Microsecond)
			case "touch f +1s":
				move(fh, time.Second)
			case "touch f -1ms":
				move(fh, -time.Millisecond)
			case "touch d +1ms":
				move(dh, time.Millisecond)
			case "write f":
				m = s.write(3, 0, "new")
			case "append f":
				m = s.write(3, 50, "appended")
			case "chmod f":
				m = wstat(1, func(d *wire.Dir) { d.Mode = 0600 + uint32(i) })
			case "rename f":
				fname = fmt.Sprintf("f%d", i)
				m = wstat(1, func(d *wire.Dir) { d.Name = fname })
				s.clunk(3)
				s.walk(0, 3, fname)
				s.open(3, 1)
			case "rename d":
				dname = fmt.Sprintf("d%d", i)
				m = wstat(2, func(d *wire.Dir) { d.Name = dname })
			case "truncate f":
				m = wstat(1, func(d *wire.Dir) { d.Length = 3 })
			case "mtime f":
				m = wstat(1, func(d *wire.Dir) { d.Mtime = 1400000000 + uint32(i) })
			case "open trunc f":
				s.walk(1, 4)
				m = s.open(4, 0x11)
				s.clunk(4)
			case "create in d", "mkdir in d":
				s.walk(2, 4)
				perm := uint32(0640)
				if a == "mkdir in d" {
					perm = 0x80000000 | 0750
				}
				made++
				n := fmt.Sprintf("new%d", made)
				m = s.do(wire.Tcreate, uint32(4), n, perm, uint8(1))
				if ok(m) {
					st, err := os.Lstat(filepath.Join(dh, n))
					if err != nil {
						c.Violate("a created file does not exist", "%v", err)
						return
					}
					if bad := b.note("create "+n, m.F[0].(wire.Qid), st, true); bad != "" {
						c.Violate(bad, "%q", script)
						return
					}
				}
				s.clunk(4)
			case "walk and wait":
				s.walk(0, 4, fname)
				s.clunk(4)
			}
			if m.Type != 1 && !ok(m) {
				c.Violate(fmt.Sprintf("%s fails", a), "%v %s in %q", m, s.dead, script)
				return
			}
			if bad := l.survey(s, b); bad != "" {
				c.Violate(bad, "after %q, step %d", script, i+1)
				return
			}
			for f, n := range map[uint32]string{1: fname, 2: dname, 3: fname} {
				d, good := s.stat(f)
				st, err := os.Lstat(filepath.Join(l.root, n))
				must(err)
				if !good {
					c.Violate(fmt.Sprintf("stat of fid %d (%s) fails", f, n), "after %q, step %d", script, i+1)
					return
				}
				bad := truth(d, st, false)
				if bad == "" {
					bad = b.note("stat of an old identifier", d.Qid, st, true)
				}
				if bad != "" {
					c.Violate(fmt.Sprintf("stat of fid %d (%s): %s", f, n, bad), "after %q, step %d", script, i+1)
					return
				}
			}
		}
		c.Distinct("nontrivial", fmt.Sprint(script))
	})
}

var _ = bytes.Equal
