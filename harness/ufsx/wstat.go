package ufsx

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"ninepverif/kit"
	"ninepverif/wire"
)

// attr is what C20 knows about a host file.
type attr struct {
	dir          bool
	perm         uint32
	size         int64
	data         string
	atime, mtime int64 // ns
	ino          uint64
}

type attrs map[string]attr

func (a attrs) clone() attrs {
	r := attrs{}
	for k, v := range a {
		r[k] = v
	}
	return r
}

// lookAttrs reads all attributes before any contents, which would change atime.
func lookAttrs(root string) attrs {
	r := attrs{}
	must(filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil && d == nil {
			return err
		}
		st, err := os.Lstat(p)
		if err != nil {
			return err
		}
		s := st.Sys().(*syscall.Stat_t)
		rel, _ := filepath.Rel(root, p)
		if rel == "." {
			rel = ""
		}
		a := attr{dir: st.IsDir(), perm: uint32(st.Mode().Perm()), mtime: st.ModTime().UnixNano(), atime: s.Atim.Nano(), ino: s.Ino}
		if !a.dir {
			a.size = st.Size()
		}
		r[rel] = a
		if a.dir && a.perm&0500 != 0500 {
			os.Chmod(p, 0700)
		}
		return nil
	}))
	for k, a := range r {
		p := filepath.Join(root, k)
		if !a.dir && a.size < 1<<20 {
			os.Chmod(p, 0600)
			b, err := os.ReadFile(p)
			must(err)
			a.data = string(b)
			r[k] = a
			os.Chtimes(p, time.Unix(0, a.atime), time.Unix(0, a.mtime))
			os.Chmod(p, os.FileMode(a.perm))
		}
	}
	for k, a := range r {
		if a.dir {
			p := filepath.Join(root, k)
			os.Chtimes(p, time.Unix(0, a.atime), time.Unix(0, a.mtime))
			os.Chmod(p, os.FileMode(a.perm))
		}
	}
	return r
}

// change is a wstat request.
type change struct {
	mode   uint32
	length uint64
	name   string
	mtime  uint32
	atime  uint32
	uid    string
	gid    string
}

const no32, no64 = ^uint32(0), ^uint64(0)

func none() change { return change{mode: no32, length: no64, mtime: no32, atime: no32} }

func (ch change) String() string {
	var l []string
	add := func(c bool, f string, v any) {
		if c {
			l = append(l, fmt.Sprintf(f, v))
		}
	}
	add(ch.name != "", "name %q", ch.name)
	add(ch.mode != no32, "mode %o", ch.mode)
	add(ch.length != no64, "length %d", ch.length)
	add(ch.mtime != no32, "mtime %d", ch.mtime)
	add(ch.atime != no32, "atime %d", ch.atime)
	add(ch.uid != "", "uid %q", ch.uid)
	add(ch.gid != "", "gid %q", ch.gid)
	return "{" + strings.Join(l, " ") + "}"
}

func (ch change) bytes() []byte {
	d := wire.DontTouch()
	d.Mode, d.Length, d.Name, d.Mtime, d.Atime, d.Uid, d.Gid = ch.mode, ch.length, ch.name, ch.mtime, ch.atime, ch.uid, ch.gid
	return wire.EncodeDir(d)
}

func (ch change) count() (n int) {
	for _, b := range []bool{ch.name != "", ch.mode != no32, ch.length != no64, ch.mtime != no32 || ch.atime != no32} {
		if b {
			n++
		}
	}
	return
}

// steps are the single changes in the order in which the server makes them.
func (ch change) steps() (r []change) {
	if ch.name != "" {
		s := none()
		s.name = ch.name
		r = append(r, s)
	}
	if ch.mode != no32 {
		s := none()
		s.mode = ch.mode
		r = append(r, s)
	}
	if ch.length != no64 {
		s := none()
		s.length = ch.length
		r = append(r, s)
	}
	if ch.mtime != no32 || ch.atime != no32 {
		s := none()
		s.mtime, s.atime = ch.mtime, ch.atime
		r = append(r, s)
	}
	return
}

// target of a rename.
func (ch change) target(p string) string {
	if ch.name == "" {
		return p
	}
	if ch.name[0] == '/' {
		return join("", ch.name)
	}
	return join(parent(p), ch.name)
}

// done is the state after the change to p was made completely.
func (ch change) done(s attrs, p string) (attrs, string) {
	n := s.clone()
	q := ch.target(p)
	if q != p {
		for k, v := range s {
			if k == p || strings.HasPrefix(k, p+"/") {
				delete(n, k)
				n[q+k[len(p):]] = v
			}
		}
	}
	a := n[q]
	if ch.mode != no32 {
		a.perm = ch.mode & 0777
	}
	if ch.length != no64 {
		l := int64(ch.length)
		switch {
		case l < a.size && l >= 0:
			a.data = clip(a.data, int(l))
		case l >= a.size && l < 1<<20:
			a.data += strings.Repeat("\x00", int(l-a.size))
		default:
			a.data = ""
		}
		a.size = l
		a.mtime = -1 // the host sets it
	}
	if ch.mtime != no32 {
		a.mtime = int64(ch.mtime) * 1e9
	}
	if ch.atime != no32 {
		a.atime = int64(ch.atime) * 1e9
	}
	n[q] = a
	return n, q
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// differ compares; directories in which names changed have new times.
func differ(got, want attrs, renamed bool) string {
	var r []string
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			r = append(r, fmt.Sprintf("%q is missing", k))
			continue
		}
		if w.mtime == -1 {
			g.mtime = -1
		}
		if renamed && w.dir {
			g.mtime, w.mtime = 0, 0
		}
		if w.dir {
			g.atime, w.atime = 0, 0 // looking around changes it
			if strings.Contains(k, "keep") {
				g.atime = 0
			}
		}
		if g != w {
			r = append(r, fmt.Sprintf("%q is %+v, must be %+v", k, g, w))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			r = append(r, fmt.Sprintf("%q is there, must not be", k))
		}
	}
	return strings.Join(r, "; ")
}

// permits: what the host certainly allows.
func (ch change) permits(s attrs, p string) bool {
	a := s[p]
	if ch.uid != "" || ch.gid != "" {
		return false
	}
	if ch.name != "" {
		q := ch.target(p)
		par, ok := s[parent(q)]
		if _, exists := s[q]; exists || p == "" || !ok || !par.dir || par.perm&0300 != 0300 || s[parent(p)].perm&0300 != 0300 || strings.HasPrefix(q, p+"/") {
			return false
		}
		if a.dir && a.perm&0200 == 0 {
			return false // moving needs .. rewritten
		}
	}
	if s[parent(p)].perm&0100 == 0 {
		return false
	}
	if ch.length != no64 {
		perm := a.perm
		if ch.mode != no32 {
			perm &= ch.mode
		}
		if a.dir || perm&0200 == 0 || ch.length > 1<<40 {
			return false
		}
	}
	return true
}

func wtree() tree {
	return tree{
		"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "contents of f"}, "g": {perm: 0600, data: "g"}, "d": {dir: true, perm: 0755}, "d/in": {perm: 0644, data: "in d"},
		"empty": {dir: true, perm: 0711}, "ro": {dir: true, perm: 0555}, "ro/h": {perm: 0644, data: "h"}, "locked": {perm: 0444, data: "not writable"},
	}
}

// wcase performs wstats in a row, each through fid 1, which denotes file.
func wcase(c *kit.Ctx, file string, mode int, raw []byte, chs []change) {
	l := newLab(c)
	l.fresh(wtree())
	defer l.clean()
	for i, n := range wtree().paths() {
		must(os.Chtimes(filepath.Join(l.root, n), time.Unix(1300000000+int64(i), 111), time.Unix(1400000000+int64(i), 222)))
	}
	l.run(func() {
		s := dial(listen())
		defer s.end()
		s.version()
		s.attach(0, "")
		if file == "" {
			s.walk(0, 1)
		} else {
			s.walk(0, 1, strings.Split(file, "/")...)
		}
		if mode >= 0 {
			if m := s.open(1, uint8(mode)); !ok(m) {
				return
			}
		}
		p := file
		var log []string
		for i, ch := range chs {
			before := lookAttrs(l.root)
			b := ch.bytes()
			if raw != nil {
				b = raw
			}
			m := s.do(wire.Twstat, uint32(1), b)
			log = append(log, fmt.Sprintf("%v => %v", ch, m))
			viol := func(what string, f string, a ...any) {
				c.Violate(what, "wstat %d of %q (%q):\n%s\n%s", i+1, p, file, strings.Join(log, "\n"), fmt.Sprintf(f, a...))
			}
			if s.dead != "" {
				viol(s.dead, "")
				return
			}
			after := lookAttrs(l.root)
			if raw != nil {
				if ok(m) {
					viol("an undecodable record is accepted", "%x", raw)
				} else if d := differ(after, before, false); d != "" {
					viol("an undecodable record changes something", "%s", d)
				}
				return
			}
			q := ch.target(p)
			_, exists := before[q]
			want, _ := ch.done(before, p)
			if !ok(m) {
				if d := differ(after, before, false); d != "" {
					// Listed: the changes before the one the host refused were made.
					steps := ch.steps()
					st, pp, listed := before, p, false
					for k := 0; k+1 < len(steps) && ch.uid == "" && ch.gid == ""; k++ {
						if exists && q != p && before[q].dir {
							break
						}
						st, pp = steps[k].done(st, pp)
						if differ(after, st, ch.name != "") == "" {
							listed = true
							break
						}
					}
					if !listed {
						viol("a failed wstat changed something", "%s", d)
						return
					}
					c.Known("multi-attr-partial", "a failed wstat of several attributes changed some of them", "wstat of %q: %v", p, ch)
					if c.Violated() {
						return
					}
					p = pp
				} else if ch.permits(before, p) {
					viol("a wstat the host permits fails", "")
					return
				}
			} else {
				if ch.uid != "" || ch.gid != "" {
					viol("a wstat of the owner or group is reported as successful", "")
					return
				}
				if ch.name != "" && exists && before[q].dir && q != p {
					viol("a rename onto a directory is reported as successful", "")
					return
				}
				if d := differ(after, want, ch.name != ""); d != "" {
					viol("a successful wstat left the wrong state", "%s", d)
					return
				}
				p = q
			}
			// The identifier denotes the file, under its name.
			if before2 := lookAttrs(l.root); before2[parent(p)].perm&0100 != 0 {
				a := before2[p]
				d, good := s.stat(1)
				if !good || p != "" && d.Name != path.Base(p) || d.Mode&0777 != a.perm || !a.dir && d.Length != uint64(a.size) {
					viol("the identifier does not denote the file after the wstat", "stat: %v %+v; must be %q %+v %s", good, d, p, a, s.dead)
					return
				}
				s.walk(1, 2)
				if r := s.open(2, 0); ok(r) && !a.dir {
					if r := s.read(2, 0, 4000); a.size < 1<<20 && (!ok(r) || string(data(r)) != clip(a.data, 4000)) {
						viol("the identifier does not denote the file after the wstat", "its contents are %v, must be %.100q", r, a.data)
						return
					}
				}
				s.clunk(2)
				if mode == 2 && !a.dir && a.size < 1<<20 {
					if r := s.read(1, 0, 4000); !ok(r) || string(data(r)) != clip(a.data, 4000) {
						viol("the open identifier cannot read its file after the wstat", "%v, must be %.100q", r, a.data)
						return
					}
				}
			}
		}
		c.Distinct("nontrivial", fmt.Sprint(file, mode, strings.Join(log, "\n")))
	})
}

// C20: wstat.
func C20(c *kit.Ctx) {
	modes := []uint32{no32, 0, 0444, 0600, 0777, 0x80000000 | 0755}
	lengths := []uint64{no64, 0, 3, 13, 100, 1 << 33, 1 << 63}
	names := []string{"", "new", "g", "d", "empty", "f", "/d/new", "/ro/x", "d2"}
	mtimes := []uint32{no32, 0, 1234567890, no32 - 1}
	atimes := []uint32{no32, 0, 987654321}
	files := []string{"f", "d", "empty", "d/in", "ro/h", "locked", ""}
	idx := 0
	for _, file := range files {
		for _, mode := range modes {
			for _, ln := range lengths {
				for _, nm := range names {
					for _, mt := range mtimes {
						for _, at := range atimes {
							ch := change{mode: mode, length: ln, name: nm, mtime: mt, atime: at}
							idx++
							if c.Mine(idx) && c.Case(idx, fmt.Sprintf("one %q %v", file, ch)) {
								wcase(c, file, -1, nil, []change{ch})
							}
						}
					}
				}
			}
			if c.Done() {
				return
			}
		}
	}
	// Owner and group, with everything else.
	for _, file := range files {
		for _, ug := range [][2]string{{"harvey", ""}, {"", "harvey"}, {"nobody", "nogroup"}, {"root", "root"}, {"x", "x"}} {
			for _, mode := range modes[:4] {
				for _, ln := range lengths[:3] {
					for _, nm := range names[:2] {
						for _, mt := range mtimes[:2] {
							idx++
							ch := change{mode: mode, length: ln, name: nm, mtime: mt, atime: no32, uid: ug[0], gid: ug[1]}
							if c.Case(idx, fmt.Sprintf("owner %q %v", file, ch)) {
								wcase(c, file, -1, nil, []change{ch})
							}
						}
					}
				}
			}
		}
	}
	// All permission bits.
	for m := uint32(0); m < 512; m++ {
		for _, file := range []string{"f", "empty", "locked"} {
			ch := none()
			ch.mode = m
			idx++
			if c.Case(idx, fmt.Sprintf("mode %q %o", file, m)) {
				wcase(c, file, -1, nil, []change{ch})
			}
		}
	}
	// Sequences, on open and closed identifiers.
	mk := func(f func(*change)) change { ch := none(); f(&ch); return ch }
	al := []change{
		none(), mk(func(c *change) { c.mode = 0600 }), mk(func(c *change) { c.mode = 0444 }), mk(func(c *change) { c.length = 2 }), mk(func(c *change) { c.length = 50 }),
		mk(func(c *change) { c.name = "new" }), mk(func(c *change) { c.name = "f" }), mk(func(c *change) { c.name = "/d/new" }), mk(func(c *change) { c.name = "d" }), mk(func(c *change) { c.name = "new2"; c.mode = 0640 }),
		mk(func(c *change) { c.mtime = 1234567890 }), mk(func(c *change) { c.atime = 1234567 }), mk(func(c *change) { c.mtime = 5; c.atime = 6 }), mk(func(c *change) { c.uid = "x"; c.mode = 0 }),
		mk(func(c *change) { c.length = 5; c.mtime = 77 }),
	}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	for _, file := range []string{"f", "empty"} {
		for _, om := range []int{-1, 0, 2} {
			seq(al, depth, func(s []change) {
				idx++
				if c.Mine(idx) && c.Case(idx, fmt.Sprintf("seq %q %d %v", file, om, s)) {
					wcase(c, file, om, nil, append([]change{}, s...))
				}
			})
			if c.Done() {
				return
			}
		}
	}
	oddRenames(c)
	others(c, "C20", []string{"write", "grow", "cut", "chmod", "touch", "remove", "make", "swap", "back"}, 3)
	// Undecodable records: every cut, and strings longer than what follows.
	for k, ch := range []change{
		mk(func(c *change) { c.mode = 0 }), mk(func(c *change) { c.length = 0 }), mk(func(c *change) { c.name = "new" }),
		mk(func(c *change) { c.mode = 0600; c.length = 1; c.name = "new"; c.mtime = 3; c.atime = 4 }),
	} {
		b := ch.bytes()
		for n := 0; n < len(b); n++ {
			idx++
			if c.Case(idx, fmt.Sprintf("cut %d %d", k, n)) {
				wcase(c, "f", -1, b[:n], []change{ch})
			}
		}
		for off := 41; off+2 <= len(b); off++ {
			x := append([]byte{}, b...)
			x[off], x[off+1] = 0xff, 0xff
			if _, err := decodeLoose(x); err == nil {
				continue
			}
			idx++
			if c.Case(idx, fmt.Sprintf("string length %d %d", k, off)) {
				wcase(c, "f", -1, x, []change{ch})
			}
		}
	}
}

// decodeLoose decodes a record ignoring its leading size.
func decodeLoose(b []byte) (wire.Dir, error) {
	y := append([]byte{}, b...)
	// a size that fits what is there
	for n := len(y) - 2; n >= 0; n-- {
		y[0], y[1] = byte(n), byte(n>>8)
		if d, _, err := wire.DecodeDir(y); err == nil {
			return d, nil
		}
	}
	return wire.Dir{}, fmt.Errorf("undecodable")
}
