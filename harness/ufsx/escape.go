package ufsx

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"ninepverif/kit"
	"ninepverif/wire"
)

// C15: containment. Every sequence of requests is performed in two worlds that
// differ only outside of the exported root. The replies must be the same, name
// no outside file's QID, and leave everything outside as it was.
func C15(c *kit.Ctx) {
	e := &escape{l: newLab(c), c: c}
	names := []string{"..", ".", "", "/", "../..", "../secret2", "../../secret", "/secret2", "/../secret2", "a/../../secret2",
		"d/../..", "../root", "../rootx", "../root2", "/../root2/inner", "../rootx/new", "x", "2/inner", "..x", "/../root2/new2", "$R", "$Rx", "$R2/new2", "$R/d/x", "$U/secret2", "..$R2", "d", "a", "new", "d/e", "/d/new", "./../up", "..\x00", "secret2/", "//..//..", "e/../../.."}
	few := []string{"/../root2/new2", "$R2/inner", "..", "", "/", "../secret2", "../../secret", "/../secret2", "../rootx", "d/../../secret2", "d", "new", "a"}
	attaches := []string{"", "/", "d", "..", "../..", "/../secret2", "../rootx", "d/../..", "a/../../..", "../root2", "/d/../../up", "$R2", "$R/d", "$U", "/../root2"}
	var walks [][]string
	walks = append(walks, nil)
	for _, a := range names {
		walks = append(walks, []string{a})
		for _, b := range few {
			walks = append(walks, []string{a, b})
		}
	}
	walks = append(walks, []string{"..", "..", ".."}, []string{"d", "..", "..", "secret2"}, []string{"d", "e", "..", "..", "..", "secret2"}, []string{"d", "..", "..", "root2", "inner"},
		[]string{"..", "rootx"}, []string{"..", "..", "secret"}, []string{"d", "../..", "root2"}, []string{"..", "..", "..", "etc", "passwd"}, []string{"/etc/passwd"}, []string{"../../../../../../../../etc/passwd"})
	acts := func(names []string) (r []op) {
		for _, n := range names {
			r = append(r, op{t: wire.Tcreate, f: 1, name: n, perm: 0640, mode: 1}, op{t: wire.Tcreate, f: 1, name: n, perm: 0x80000000 | 0750}, op{t: wire.Twstat, f: 1, name: n},
				op{t: wire.Twalk, f: 1, g: 1, names: []string{n}}, op{t: wire.Twalk, f: 1, g: 2, names: []string{n}})
		}
		for _, m := range []uint8{0, 1, 0x11, 2} {
			r = append(r, op{t: wire.Topen, f: 1, mode: m})
		}
		r = append(r, op{t: wire.Tremove, f: 1}, op{t: wire.Tremove, f: 0}, op{t: wire.Tstat, f: 1}, op{t: wire.Twstat, f: 0, name: "moved"}, op{t: wire.Topen, f: 2, mode: 0x11}, op{t: wire.Tremove, f: 2})
		return
	}
	// One walk, one action, from every kind of attach.
	a1 := acts(names)
	idx := 0
	at := attaches
	if !c.Thorough() {
		at = append(append([]string{}, attaches[:7]...), "$R2", "/../root2")
	}
	for _, a := range at {
		for _, w := range walks {
			if !c.Thorough() && a != "" && len(w) > 1 {
				continue // quick: from other attach points walks of one name
			}
			for _, o := range a1 {
				idx++
				e.try(idx, "", []op{{t: wire.Tattach, f: 0, name: a}, {t: wire.Twalk, f: 0, g: 1, names: w}, o})
			}
		}
	}
	// Two actions, from few places.
	places := [][]string{nil, {"d"}, {"a"}, {"d", "e"}}
	a2 := acts(few)
	for _, w := range places {
		for _, o := range a2 {
			for _, q := range a2 {
				idx++
				e.try(idx, "", []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: w}, o, q})
			}
		}
	}
	if c.Thorough() {
		// Three.
		a3 := acts([]string{"..", "", "/", "../secret2", "/../secret2", "../rootx", "d", "new"})
		for _, w := range places {
			for _, o := range a3 {
				for _, q := range a3 {
					for _, r := range a3 {
						idx++
						e.try(idx, "", []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: w}, o, q, r})
					}
				}
			}
		}
	}
	// Walks of many names.
	for _, n := range []int{2, 4, 8, 14, 15, 16, 17, 18, 30, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024} {
		for _, sh := range [][]string{{"d", ".."}, {".."}, {"."}, {"d", "e", "..", ".."}, {"d", ".", "..", ".."}, {"d/..", "."}, {"nope", ".."}} {
			for _, last := range [][]string{{"secret2"}, {"..", "secret2"}, {"..", "..", "secret"}, {"..", "rootx"}, {"../secret2"}, {".."}, {"..", "up", "secret2"}, {"d", "..", "..", "root2", "inner"}} {
				var w []string
				for len(w) < n {
					w = append(w, sh[len(w)%len(sh)])
				}
				w = append(w, last...)
				for _, o := range []op{{t: wire.Tstat, f: 1}, {t: wire.Topen, f: 1, mode: 0x11}, {t: wire.Tcreate, f: 1, name: "new", perm: 0640, mode: 1}, {t: wire.Tremove, f: 1}} {
					idx++
					e.try(idx, "", []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: w}, o})
				}
			}
		}
	}
	// Other ways to write the root.
	for _, form := range []string{"slash", "dot", "relative", "updown", "double"} {
		for _, a := range attaches[:5] {
			for _, w := range [][]string{nil, {".."}, {"d", ".."}, {"..", "secret2"}, {"../secret2"}, {"d"}, {"a"}, {"../rootx"}, {"d", "..", ".."}} {
				for _, o := range a2 {
					idx++
					e.try(idx, form, []op{{t: wire.Tattach, f: 0, name: a}, {t: wire.Twalk, f: 0, g: 1, names: w}, o})
				}
			}
		}
	}
}

type escape struct {
	l *lab
	c *kit.Ctx

	// known are the QID paths of files that stay; the others are inode
	// numbers xor plus, if regular and on dev.
	known   map[string]uint64
	regular bool
	dev     uint64
	plus    uint64
}

func (e *escape) world(outside bool) {
	l := e.l
	l.clean()
	tree{
		"": {dir: true, perm: 0755}, "a": {perm: 0644, data: "in a"}, "d": {dir: true, perm: 0755},
		"d/e": {dir: true, perm: 0755}, "d/e/f": {perm: 0600, data: "in f"},
	}.make(mk(l.root))
	up := filepath.Dir(l.root)
	if outside {
		tree{"secret2": {perm: 0644, data: "OUTSIDE"}, "rootx": {perm: 0644, data: "OUTSIDE"}, "root2": {dir: true, perm: 0755}, "root2/inner": {perm: 0644, data: "OUTSIDE"},
			"new": {perm: 0644, data: "OUTSIDE"}, "moved": {perm: 0644, data: "OUTSIDE"}}.make(up)
		tree{"secret": {perm: 0644, data: "OUTSIDE"}, "etc": {dir: true, perm: 0755}, "etc/passwd": {perm: 0644, data: "OUTSIDE"}, "secret2": {dir: true, perm: 0700}}.make(l.base)
	} else {
		tree{"new": {dir: true, perm: 0755}, "d": {dir: true, perm: 0755}}.make(up)
		tree{"root": {dir: true, perm: 0755}}.make(l.base)
	}
}

// host puts the host's name of the root ($R) and of the directory it is in ($U)
// into a name.
func host(n, root string) string {
	return strings.NewReplacer("$R", root, "$U", filepath.Dir(root)).Replace(n)
}

func mk(d string) string { must(os.MkdirAll(d, 0755)); return d }

// qidOf returns the path the server has in the QID of a host file. It asks
// the server, by exporting the file. Should the paths be inode numbers, up to
// a constant, it need not ask again and again.
func (e *escape) qidOf(p string, fixed bool) (uint64, bool) {
	if e.known == nil {
		e.known = map[string]uint64{}
		dir := filepath.Join(e.l.c.Scratch, "sample")
		e.regular = true
		for i := 0; i < 5; i++ {
			q, ok := e.ask(mk(filepath.Join(dir, fmt.Sprint(i))))
			st, err := os.Lstat(filepath.Join(dir, fmt.Sprint(i)))
			must(err)
			x := st.Sys().(*syscall.Stat_t)
			if i == 0 {
				e.dev, e.plus = x.Dev, q^x.Ino
			}
			if !ok || x.Dev != e.dev || q^x.Ino != e.plus {
				e.regular = false
			}
		}
		must(os.RemoveAll(dir))
	}
	if fixed {
		// These stay what they are.
		q, ok := e.known[p]
		if !ok {
			if q, ok = e.ask(p); ok {
				e.known[p] = q
			}
		}
		return q, ok
	}
	if e.regular {
		if st, err := os.Lstat(p); err == nil {
			if x := st.Sys().(*syscall.Stat_t); x.Dev == e.dev {
				return x.Ino ^ e.plus, true
			}
		}
	}
	return e.ask(p)
}

// ask exports p and attaches to it.
func (e *escape) ask(p string) (q uint64, found bool) {
	e.l.run(func() {
		e.l.export(p)
		s := dial(listen())
		defer s.end()
		s.version()
		o := op{t: wire.Tattach, f: 0}
		if l := qids(o, o.send(s)); len(l) == 1 {
			q, found = l[0].Path, true
		}
	})
	return
}

// outside describes everything but the root's contents.
func (e *escape) outside() (t tree, inodes map[uint64]string) {
	t = tree{}
	inodes = map[uint64]string{}
	for d := filepath.Dir(e.l.base); ; d = filepath.Dir(d) {
		if q, ok := e.qidOf(d, true); ok {
			inodes[q] = d
		}
		if d == "/" {
			break
		}
	}
	filepath.WalkDir(e.l.base, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			t[p] = ent{data: err.Error()}
			return nil
		}
		st, err := os.Lstat(p)
		if err != nil {
			t[p] = ent{data: err.Error()}
			return nil
		}
		in := st.Sys().(*syscall.Stat_t).Ino
		x := ent{dir: st.IsDir(), perm: st.Mode().Perm()}
		if p == e.l.root {
			x.data = fmt.Sprint("the root, inode ", in)
			x.perm = 0
			t[p] = x
			return filepath.SkipDir
		}
		if !st.IsDir() {
			b, _ := os.ReadFile(p)
			x.data = string(b)
		}
		t[p] = x
		if q, ok := e.qidOf(p, false); ok {
			inodes[q] = p
		}
		return nil
	})
	return
}

// plain leaves out what may differ between the worlds.
func plain(o op, m wire.Msg) string {
	m.Tag = 0
	if !ok(m) {
		return "error"
	}
	switch o.t {
	case wire.Twalk:
		var b strings.Builder
		for _, q := range m.F[0].([]wire.Qid) {
			fmt.Fprintf(&b, " %d", q.Type)
		}
		return "walked" + b.String()
	case wire.Tattach, wire.Topen, wire.Tcreate:
		return fmt.Sprint("qid type ", m.F[0].(wire.Qid).Type)
	case wire.Tstat:
		d, _, err := wire.DecodeDir(data(m))
		if d.Mode&0x80000000 != 0 {
			d.Length = 0
		}
		return fmt.Sprint(d.Name, d.Mode, d.Length, err)
	}
	return m.String()
}

func qids(o op, m wire.Msg) []wire.Qid {
	if !ok(m) {
		return nil
	}
	switch o.t {
	case wire.Twalk:
		return m.F[0].([]wire.Qid)
	case wire.Tattach, wire.Topen, wire.Tcreate:
		return []wire.Qid{m.F[0].(wire.Qid)}
	case wire.Tstat:
		d, _, err := wire.DecodeDir(data(m))
		if err == nil {
			return []wire.Qid{d.Qid}
		}
	}
	return nil
}

func (e *escape) try(idx int, form string, ops []op) {
	if e.c.Violated() || !e.c.Mine(idx) {
		return
	}
	if !e.c.Case(idx, fmt.Sprint(form, ops)) {
		return
	}
	defer e.l.clean()
	var logs [2][]string
	for w := 0; w < 2; w++ {
		e.world(w == 0)
		before, inodes := e.outside()
		e.c.Count("executions", 1)
		var log []string
		bad := ""
		e.l.run(func() {
			rp := e.l.root
			switch form {
			case "slash":
				rp += "/"
			case "dot":
				rp += "/."
			case "double":
				rp = filepath.Dir(rp) + "//root"
			case "updown":
				rp += "/d/.."
			case "relative":
				wd, err := os.Getwd()
				must(err)
				r, err := filepath.Rel(wd, rp)
				must(err)
				rp = r
			}
			e.l.export(rp)
			s := dial(listen())
			defer s.end()
			s.version()
			step := func(o op) {
				if bad != "" {
					return
				}
				h := o
				h.name = host(o.name, e.l.root)
				h.names = nil
				for _, n := range o.names {
					h.names = append(h.names, host(n, e.l.root))
				}
				m := h.send(s)
				log = append(log, fmt.Sprintf("%v => %s", o, plain(o, m)))
				for _, q := range qids(o, m) {
					if n, out := inodes[q.Path]; out {
						bad = fmt.Sprintf("%v gave the QID of %s, which is outside of the root", o, n)
					}
				}
				if s.dead != "" {
					bad = s.dead
				}
			}
			for _, o := range ops {
				step(o)
			}
			// What do the identifiers denote now?
			for f := uint32(0); f < 3; f++ {
				step(op{t: wire.Tstat, f: f})
				step(op{t: wire.Twalk, f: f, g: 10 + f})
				step(op{t: wire.Topen, f: 10 + f})
				if bad != "" {
					return
				}
				var got []string
				off := uint64(0)
				for k := 0; k < 40; k++ {
					r := s.read(10+f, off, 4000)
					if !ok(r) || len(data(r)) == 0 {
						break
					}
					off += uint64(len(data(r)))
					d, _, err := wire.DecodeDir(data(r))
					if err == nil {
						got = append(got, d.Name)
						if n, out := inodes[d.Qid.Path]; out {
							bad = fmt.Sprintf("a directory listing shows %s, which is outside of the root", n)
						}
					} else {
						got = append(got, string(data(r)))
						break
					}
				}
				sort.Strings(got)
				log = append(log, fmt.Sprintf("contents of fid %d: %q", f, got))
				if strings.Contains(strings.Join(got, ""), "OUTSIDE") {
					bad = "the contents of an outside file were read"
				}
			}
		})
		if bad == "" {
			after, _ := e.outside()
			if d := diff(after, before); d != "" {
				bad = "outside of the root: " + d
			}
		}
		if bad != "" {
			e.c.Violate(bad, "%s", strings.Join(log, "\n"))
			return
		}
		logs[w] = log
	}
	a, b := strings.Join(logs[0], "\n"), strings.Join(logs[1], "\n")
	e.c.Distinct("nontrivial", a)
	if a != b {
		e.c.Violate("the replies depend on what is outside of the root", "with files outside:\n%s\nwithout:\n%s", a, b)
	}
}
