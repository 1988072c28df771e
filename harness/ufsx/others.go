package ufsx

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"ninepverif/kit"
	"ninepverif/wire"
)

// What one connection sees of files that change under it: every sequence of
// changes made by itself, by another connection of the same server and on the
// host itself, with a look at everything through the first connection after
// each of them. The oracle is the host.

type alter struct {
	who  byte // 'a' this connection, 'b' the other, 'h' the host
	what string
}

func (x alter) String() string { return string(x.who) + ":" + x.what }

// others explores the sequences for one property.
func others(c *kit.Ctx, prop string, whats []string, deep int) {
	var al []alter
	for _, w := range whats {
		for _, who := range "abh" {
			al = append(al, alter{byte(who), w})
		}
	}
	if c.Thorough() {
		deep++
	}
	idx := 0
	for d := 1; d <= deep; d++ {
		seq(al, d, func(s []alter) {
			idx++
			if !c.Done() && c.Mine(idx) && c.Case(idx, fmt.Sprintf("others %v", s)) {
				c.Count("traces_validated_against_impl", 1)
				c.Eval(1)
				amid(c, prop, s)
			}
		})
	}
}

// amid makes the changes.
func amid(c *kit.Ctx, prop string, changes []alter) {
	l := newLab(c)
	l.fresh(tree{
		"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "0123456789"}, "g": {perm: 0600, data: "this is g"},
		"d": {dir: true, perm: 0755}, "d/x": {perm: 0644, data: "x"}, "d/y": {perm: 0644},
	})
	defer l.clean()
	at := func(n string) string { return filepath.Join(l.root, n) }
	old := time.Unix(1500000000, 0)
	must(os.Chtimes(at("f"), old, old))
	// a view of the files that are open through the first connection
	view := map[uint32]*os.File{}
	for f, n := range map[uint32]string{1: "f", 4: "f", 5: "g"} {
		h, err := os.Open(at(n))
		must(err)
		defer h.Close()
		view[f] = h
	}
	first := map[string]os.FileInfo{}
	for _, n := range []string{"f", "d/x", "d"} {
		st, err := os.Lstat(at(n))
		must(err)
		first[n] = st
	}
	l.run(func() {
		lst := listen()
		s, b := dial(lst), dial(lst)
		defer func() {
			for _, x := range []*sess{s, b} {
				for _, f := range []uint32{1, 3, 4, 5} {
					x.clunk(f)
				}
				x.end()
			}
		}()
		log := ""
		fail := func(f string, a ...any) {
			if !c.Violated() {
				c.Violate(fmt.Sprintf(f, a...), "%v, after: %s; %s", changes, log, s.dead)
			}
		}
		for _, x := range []*sess{s, b} {
			x.version()
			x.attach(0, "")
			x.walk(0, 1, "f")
			x.open(1, 2)
			x.walk(0, 2, "f")
			x.walk(0, 3, "d")
			x.open(3, 0)
			x.walk(0, 4, "f")
			x.open(4, 0)
			x.walk(0, 5, "g")
			x.open(5, 2)
			x.walk(0, 6, "d", "x")
		}
		wstat := func(x *sess, f uint32, set func(d *wire.Dir)) wire.Msg {
			d := wire.DontTouch()
			set(&d)
			return x.do(wire.Twstat, f, wire.EncodeDir(d))
		}
		temp := func(x *sess, f func(), names ...string) {
			if m := x.walk(0, 20, names...); ok(m) && len(m.F[0].([]wire.Qid)) == len(names) {
				f()
				x.clunk(20)
			}
		}
		k := 0
		apply := func(ch alter) {
			k++
			x := s
			if ch.who == 'b' {
				x = b
			}
			text := fmt.Sprintf("<%c%d>", ch.who, k)
			host := ch.who == 'h'
			hw := func(n string, flag int, off int64, t string) {
				if h, err := os.OpenFile(at(n), os.O_WRONLY|flag, 0644); err == nil {
					if t != "" {
						h.WriteAt([]byte(t), off)
					}
					h.Close()
				}
			}
			switch ch.what {
			case "write":
				if host {
					hw("f", 0, int64(k), text)
				} else {
					x.write(1, uint64(k), text)
				}
			case "grow":
				if host {
					hw("f", 0, int64(10+6*k), text)
				} else {
					x.write(1, uint64(10+6*k), text)
				}
			case "cut":
				if host {
					os.Truncate(at("f"), int64(k))
				} else {
					wstat(x, 2, func(d *wire.Dir) { d.Length = uint64(k) })
				}
			case "empty":
				if host {
					hw("f", os.O_TRUNC, 0, "")
				} else {
					temp(x, func() { x.open(20, 0x11) }, "f")
				}
			case "chmod":
				if host {
					os.Chmod(at("f"), os.FileMode(0600+k))
				} else {
					wstat(x, 2, func(d *wire.Dir) { d.Mode = uint32(0600 + k) })
				}
			case "touch":
				t := time.Unix(1400000000+int64(1000*k), 0)
				if host {
					os.Chtimes(at("f"), t, t)
				} else {
					wstat(x, 2, func(d *wire.Dir) { d.Mtime = uint32(t.Unix()) })
				}
			case "remove":
				if host {
					os.Remove(at("f"))
				} else if ok(x.walk(0, 20, "f")) {
					x.remove(20)
				}
			case "make":
				if host {
					hw("f", os.O_CREATE|os.O_TRUNC, 0, text)
				} else {
					x.walk(0, 20)
					x.do(wire.Tcreate, uint32(20), "f", uint32(0640), uint8(1))
					x.write(20, 0, text)
					x.clunk(20)
				}
			case "swap": // g becomes f
				if host {
					os.Rename(at("g"), at("f"))
				} else {
					temp(x, func() { wstat(x, 20, func(d *wire.Dir) { d.Name = "f" }) }, "g")
				}
			case "back": // f becomes g
				if host {
					os.Rename(at("f"), at("g"))
				} else {
					temp(x, func() { wstat(x, 20, func(d *wire.Dir) { d.Name = "g" }) }, "f")
				}
			case "more": // in d
				n := fmt.Sprintf("n%d", k)
				if host {
					hw("d/"+n, os.O_CREATE, 0, text)
				} else {
					x.walk(0, 20, "d")
					x.do(wire.Tcreate, uint32(20), n, uint32(0640), uint8(1))
					x.clunk(20)
				}
			case "sub":
				if host {
					os.Mkdir(at("d/s"), 0700)
				} else {
					x.walk(0, 20, "d")
					x.do(wire.Tcreate, uint32(20), "s", uint32(0x80000000|0700), uint8(0))
					x.clunk(20)
				}
			case "less":
				if host {
					os.Remove(at("d/x"))
				} else if m := x.walk(0, 20, "d", "x"); ok(m) && len(m.F[0].([]wire.Qid)) == 2 {
					x.remove(20)
				}
			case "named":
				if host {
					os.Rename(at("d/y"), at("d/z"))
				} else {
					temp(x, func() { wstat(x, 20, func(d *wire.Dir) { d.Name = "z" }) }, "d", "y")
				}
			default:
				panic(ch.what)
			}
			log += ch.String() + " "
		}
		// the records of a directory, read from the start
		list := func(f uint32) (r map[string]wire.Dir, good bool) {
			r = map[string]wire.Dir{}
			off := uint64(0)
			for i := 0; i < 100; i++ {
				m := s.read(f, off, 8000)
				if !ok(m) {
					fail("a directory cannot be read: %v", m)
					return r, false
				}
				p := data(m)
				if len(p) == 0 {
					return r, true
				}
				off += uint64(len(p))
				for len(p) > 0 {
					d, rest, err := wire.DecodeDir(p)
					if err != nil {
						fail("a directory is read as something else")
						return r, false
					}
					if _, have := r[d.Name]; have {
						fail("%q is listed twice", d.Name)
						return r, false
					}
					r[d.Name], p = d, rest
				}
			}
			fail("a directory has no end")
			return r, false
		}
		truth := func(d wire.Dir, st os.FileInfo, what string) {
			perm := uint32(st.Mode().Perm())
			if st.IsDir() {
				perm |= 0x80000000
			}
			if d.Name != st.Name() || d.Length != uint64(st.Size()) || d.Mode != perm || d.Mtime != uint32(st.ModTime().Unix()) {
				fail("%s does not describe the host file: %q length %d mode %o time %d, want %q %d %o %d", what, d.Name, d.Length, d.Mode, d.Mtime, st.Name(), st.Size(), perm, st.ModTime().Unix())
			}
		}
		spots := [][]string{{"f"}, {"g"}, {"d", "x"}, {"d", "y"}, {"d", "z"}, {"d", "n1"}, {"d", "n2"}, {"d", "s"}, {"d"}}
		observe := func() {
			switch prop {
			case "C16":
				for _, n := range spots {
					_, err := os.Lstat(at(strings.Join(n, "/")))
					m := s.walk(0, 9, n...)
					got := ok(m) && len(m.F[0].([]wire.Qid)) == len(n)
					if got != (err == nil) {
						fail("a walk to %q gives %v, on the host: %v", n, m, err)
						return
					}
					st := s.do(wire.Tstat, uint32(9))
					if ok(st) != got {
						fail("after the walk to %q, the identifier is %v", n, st)
						return
					}
					if ok(s.clunk(9)) != got {
						fail("the identifier walked to %q cannot be clunked, or is there without a walk", n)
						return
					}
				}
			case "C17":
				for _, f := range []uint32{1, 4, 5} {
					want := make([]byte, 1000)
					n, _ := view[f].ReadAt(want, 0)
					want = want[:n]
					for _, o := range []int{0, 3, 8, 10, len(want)} {
						for _, cnt := range []int{4, 200} {
							w := want[min(o, len(want)):min(o+cnt, len(want))]
							if m := s.read(f, uint64(o), uint32(cnt)); !ok(m) || !bytes.Equal(data(m), w) {
								fail("a read of %d at %d gives %v, the file then holds %q", cnt, o, m, w)
								return
							}
						}
					}
				}
			case "C18":
				r, good := list(3)
				if !good {
					return
				}
				var g, w []string
				for n := range r {
					g = append(g, n)
				}
				es, err := os.ReadDir(at("d"))
				must(err)
				for _, e := range es {
					w = append(w, e.Name())
				}
				sort.Strings(g)
				if fmt.Sprint(g) != fmt.Sprint(w) {
					fail("the directory is listed as %q, on the host it is %q", g, w)
				}
			case "C19":
				for f, n := range map[uint32]string{1: "f", 2: "f", 6: "d/x", 3: "d"} {
					st, err := os.Lstat(at(n))
					if err != nil || !os.SameFile(st, first[n]) {
						continue // it has another name now, or none
					}
					d, good := s.stat(f)
					if !good {
						fail("identifier %d has no stat any more", f)
						return
					}
					truth(d, st, "a stat")
				}
				for _, n := range spots {
					st, err := os.Lstat(at(strings.Join(n, "/")))
					if err != nil {
						continue
					}
					m := s.walk(0, 9, n...)
					if !ok(m) || len(m.F[0].([]wire.Qid)) != len(n) {
						continue
					}
					d, good := s.stat(9)
					s.clunk(9)
					if good {
						truth(d, st, "a stat after a walk")
						if q := m.F[0].([]wire.Qid)[len(n)-1]; q != d.Qid {
							fail("walk and stat give different QIDs for %q: %v and %v", n, q, d.Qid)
						}
					}
				}
				r, _ := list(3)
				for n, d := range r {
					if st, err := os.Lstat(at("d/" + n)); err == nil {
						truth(d, st, "a directory entry")
					}
				}
			case "C20":
				// each attribute, alone
				for i, set := range []func(d *wire.Dir){
					func(d *wire.Dir) { d.Mode = 0666 },
					func(d *wire.Dir) { d.Length = 7 },
					func(d *wire.Dir) { d.Mtime = 1234567890 },
					func(d *wire.Dir) {},
				} {
					before, err := os.Lstat(at("f"))
					if err != nil {
						return
					}
					text, _ := os.ReadFile(at("f"))
					m := s.walk(0, 9, "f")
					if !ok(m) {
						return
					}
					m = wstat(s, 9, set)
					s.clunk(9)
					after, err := os.Lstat(at("f"))
					if !ok(m) || err != nil {
						fail("wstat %d fails: %v %v", i, m, err)
						return
					}
					perm, size, mt := before.Mode().Perm(), before.Size(), before.ModTime().Unix()
					switch i {
					case 0:
						perm = 0666
					case 1:
						size, mt = 7, after.ModTime().Unix()
					case 2:
						mt = 1234567890
					}
					t2, _ := os.ReadFile(at("f"))
					for len(text) < int(size) {
						text = append(text, 0)
					}
					if after.Mode().Perm() != perm || after.Size() != size || after.ModTime().Unix() != mt || !os.SameFile(before, after) || !bytes.Equal(t2, text[:size]) {
						fail("wstat %d changed something else than it asks for: mode %o size %d time %v, was %o %d %v", i, after.Mode().Perm(), after.Size(), after.ModTime(), before.Mode().Perm(), before.Size(), before.ModTime())
						return
					}
				}
			case "C22":
				// four open identifiers on each side
				if g := descriptors(l.root); len(g) != 8+len(view) {
					fail("8 identifiers are open and the server holds %d host files open: %v", len(g)-len(view), g)
				}
				for f := range view {
					if m := s.read(f, 0, 100); !ok(m) {
						fail("identifier %d cannot be read any more: %v", f, m)
					}
				}
				if m := s.write(1, 2, ""); !ok(m) {
					fail("an open identifier cannot be written any more: %v", m)
				}
				if m := s.write(4, 0, "z"); ok(m) {
					fail("an identifier open for reading can be written")
				}
			}
			if s.dead != "" {
				fail("%s", s.dead)
			}
		}
		observe()
		for _, ch := range changes {
			if c.Violated() {
				return
			}
			apply(ch)
			observe()
		}
		if b.dead != "" {
			fail("%s", b.dead)
		}
	})
}
