// Package ufsx explores the ufs file server: the real server over the wire
// against a scratch directory, compared with models of what the host files
// and the file identifiers must look like.
package ufsx

import (
	"flag"
	"fmt"
	"io"
	"io/fs"
	"ninepverif/api"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"ninepverif/bub"
	"ninepverif/kit"
	"ninepverif/mnet"
	"ninepverif/wire"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	p "github.com/Harvey-OS/ninep/protocol"
)

const nofid = 0xffffffff

// lab makes scratch trees and sessions. One per child process.
type lab struct {
	c    *kit.Ctx
	base string // everything a case can touch
	root string // what is exported
	n    int
}

func newLab(c *kit.Ctx) *lab {
	syscall.Umask(0)
	l := &lab{c: c, base: filepath.Join(c.Scratch, "w")}
	l.root = filepath.Join(l.base, "up", "root")
	return l
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// clean removes what is left of the last case.
func (l *lab) clean() {
	filepath.WalkDir(l.base, func(p string, d fs.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	must(os.RemoveAll(l.base))
}

// ent describes a host file.
type ent struct {
	dir  bool
	perm os.FileMode
	data string
	link string
}

// tree by slash-separated path; "" is the top.
type tree map[string]ent

func (t tree) paths() (r []string) {
	for k := range t {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func (t tree) clone() tree {
	r := make(tree, len(t))
	for k, v := range t {
		r[k] = v
	}
	return r
}

func (t tree) key() string {
	var b strings.Builder
	for _, k := range t.paths() {
		e := t[k]
		fmt.Fprintf(&b, "%s %v %o %q %q\n", k, e.dir, e.perm, e.data, e.link)
	}
	return b.String()
}

// make creates a tree on the host.
func (t tree) make(top string) {
	ps := t.paths()
	for _, k := range ps {
		e, n := t[k], filepath.Join(top, k)
		switch {
		case e.link != "":
			must(os.Symlink(e.link, n))
		case e.dir:
			must(os.MkdirAll(n, 0755))
		default:
			must(os.WriteFile(n, []byte(e.data), 0644))
		}
	}
	for i := len(ps) - 1; i >= 0; i-- {
		if t[ps[i]].link == "" {
			must(os.Chmod(filepath.Join(top, ps[i]), t[ps[i]].perm))
		}
	}
}

// look reads a tree from the host. Directories and files that cannot be read
// are made readable for a moment.
func look(top string) tree {
	t := tree{}
	var rec func(rel string)
	rec = func(rel string) {
		n := filepath.Join(top, rel)
		st, err := os.Lstat(n)
		if err != nil {
			t[rel] = ent{data: "cannot lstat: " + err.Error()}
			return
		}
		e := ent{dir: st.IsDir(), perm: st.Mode().Perm()}
		switch {
		case st.Mode()&os.ModeSymlink != 0:
			e.perm = 0
			e.link, _ = os.Readlink(n)
		case e.dir:
			if e.perm&0500 != 0500 {
				os.Chmod(n, 0700)
				defer os.Chmod(n, e.perm)
			}
			l, err := os.ReadDir(n)
			if err != nil {
				e.data = err.Error()
			}
			for _, x := range l {
				if rel == "" {
					rec(x.Name())
				} else {
					rec(rel + "/" + x.Name())
				}
			}
		case st.Mode().IsRegular():
			if e.perm&0400 == 0 {
				at, mt := st.Sys().(*syscall.Stat_t).Atim, st.Sys().(*syscall.Stat_t).Mtim
				os.Chmod(n, 0600)
				defer func() {
					os.Chmod(n, e.perm)
					syscall.UtimesNano(n, []syscall.Timespec{at, mt})
				}()
			}
			b, err := os.ReadFile(n)
			e.data = string(b)
			if err != nil {
				e.data = err.Error()
			}
		}
		t[rel] = e
	}
	rec("")
	return t
}

// diff describes the difference between trees.
func diff(got, want tree) string {
	var r []string
	for _, k := range want.paths() {
		g, ok := got[k]
		if !ok {
			r = append(r, fmt.Sprintf("%q is missing", k))
		} else if g != want[k] {
			r = append(r, fmt.Sprintf("%q is %s, must be %s", k, g, want[k]))
		}
	}
	for _, k := range got.paths() {
		if _, ok := want[k]; !ok {
			r = append(r, fmt.Sprintf("%q is there (%s), must not be", k, got[k]))
		}
	}
	return strings.Join(r, "; ")
}

func (e ent) String() string {
	if e.link != "" {
		return "link to " + e.link
	}
	if e.dir {
		return fmt.Sprintf("directory %04o %s", e.perm, e.data)
	}
	return fmt.Sprintf("file %04o %.60q", e.perm, e.data)
}

// fresh makes the exported tree.
func (l *lab) fresh(t tree) {
	l.clean()
	must(os.MkdirAll(l.root, 0755))
	t.make(l.root)
	l.export(l.root)
}

func (l *lab) export(dir string) { must(flag.Set("root", dir)) }

// sess is a connection to the server.
type sess struct {
	conn *mnet.Conn
	tag  uint16
	dead string
}

// listen makes a server; inside a bubble.
func listen() *p.Listener {
	l, err := ufs.NewUFS(api.TraceListener)
	must(err)
	return l
}

func dial(l *p.Listener) *sess {
	s := &sess{conn: mnet.New("client"), tag: 0x100}
	must(l.Accept(s.conn))
	return s
}

// end ends the connection.
func (s *sess) end() {
	s.conn.End(io.EOF, false)
	bub.Wait()
}

// do sends a request and gives the reply. A missing or malformed reply is an
// error (of other properties than those judged here, but not to be ignored).
func (s *sess) do(t uint8, f ...any) wire.Msg {
	if s.dead != "" {
		return wire.Msg{}
	}
	s.tag++
	s.conn.Feed(wire.Encode(wire.M(t, s.tag, f...)))
	bub.Wait()
	out := s.conn.Take()
	m, err := wire.Decode(out)
	if err != nil {
		s.dead = fmt.Sprintf("request %v is answered by %d bytes: %v", wire.M(t, s.tag, f...), len(out), err)
		return wire.Msg{}
	}
	if m.Tag != s.tag || m.Type != t+1 && m.Type != wire.Rerror {
		s.dead = fmt.Sprintf("request %v is answered by %v", wire.M(t, s.tag, f...), m)
		return wire.Msg{}
	}
	return m
}

// ok says whether a reply is not an error.
func ok(m wire.Msg) bool { return m.Type != 0 && m.Type != wire.Rerror }

// start negotiates and attaches fid 0.
func (s *sess) version() { s.do(wire.Tversion, uint32(65536), "9P2000") }

func (s *sess) attach(fid uint32, aname string) wire.Msg {
	return s.do(wire.Tattach, fid, uint32(nofid), "nobody", aname)
}

func (s *sess) walk(f, g uint32, names ...string) wire.Msg {
	return s.do(wire.Twalk, f, g, append([]string{}, names...))
}

func (s *sess) open(f uint32, mode uint8) wire.Msg { return s.do(wire.Topen, f, mode) }
func (s *sess) read(f uint32, off uint64, n uint32) wire.Msg {
	return s.do(wire.Tread, f, off, n)
}
func (s *sess) write(f uint32, off uint64, b string) wire.Msg {
	return s.do(wire.Twrite, f, off, []byte(b))
}
func (s *sess) clunk(f uint32) wire.Msg  { return s.do(wire.Tclunk, f) }
func (s *sess) remove(f uint32) wire.Msg { return s.do(wire.Tremove, f) }

// stat gives the directory record.
func (s *sess) stat(f uint32) (wire.Dir, bool) {
	m := s.do(wire.Tstat, f)
	if !ok(m) {
		return wire.Dir{}, false
	}
	d, _, err := wire.DecodeDir(m.F[0].([]byte))
	if err != nil {
		s.dead = fmt.Sprintf("stat data does not decode: %v", err)
		return wire.Dir{}, false
	}
	return d, true
}

func data(m wire.Msg) []byte { return m.F[0].([]byte) }

// run runs one case in a bubble.
func (l *lab) run(f func()) { bub.Run(l.c.T, f) }
