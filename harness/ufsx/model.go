package ufsx

import (
	"fmt"
	"os"
	"path"
	"runtime/debug"
	"sort"
	"strings"

	"ninepverif/kit"
	"ninepverif/wire"
)

// mfid is a file identifier of the model.
type mfid struct {
	path  string
	mode  int  // open mode 0..2; -1: not open
	stale bool // its file was removed or moved by others: nothing is claimed about it
}

// state of the model.
type state struct {
	t    tree
	fids map[uint32]mfid
}

func (s *state) clone() *state {
	n := &state{s.t.clone(), make(map[uint32]mfid, len(s.fids))}
	for k, v := range s.fids {
		n.fids[k] = v
	}
	return n
}

func (s *state) key() string {
	var l []string
	for k, v := range s.fids {
		l = append(l, fmt.Sprintf("%d:%s %d %v", k, v.path, v.mode, v.stale))
	}
	sort.Strings(l)
	return s.t.key() + strings.Join(l, "\n")
}

// op is a request of the model's alphabet.
type op struct {
	t     uint8
	f, g  uint32
	names []string
	name  string
	perm  uint32
	mode  uint8
	afid  uint32
	at    bool // read or write with off, cnt, data; otherwise at 0, 4096 bytes or "W"
	off   uint64
	cnt   uint32
	data  string
}

func (o op) String() string {
	switch o.t {
	case wire.Tattach:
		return fmt.Sprintf("attach %d %q afid %d", o.f, o.name, o.afid)
	case wire.Twalk:
		return fmt.Sprintf("walk %d->%d %v", o.f, o.g, o.names)
	case wire.Topen:
		return fmt.Sprintf("open %d mode %d", o.f, o.mode)
	case wire.Tcreate:
		return fmt.Sprintf("create %d %q perm %o mode %d", o.f, o.name, o.perm, o.mode)
	case wire.Tread:
		if o.at {
			return fmt.Sprintf("read %d at %d count %d", o.f, o.off, o.cnt)
		}
		return fmt.Sprintf("read %d", o.f)
	case wire.Twrite:
		if o.at {
			return fmt.Sprintf("write %d at %d %.20q (%d)", o.f, o.off, o.data, len(o.data))
		}
		return fmt.Sprintf("write %d", o.f)
	case wire.Tclunk:
		return fmt.Sprintf("clunk %d", o.f)
	case wire.Tremove:
		return fmt.Sprintf("remove %d", o.f)
	case wire.Tstat:
		return fmt.Sprintf("stat %d", o.f)
	case wire.Twstat:
		return fmt.Sprintf("rename %d %q", o.f, o.name)
	}
	return "?"
}

// send performs it on the real server.
func (o op) send(s *sess) wire.Msg {
	switch o.t {
	case wire.Tattach:
		a := uint32(nofid)
		if o.afid != 0 {
			a = o.afid
		}
		return s.do(o.t, o.f, a, "nobody", o.name)
	case wire.Twalk:
		return s.walk(o.f, o.g, o.names...)
	case wire.Topen:
		return s.open(o.f, o.mode)
	case wire.Tcreate:
		return s.do(o.t, o.f, o.name, o.perm, o.mode)
	case wire.Tread:
		if o.at {
			return s.read(o.f, o.off, o.cnt)
		}
		return s.read(o.f, 0, 4096)
	case wire.Twrite:
		if o.at {
			return s.write(o.f, o.off, o.data)
		}
		return s.write(o.f, 0, "W")
	case wire.Tclunk:
		return s.clunk(o.f)
	case wire.Tremove:
		return s.remove(o.f)
	case wire.Tstat:
		return s.do(o.t, o.f)
	case wire.Twstat:
		d := wire.DontTouch()
		d.Name = o.name
		return s.do(o.t, o.f, wire.EncodeDir(d))
	}
	panic("op")
}

// expectation for a reply.
type expectation int

const (
	succeed expectation = iota
	fail
	either // both are allowed; the effect is that of a failure
	skip   // outside of what is claimed: the transition is not taken
	may    // both are allowed; if it succeeds, the effect is the given one
)

func join(dir, name string) string {
	r := path.Join("/", dir, name)
	return r[1:]
}

func parent(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		return p[:i]
	}
	return ""
}

// searchable says whether names in dir can be looked up: x on it and all above.
func (s *state) searchable(dir string) bool {
	for {
		e, ok := s.t[dir]
		if !ok || !e.dir || e.perm&0100 == 0 {
			return false
		}
		if dir == "" {
			return true
		}
		dir = parent(dir)
	}
}

// reach says whether the host finds the file.
func (s *state) reach(p string) bool {
	if p == "" {
		return true
	}
	_, ok := s.t[p]
	return ok && s.searchable(parent(p))
}

func (s *state) empty(dir string) bool {
	for k := range s.t {
		if strings.HasPrefix(k, dir+"/") {
			return false
		}
	}
	return true
}

// gone marks other identifiers of a path (and below) as stale.
func (s *state) gone(p string) {
	for k, v := range s.fids {
		if v.path == p || strings.HasPrefix(v.path, p+"/") {
			v.stale = true
			s.fids[k] = v
		}
	}
}

// apply gives the state after a request, what the reply has to be, and for
// walks the number of QIDs.
func (s *state) apply(o op) (n *state, e expectation, nq int) {
	f, have := s.fids[o.f]
	if have && f.stale && o.t != wire.Tclunk {
		return nil, skip, 0
	}
	if !have && o.t != wire.Tattach {
		return s, fail, 0
	}
	n = s.clone()
	switch o.t {
	case wire.Tattach:
		p := join("", o.name)
		if have || o.afid != 0 || !s.reach(p) {
			return s, fail, 0
		}
		n.fids[o.f] = mfid{path: p, mode: -1}
		return n, succeed, 0
	case wire.Twalk:
		g, used := s.fids[o.g]
		if used && g.stale && o.f == o.g {
			return nil, skip, 0
		}
		if len(o.names) == 0 {
			if o.f == o.g {
				return s, succeed, 0
			}
			if used {
				return s, fail, 0
			}
			n.fids[o.g] = mfid{path: f.path, mode: -1}
			return n, succeed, 0
		}
		p := f.path
		if !s.t[p].dir && o.names[0] == ".." {
			return nil, skip, 0
		}
		for i, nm := range o.names {
			if i > 0 && nm == ".." && !s.t[p].dir {
				return nil, skip, 0
			}
			q := join(p, nm)
			if !s.reach(q) || nm != ".." && !s.t[p].dir {
				if i == 0 {
					return s, fail, 0
				}
				if used && o.f != o.g {
					return s, either, i
				}
				return s, succeed, i
			}
			p = q
		}
		if used && o.f != o.g {
			return s, fail, 0
		}
		n.fids[o.g] = mfid{path: p, mode: -1}
		return n, succeed, len(o.names)
	case wire.Topen:
		x := s.t[f.path]
		m := int(o.mode & 3)
		if m == 3 {
			m = 0
		}
		wants := m != 0 || o.mode&0x10 != 0
		if f.mode >= 0 || !s.reach(f.path) || m != 1 && x.perm&0400 == 0 || wants && (x.dir || x.perm&0200 == 0) {
			return s, fail, 0
		}
		if o.mode&0x10 != 0 {
			x.data = ""
			n.t[f.path] = x
		}
		f.mode = m
		n.fids[o.f] = f
		if o.mode&^0x13 != 0 {
			return n, may, 0 // other options may be refused
		}
		return n, succeed, 0
	case wire.Tcreate:
		q := join(f.path, o.name)
		d := s.t[f.path]
		_, exists := s.t[q]
		if f.mode >= 0 {
			return s, fail, 0
		}
		if q == "" || q == f.path || q == parent(f.path) {
			return nil, skip, 0 // . and .. are not names to create
		}
		if exists && o.perm&0x80000000 == 0 && d.dir {
			// May be refused. If not, the file is made empty and opened.
			if x := s.t[q]; !x.dir && s.searchable(f.path) {
				x.data = ""
				n.t[q] = x
				n.fids[o.f] = mfid{path: q, mode: int(o.mode & 3)}
				return n, may, 0
			}
			return s, fail, 0
		}
		if !d.dir || exists || !s.searchable(f.path) || d.perm&0200 == 0 {
			return s, fail, 0
		}
		if o.perm&0x80000000 != 0 {
			n.t[q] = ent{dir: true, perm: os.FileMode(o.perm & 0777)}
			n.fids[o.f] = mfid{path: q, mode: -1}
		} else {
			n.t[q] = ent{perm: os.FileMode(o.perm & 0777)}
			n.fids[o.f] = mfid{path: q, mode: int(o.mode & 3)}
		}
		return n, succeed, 0
	case wire.Tread:
		if o.at && o.cnt == 0 && f.mode == 1 {
			return s, either, 0 // reads nothing
		}
		if f.mode < 0 || f.mode == 1 {
			return s, fail, 0
		}
		return s, succeed, 0
	case wire.Twrite:
		x := s.t[f.path]
		if o.at && o.data == "" && f.mode == 0 {
			return s, either, 0 // writes nothing
		}
		if f.mode < 1 || x.dir {
			return s, fail, 0
		}
		if o.at {
			b := []byte(x.data)
			if o.data != "" {
				for len(b) < int(o.off)+len(o.data) {
					b = append(b, 0)
				}
				copy(b[o.off:], o.data)
			}
			x.data = string(b)
		} else if len(x.data) > 0 {
			x.data = "W" + x.data[1:]
		} else {
			x.data = "W"
		}
		n.t[f.path] = x
		return n, succeed, 0
	case wire.Tclunk:
		delete(n.fids, o.f)
		return n, succeed, 0
	case wire.Tremove:
		delete(n.fids, o.f)
		if f.path == "" || !s.reach(f.path) || s.t[f.path].dir && !s.empty(f.path) || s.t[parent(f.path)].perm&0200 == 0 {
			return n, fail, 0
		}
		delete(n.t, f.path)
		n.gone(f.path)
		return n, succeed, 0
	case wire.Tstat:
		if !s.reach(f.path) {
			return s, fail, 0
		}
		return s, succeed, 0
	case wire.Twstat:
		q := join(parent(f.path), o.name)
		if q == f.path {
			return nil, skip, 0
		}
		if f.path == "" || s.t[parent(f.path)].perm&0200 == 0 || !s.searchable(parent(f.path)) || !s.reach(f.path) {
			return s, fail, 0
		}
		x, exists := s.t[q]
		if exists && (x.dir || s.t[f.path].dir) {
			return s, fail, 0
		}
		if exists {
			n.gone(q)
		}
		old := f.path
		for k, v := range s.t {
			if k == old || strings.HasPrefix(k, old+"/") {
				delete(n.t, k)
				n.t[q+k[len(old):]] = v
			}
		}
		n.gone(old)
		f.path = q
		n.fids[o.f] = f
		return n, succeed, 0
	}
	panic("op")
}

// space is what a check explores.
type space struct {
	init  tree
	ops   []op
	depth int
	fids  []uint32 // looked at in the end
	judge func(l *lab, s *sess, end *state) string
	pre   func()
	limit int // most states
}

// bfs enumerates the model's states and replays a shortest trace for every
// transition on the implementation.
func bfs(c *kit.Ctx, name string, sp space) {
	l := newLab(c)
	type rec struct {
		s    *state
		from int
		op   int
		d    int
	}
	init := &state{sp.init, map[uint32]mfid{}}
	states := []rec{{init, -1, -1, 0}}
	index := map[string]int{init.key(): 0}
	trace := func(i int) (r []int) {
		for ; states[i].from >= 0; i = states[i].from {
			r = append([]int{states[i].op}, r...)
		}
		return
	}
	transitions := 0
	for i := 0; i < len(states); i++ {
		if states[i].d >= sp.depth {
			continue
		}
		for k, o := range sp.ops {
			n, e, _ := states[i].s.apply(o)
			if e == skip {
				continue
			}
			transitions++
			if c.Mine(transitions) || c.Only() != "" {
				tr := append(trace(i), k)
				var key string
				key = fmt.Sprintf("%s %v", name, tr)
				if c.Case(transitions, key) {
					c.Count("traces_validated_against_impl", 1)
					l.replay(sp, tr)
					if c.Done() {
						return
					}
				}
			}
			if n != states[i].s {
				kk := n.key()
				if _, ok := index[kk]; !ok {
					index[kk] = len(states)
					states = append(states, rec{n, i, k, states[i].d + 1})
				}
			}
		}
		if c.Done() {
			return
		}
	}
	c.Count("model_states", len(states))
	c.Count("model_transitions", transitions)
}

// paths replays all sequences of ops (indices into sp.ops) of the given
// length after a prefix, without merging states: what the model takes for the
// same state the implementation need not.
func paths(c *kit.Ctx, name string, sp space, prefix, ops []op, depth int) {
	l := newLab(c)
	sp.ops = append(append([]op{}, prefix...), ops...)
	var al []int
	for i := range ops {
		al = append(al, len(prefix)+i)
	}
	n := 0
	seq(al, depth, func(s []int) {
		if n++; !c.Mine(n) && c.Only() == "" || c.Violated() {
			return
		}
		tr := make([]int, 0, len(prefix)+depth)
		for i := range prefix {
			tr = append(tr, i)
		}
		tr = append(tr, s...)
		if c.Case(n, fmt.Sprintf("%s %v", name, tr)) {
			c.Count("traces_validated_against_impl", 1)
			c.Count("paths", 1)
			l.replay(sp, tr)
		}
	})
}

// replay performs a trace and judges the state it leads to.
func (l *lab) replay(sp space, tr []int) {
	c := l.c
	defer l.clean()
	l.fresh(sp.init)
	l.run(func() {
		srv := listen()
		s := dial(srv)
		defer s.end()
		s.version()
		st := &state{sp.init, map[uint32]mfid{}}
		if sp.pre != nil {
			sp.pre()
		}
		var log []string
		for j, k := range tr {
			o := sp.ops[k]
			n, e, nq := st.apply(o)
			if e == skip {
				break
			}
			m := o.send(s)
			log = append(log, fmt.Sprintf("%v => %v", o, m))
			if s.dead != "" {
				c.Violate(s.dead, "%s", strings.Join(log, "\n"))
				return
			}
			bad := ""
			switch {
			case e == succeed && !ok(m):
				bad = fmt.Sprintf("%v must succeed, got %v", o, m)
			case e == fail && ok(m):
				bad = fmt.Sprintf("%v must fail, got %v", o, m)
			case o.t == wire.Twalk && ok(m) && len(m.F[0].([]wire.Qid)) != nq:
				bad = fmt.Sprintf("%v must give %d QIDs, got %v", o, nq, m)
			}
			if o.at && ok(m) {
				switch o.t {
				case wire.Tread:
					want := st.t[st.fids[o.f].path].data
					if o.off > uint64(len(want)) {
						want = ""
					} else {
						want = want[o.off:]
					}
					if uint64(len(want)) > uint64(o.cnt) {
						want = want[:o.cnt]
					}
					if string(data(m)) != want {
						bad = fmt.Sprintf("%v must give %.80q (%d), got %.80q (%d)", o, want, len(want), data(m), len(data(m)))
					}
				case wire.Twrite:
					if m.F[0].(uint32) != uint32(len(o.data)) {
						bad = fmt.Sprintf("%v must report %d, got %v", o, len(o.data), m)
					}
				}
			}
			if e == may {
				if !ok(m) {
					n = st
				} else if o.t == wire.Tcreate {
					// An existing file's permissions, or the new ones.
					q := n.fids[o.f].path
					if h, err := os.Lstat(l.root + "/" + q); err == nil && h.Mode().Perm() == os.FileMode(o.perm&0777) {
						x := n.t[q]
						x.perm = h.Mode().Perm()
						n.t[q] = x
					}
				}
			}
			if bad != "" {
				c.Violate(bad, "step %d of\n%s\nmodel state:\n%s", j+1, strings.Join(log, "\n"), st.key())
				return
			}
			st = n
		}
		if bad := sp.judge(l, s, st); bad != "" {
			c.Violate(bad, "after\n%s\nmodel state:\n%s", strings.Join(log, "\n"), st.key())
		} else if s.dead != "" {
			c.Violate(s.dead, "after\n%s\nmodel state:\n%s", strings.Join(log, "\n"), st.key())
		}
	})
}

// probe looks at what the file identifiers denote and whether they are open.
func probe(s *sess, st *state, fids []uint32) string {
	for _, f := range fids {
		m, have := st.fids[f]
		if have && m.stale {
			continue
		}
		d, good := s.stat(f)
		want := have && st.reach(m.path)
		if good != want {
			return fmt.Sprintf("stat of fid %d: success %v, must be %v", f, good, want)
		}
		if good {
			x := st.t[m.path]
			mode := uint32(x.perm)
			if x.dir {
				mode |= 0x80000000
			}
			if d.Mode != mode || !x.dir && d.Length != uint64(len(x.data)) || m.path != "" && d.Name != path.Base(m.path) {
				return fmt.Sprintf("fid %d denotes %q (mode %o length %d), must denote %q (%s)", f, d.Name, d.Mode, d.Length, m.path, x)
			}
		}
	}
	for _, f := range fids {
		m, have := st.fids[f]
		if have && m.stale {
			continue
		}
		r := s.read(f, 0, 4096)
		want := have && (m.mode == 0 || m.mode == 2)
		if ok(r) != want {
			return fmt.Sprintf("read of fid %d: %v, must succeed: %v", f, r, want)
		}
		if ok(r) && !st.t[m.path].dir && string(data(r)) != st.t[m.path].data {
			return fmt.Sprintf("read of fid %d gives %q, must give %q", f, data(r), st.t[m.path].data)
		}
		w := s.write(f, 0, "")
		want = have && (m.mode == 1 || m.mode == 2)
		if ok(w) && !want && !(have && m.mode == 0) || !ok(w) && want {
			return fmt.Sprintf("empty write to fid %d: %v, must succeed: %v", f, w, want)
		}
	}
	return ""
}

// ends clunks everything: what exists can be clunked, once.
func ends(s *sess, st *state, fids []uint32) string {
	for _, f := range fids {
		_, have := st.fids[f]
		if r := s.clunk(f); ok(r) != have {
			return fmt.Sprintf("clunk of fid %d: %v, must succeed: %v", f, r, have)
		}
		if r := s.clunk(f); ok(r) {
			return fmt.Sprintf("fid %d can be clunked twice", f)
		}
	}
	return ""
}

// descriptors open in the process that refer to files below dir.
func descriptors(dir string) (l []string) {
	ents, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range ents {
		n, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(n, dir) {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return
}

// noGC keeps finalizers from closing files during a case.
func noGC() func() {
	old := debug.SetGCPercent(-1)
	return func() { debug.SetGCPercent(old) }
}
