package lis

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"ninepverif/api"
	"ninepverif/bub"
	"ninepverif/kit"
	"ninepverif/mnet"
	"ninepverif/sched"
	"ninepverif/srv"
	"ninepverif/wire"
	"ninepverif/xplore"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	p "github.com/Harvey-OS/ninep/protocol"
)

// small is a small stateful file server: what it answers depends on all it
// was asked before. Its points let other connections in at every moment.
type small struct {
	n    int
	fids map[uint32]string
	quit bool // no scheduling points
}

func (x *small) handle(m wire.Msg) (r []any, err error) {
	if !x.quit {
		sched.Sync()
		defer sched.Sync()
	}
	x.n++
	_, r = srv.Rep(m.Type, 0, x.n%3)
	if m.Type == wire.Tversion || m.Type == wire.Tflush {
		return
	}
	f := m.F[0].(uint32)
	have, ok := x.fids[f]
	switch m.Type {
	case wire.Tattach:
		if ok {
			return nil, errors.New("fid in use")
		}
		x.fids[f] = m.F[3].(string)
	case wire.Tclunk, wire.Tremove:
		delete(x.fids, f)
	case wire.Twalk:
		x.fids[m.F[1].(uint32)] = have + "/" + fmt.Sprint(m.F[2])
	case wire.Tread:
		r = []any{[]byte(fmt.Sprintf("%d: %s at %v", x.n, have, m.F[1]))}
	case wire.Twrite:
		x.fids[f] = have + string(m.F[2].([]byte))
	}
	if !ok && m.Type != wire.Tattach {
		return nil, fmt.Errorf("op %d: no fid %d", x.n, f)
	}
	return
}

// expected computes the replies to a script on a server of its own. Before a
// version request nothing is executed; those replies are errors with any text.
func expected(script []wire.Msg) (l []wire.Msg) {
	x := &small{fids: map[uint32]string{}, quit: true}
	v := false
	for _, m := range script {
		v = v || m.Type == wire.Tversion
		if !v {
			l = append(l, wire.M(wire.Rerror, m.Tag))
			continue
		}
		r, err := x.handle(m)
		if err != nil {
			l = append(l, wire.M(wire.Rerror, m.Tag, err.Error()))
		} else {
			l = append(l, wire.Msg{Type: m.Type + 1, Tag: m.Tag, F: r})
		}
	}
	return
}

func script(k string, who int) (l []wire.Msg) {
	tag := uint16(who*1000 + 1)
	add := func(t uint8, f ...any) { l = append(l, wire.M(t, tag, f...)); tag++ }
	w := byte('A' + who)
	for _, c := range k {
		switch c {
		case 'v':
			add(wire.Tversion, uint32(8192+who), "9P2000")
		case 'a':
			add(wire.Tattach, uint32(1), uint32(0xffffffff), "u", "tree"+string(w))
		case 'w':
			add(wire.Twalk, uint32(1), uint32(2), []string{string(w), "x"})
		case 'r':
			add(wire.Tread, uint32(2), uint64(who), uint32(100))
		case 'W':
			add(wire.Twrite, uint32(2), uint64(0), bytes.Repeat([]byte{w}, 5+who))
		case 'c':
			add(wire.Tclunk, uint32(2))
		case 'R':
			add(wire.Tremove, uint32(1))
		case 'f':
			add(wire.Tflush, uint16(who+3))
		case 'o':
			add(wire.Topen, uint32(2), uint8(who))
		case 's':
			add(wire.Tstat, uint32(1))
		}
	}
	return
}

type cplan struct {
	name    string
	scripts []string
	parts   bool // requests arrive in pieces
	chain   bool // each connection is made when the previous one has ended
	same    bool // all from the same address
	bound   int
}

func (pl cplan) scenario() xplore.Scenario {
	return xplore.Scenario{Name: pl.name, Bound: pl.bound, Make: func() *xplore.Inst {
		var conns []*mnet.Conn
		in := &xplore.Inst{}
		in.Setup = func(s *sched.S) {
			l, err := p.NewListener(func() p.NineServer {
				x := &small{fids: map[uint32]string{}}
				return api.Mock{H: x.handle}
			}, api.TraceListener)
			if err != nil {
				panic(err)
			}
			for i, k := range pl.scripts {
				name := fmt.Sprint("conn", i)
				if pl.same {
					name = "conn"
				}
				cn := mnet.New(name)
				cn.Hook = func(string, []byte) { sched.Sync() }
				for _, m := range script(k, i) {
					b := wire.Encode(m)
					if pl.parts {
						cn.Feed(b[:5], b[5:9], b[9:])
					} else {
						cn.Feed(b)
					}
				}
				conns = append(conns, cn)
				if pl.chain {
					cn.End(io.EOF, false)
				}
				s.Thread(fmt.Sprint("accept", i), func() {
					if pl.chain && i > 0 {
						sched.Block(conns[i-1].Closed)
					}
					l.Accept(cn)
				})
			}
		}
		in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
			defer over(conns)
			if o.Overrun {
				return "no progress (step limit reached)", ""
			}
			for i, k := range pl.scripts {
				want := expected(script(k, i))
				if bad := compare(conns[i].Take(), want, nil); bad != "" {
					return fmt.Sprintf("connection %d (script %s): %s", i, k, bad), ""
				}
			}
			return "", ""
		}
		return in
	}}
}

func compare(out []byte, want []wire.Msg, same func(a, b wire.Msg) bool) string {
	msgs, rest := wire.Split(out)
	if len(rest) > 0 {
		return fmt.Sprintf("incomplete reply % x", rest)
	}
	for j, w := range want {
		if j >= len(msgs) {
			return fmt.Sprintf("no reply %d, want %v", j, w)
		}
		g, err := wire.Decode(msgs[j])
		if err != nil {
			return fmt.Sprintf("reply %d is malformed: %v", j, err)
		}
		ok := g.Type == w.Type && g.Tag == w.Tag
		if ok && !(w.Type == wire.Rerror && len(w.F) == 0) {
			if same != nil {
				ok = same(g, w)
			} else {
				ok = api.Equal(g.F, w.F)
			}
		}
		if !ok {
			return fmt.Sprintf("reply %d is %v, alone it is %v", j, g, w)
		}
	}
	if len(msgs) > len(want) {
		return fmt.Sprintf("%d replies to %d requests", len(msgs), len(want))
	}
	return ""
}

// C07: connections are independent.
func C07(c *kit.Ctx) {
	begin(c)
	x := 0
	if c.Thorough() {
		x = 1
	}
	idx := 0
	explore := func(sc xplore.Scenario) { idx++; xplore.Explore(c, idx, sc) }
	for _, pl := range []cplan{
		{name: "v v", scripts: []string{"v", "v"}, bound: 3 + x},
		{name: "va va", scripts: []string{"va", "va"}, bound: 2 + x},
		{name: "vawrW vawrc", scripts: []string{"vawrW", "vawrc"}, bound: 2 + x},
		{name: "vawrWrc vawcr pieces", scripts: []string{"vawrWrc", "vawcr"}, parts: true, bound: 1 + x},
		{name: "vawrWrcrR vawoWrcsR", scripts: []string{"vawrWrcrR", "vawoWrcsR"}, bound: 1 + x},
		{name: "v a", scripts: []string{"va", "aw"}, bound: 2 + x},
		{name: "unversioned", scripts: []string{"aw", "vawr"}, bound: 2 + x},
		{name: "late version", scripts: []string{"avaw", "wrvaw"}, bound: 2 + x},
		{name: "same address", scripts: []string{"va", "vaw"}, same: true, bound: 1 + x},
		{name: "one after the other", scripts: []string{"vaw", "wr"}, chain: true, bound: 1 + x},
		{name: "one after the other, same address", scripts: []string{"vaw", "wvwra"}, chain: true, same: true, bound: 1 + x},
		{name: "three after each other, same address", scripts: []string{"vawo", "vrawr", "vrwa"}, chain: true, same: true, bound: x},
		{name: "three", scripts: []string{"va", "vaw", "a"}, bound: 2},
		{name: "three longer", scripts: []string{"vawr", "vawW", "vaR"}, bound: 1 + x},
	} {
		explore(pl.scenario())
	}
	two(c, explore, x)
	crowds(c, &idx)
}

// crowds are many connections at once, all of which stay.
func crowds(c *kit.Ctx, idx *int) {
	ns := []int{4, 8, 10, 16, 17, 20, 32, 33, 50, 63, 64, 65, 70, 100, 128, 129, 140, 200, 256, 257, 300, 512, 513, 1000, 1024, 1025, 1100}
	if c.Thorough() {
		ns = append(ns, 2049, 4100, 10010)
	}
	for _, n := range ns {
		*idx++
		if c.Case(*idx, fmt.Sprintf("%d connections", n)) {
			c.Eval(1)
			c.Distinct("nontrivial", fmt.Sprint("crowd", n))
			crowd(c, n)
		}
		if c.Done() {
			return
		}
	}
	for _, n := range ns {
		if n > 600 {
			break
		}
		*idx++
		if c.Case(*idx, fmt.Sprintf("%d connections to ufs", n)) {
			c.Eval(1)
			c.Distinct("nontrivial", fmt.Sprint("ufs crowd", n))
			ufsCrowd(c, n)
		}
		if c.Done() {
			return
		}
	}
}

func one(cn *mnet.Conn, m wire.Msg) []byte {
	cn.Feed(wire.Encode(m))
	bub.Wait()
	return cn.Take()
}

func plainly(c *kit.Ctx, f func()) {
	bub.Run(c.T, func() {
		if ps := sched.Uncontrolled(func(*sched.S) { f() }); len(ps) > 0 && !c.Violated() {
			c.Violate("the server crashed", "%v", ps)
		}
	})
}

// crowd lets every connection talk, in rounds in different orders.
func crowd(c *kit.Ctx, n int) {
	plainly(c, func() {
		l, err := p.NewListener(func() p.NineServer {
			x := &small{fids: map[uint32]string{}, quit: true}
			return api.Mock{H: x.handle}
		}, api.TraceListener)
		if err != nil {
			panic(err)
		}
		var conns []*mnet.Conn
		var want [][]wire.Msg
		const k = "vawrWsroc"
		sc := func(i int) []wire.Msg { return script(k, i%60) }
		for i := 0; i < n; i++ {
			cn := mnet.New(fmt.Sprint("conn", i%7))
			conns = append(conns, cn)
			want = append(want, expected(sc(i)))
			if err := l.Accept(cn); err != nil {
				c.Violate("a connection is not accepted", "%d of %d: %v", i, n, err)
				return
			}
		}
		defer over(conns)
		for r := range k {
			for j := range conns {
				i := j
				if r%2 == 1 {
					i = n - 1 - j
				}
				if r == len(k)-2 && i%3 == 1 {
					// a third of them leave
					conns[i].End(io.EOF, false)
				}
				if r >= len(k)-2 && i%3 == 1 {
					continue
				}
				if bad := compare(one(conns[i], sc(i)[r]), want[i][r:r+1], nil); bad != "" {
					c.Violate("one of many connections is not served as if it were alone", "connection %d of %d, request %d: %s", i, n, r, bad)
					return
				}
			}
		}
	})
}

// ufsCrowd has every connection write a file of its own, with the same
// identifiers, and read it back when all have written.
func ufsCrowd(c *kit.Ctx, n int) {
	root := filepath.Join(c.Scratch, "crowd", fmt.Sprint(n))
	if err := os.MkdirAll(root, 0755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(filepath.Join(c.Scratch, "crowd"))
	if err := flag.Set("root", root); err != nil {
		panic(err)
	}
	plainly(c, func() {
		l, err := ufs.NewUFS(api.TraceListener)
		if err != nil {
			panic(err)
		}
		var conns []*mnet.Conn
		for i := 0; i < n; i++ {
			conns = append(conns, mnet.New(fmt.Sprint("conn", i%7)))
			if err := l.Accept(conns[i]); err != nil {
				c.Violate("a connection is not accepted", "%d of %d: %v", i, n, err)
				return
			}
		}
		defer over(conns)
		ask := func(i int, m wire.Msg) (wire.Msg, bool) {
			r, err := wire.Decode(one(conns[i], m))
			if err != nil || r.Type != m.Type+1 || r.Tag != m.Tag {
				c.Violate("one of many connections is not served as if it were alone", "connection %d of %d: %v: %v %v", i, n, m, r, err)
				return r, false
			}
			return r, true
		}
		for r, mk := range []func(i int) wire.Msg{
			func(i int) wire.Msg { return wire.M(wire.Tversion, 0xffff, uint32(8192), "9P2000") },
			func(i int) wire.Msg { return wire.M(wire.Tattach, 1, uint32(1), uint32(0xffffffff), "u", "") },
			func(i int) wire.Msg { return wire.M(wire.Twalk, 2, uint32(1), uint32(2), []string{}) },
			func(i int) wire.Msg {
				return wire.M(wire.Tcreate, 3, uint32(2), fmt.Sprint("f", i), uint32(0644), uint8(2))
			},
			func(i int) wire.Msg {
				return wire.M(wire.Twrite, 4, uint32(2), uint64(0), []byte(fmt.Sprint("written by ", i)))
			},
			func(i int) wire.Msg { return wire.M(wire.Tread, 5, uint32(2), uint64(0), uint32(100)) },
			func(i int) wire.Msg { return wire.M(wire.Tstat, 6, uint32(2)) },
			func(i int) wire.Msg { return wire.M(wire.Tclunk, 7, uint32(2)) },
		} {
			for j := range conns {
				i := j
				if r%2 == 1 {
					i = n - 1 - j
				}
				m, ok := ask(i, mk(i))
				if !ok {
					return
				}
				switch m.Type {
				case wire.Rread:
					if w := fmt.Sprint("written by ", i); string(m.F[0].([]byte)) != w {
						c.Violate("one of many connections is not served as if it were alone", "connection %d of %d reads %q, wrote %q", i, n, m.F[0], w)
						return
					}
				case wire.Rstat:
					if d, _, err := wire.DecodeDir(m.F[0].([]byte)); err != nil || d.Name != fmt.Sprint("f", i) {
						c.Violate("one of many connections is not served as if it were alone", "connection %d of %d: stat gives %q", i, n, d.Name)
						return
					}
				}
			}
		}
	})
}

// uscript is a conversation with the ufs server about its own directory.
func uscript(k string, who int) (l []wire.Msg) {
	dir := string(rune('a' + who))
	tag := uint16(who*1000 + 1)
	add := func(t uint8, f ...any) { l = append(l, wire.M(t, tag, f...)); tag++ }
	small, own := strings.HasPrefix(k, "m"), strings.Contains(k, "A")
	if small {
		// reads give at most 10 bytes
		add(wire.Tversion, uint32(34), "9P2000")
	} else {
		add(wire.Tversion, uint32(8192), "9P2000")
	}
	if own {
		add(wire.Tattach, uint32(1), uint32(0xffffffff), "u", dir)
		add(wire.Twalk, uint32(1), uint32(2), []string{"..", "f"})
	} else {
		add(wire.Tattach, uint32(1), uint32(0xffffffff), "u", "")
		add(wire.Twalk, uint32(1), uint32(2), []string{dir, "f"})
	}
	for _, c := range k {
		switch c {
		case 'l':
			add(wire.Tversion, uint32(8192), "9P2000")
		case 'x':
			add(wire.Twalk, uint32(1), uint32(5), []string{"nothing here"})
		case 'o':
			add(wire.Topen, uint32(2), uint8(2))
		case 'r':
			add(wire.Tread, uint32(2), uint64(0), uint32(100))
		case 'W':
			add(wire.Twrite, uint32(2), uint64(2), []byte("new in "+dir))
		case 'c':
			add(wire.Tclunk, uint32(2))
		case 'C':
			add(wire.Twalk, uint32(1), uint32(3), []string{dir})
			add(wire.Tcreate, uint32(3), "made", uint32(0644), uint8(1))
			add(wire.Twrite, uint32(3), uint64(0), []byte("made by "+dir))
			add(wire.Tclunk, uint32(3))
		case 'D':
			add(wire.Twalk, uint32(1), uint32(4), []string{dir})
			add(wire.Topen, uint32(4), uint8(0))
			add(wire.Tread, uint32(4), uint64(0), uint32(4000))
			add(wire.Tclunk, uint32(4))
		case 'R':
			add(wire.Tremove, uint32(2))
		case 's':
			add(wire.Tstat, uint32(2))
		case 'n':
			d := wire.DontTouch()
			d.Name = "renamed"
			add(wire.Twstat, uint32(2), wire.EncodeDir(d))
			add(wire.Tstat, uint32(2))
		case 'w':
			add(wire.Twalk, uint32(2), uint32(9), []string{".."})
			add(wire.Tstat, uint32(9))
		}
	}
	return
}

// names of the directory entries and file stats; the rest depends on the host.
func sameUfs(a, b wire.Msg) bool {
	switch a.Type {
	case wire.Rattach, wire.Ropen, wire.Rcreate, wire.Rerror:
		return true
	case wire.Rwalk:
		return len(a.F[0].([]wire.Qid)) == len(b.F[0].([]wire.Qid))
	case wire.Rstat:
		x, _, e1 := wire.DecodeDir(a.F[0].([]byte))
		y, _, e2 := wire.DecodeDir(b.F[0].([]byte))
		return e1 == nil && e2 == nil && x.Name == y.Name && x.Length == y.Length && x.Mode == y.Mode
	case wire.Rread:
		x, y := a.F[0].([]byte), b.F[0].([]byte)
		if bytes.Equal(x, y) {
			return true
		}
		nx, ny := names(x), names(y)
		return nx != "" && nx == ny
	}
	return api.Equal(a.F, b.F)
}

func names(b []byte) (s string) {
	m := map[string]bool{}
	for len(b) > 0 {
		d, rest, err := wire.DecodeDir(b)
		if err != nil {
			return ""
		}
		m[d.Name] = true
		b = rest
	}
	for _, n := range []string{"f", "made", "renamed", "g"} {
		if m[n] {
			s += n + ","
			delete(m, n)
		}
	}
	for n := range m {
		s += "?" + n
	}
	return
}

func two(c *kit.Ctx, explore func(xplore.Scenario), x int) {
	// a new path every time: what is remembered of others must not matter
	base, n := filepath.Join(c.Scratch, "two"), 0
	fresh := func() {
		if err := os.RemoveAll(base); err != nil {
			panic(err)
		}
		n++
		root := filepath.Join(base, fmt.Sprint(n))
		for i, d := range []string{"a", "b", "c"} {
			if err := os.MkdirAll(filepath.Join(root, d), 0755); err != nil {
				panic(err)
			}
			if err := os.WriteFile(filepath.Join(root, d, "f"), []byte(fmt.Sprint("contents of file ", i)), 0644); err != nil {
				panic(err)
			}
			if err := os.WriteFile(filepath.Join(root, d, "g"), []byte("other"), 0644); err != nil {
				panic(err)
			}
		}
		if err := flag.Set("root", root); err != nil {
			panic(err)
		}
	}
	mkInst := func(scripts []string, alone int, alones [][]wire.Msg) *xplore.Inst {
		var conns []*mnet.Conn
		in := &xplore.Inst{}
		in.Setup = func(s *sched.S) {
			fresh()
			l, err := ufs.NewUFS(api.TraceListener)
			if err != nil {
				panic(err)
			}
			for i, k := range scripts {
				cn := mnet.New(fmt.Sprint("conn", i))
				conns = append(conns, cn)
				if alone >= 0 && i != alone {
					continue
				}
				cn.Hook = func(string, []byte) { sched.Sync() }
				for _, m := range uscript(k, i) {
					cn.Feed(wire.Encode(m))
				}
				s.Thread(fmt.Sprint("accept", i), func() { l.Accept(cn) })
			}
		}
		in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
			defer over(conns)
			if o.Overrun {
				return "no progress (step limit reached)", ""
			}
			seen := ""
			for i, k := range scripts {
				if alone >= 0 {
					if i == alone {
						msgs, _ := wire.Split(conns[i].Take())
						for _, b := range msgs {
							m, err := wire.Decode(b)
							if err != nil {
								return fmt.Sprintf("malformed reply % x", b), ""
							}
							alones[i] = append(alones[i], m)
						}
					}
					continue
				}
				if bad := compare(conns[i].Take(), alones[i], sameUfs); bad != "" {
					return fmt.Sprintf("connection %d (script %s): %s", i, k, bad), ""
				}
			}
			return "", seen
		}
		return in
	}
	for _, pl := range []struct {
		scripts []string
		bound   int
	}{
		{[]string{"or", "or"}, 1 + x},
		{[]string{"orc", "oWr"}, 1 + x},
		{[]string{"rorcr", "oR"}, 1 + x},
		{[]string{"oWrs", "cC"}, 1 + x},
		{[]string{"DD", "CD"}, 1},
		{[]string{"mor", "or"}, 1 + x},
		{[]string{"morlr", "orr"}, x},
		{[]string{"Aor", "or"}, 1 + x},
		{[]string{"AorW", "mAors"}, x},
		{[]string{"orr", "orr", "or"}, x},
		{[]string{"xor", "mxorx"}, x},
		{[]string{"nws", "osR"}, 1},
	} {
		alones := make([][]wire.Msg, len(pl.scripts))
		for i := range pl.scripts {
			sc := xplore.Scenario{Name: "alone", Make: func() *xplore.Inst { return mkInst(pl.scripts, i, alones) }}
			xplore.One(c, &sc, nil, false)
			if len(alones[i]) != len(uscript(pl.scripts[i], i)) {
				// not served even alone: nothing to compare with; other checks look at that
				c.Count("scripts_not_served_alone", 1)
			}
		}
		explore(xplore.Scenario{Name: fmt.Sprint("ufs ", pl.scripts), Bound: pl.bound, Make: func() *xplore.Inst { return mkInst(pl.scripts, -1, alones) }})
	}
}

// over lets the goroutines of the connections end.
func over(conns []*mnet.Conn) {
	for _, cn := range conns {
		cn.End(io.EOF, false)
	}
}
