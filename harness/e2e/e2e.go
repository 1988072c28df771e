// Package e2e explores the whole system: the real client and the real ufs
// server, both instrumented for controlled scheduling, with an in-memory
// connection between them and real files below.
package e2e

import (
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"ninepverif/api"
	"ninepverif/kit"
	"ninepverif/sched"
	"ninepverif/wire"
	"ninepverif/xplore"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	p "github.com/Harvey-OS/ninep/protocol"
)

// pipe is a connection. Its state is touched only inside sched.Change, Try
// and conditions.
type pipe struct {
	buf  [2][]byte // on the way to the server, to the client
	shut [2]bool   // closed by the server, by the client
}

// end of a pipe: 0 is the server's.
type end struct {
	*pipe
	me   int
	mark byte
	n    api.Tally
}

func (e *end) Read(b []byte) (n int, err error) {
	ready := func() bool { return len(e.buf[e.me]) > 0 || e.shut[0] || e.shut[1] }
	for {
		sched.Block(ready)
		if sched.Try(func() bool {
			switch {
			case e.shut[e.me]:
				err = net.ErrClosed
			case len(e.buf[e.me]) > 0:
				n = copy(b, e.buf[e.me])
				e.buf[e.me] = e.buf[e.me][n:]
			case e.shut[1-e.me]:
				err = io.EOF
			default:
				return false
			}
			return true
		}) {
			sched.InputOutput(&e.mark, true, b[:n])
			e.n.Do()
			return
		}
	}
}

func (e *end) Write(b []byte) (n int, err error) {
	sched.Sync()
	sched.Change(func() {
		if e.shut[0] || e.shut[1] {
			err = net.ErrClosed
			return
		}
		e.buf[1-e.me] = append(e.buf[1-e.me], b...)
		n = len(b)
	})
	sched.InputOutput(&e.mark, false, b[:n])
	e.n.Do()
	return
}

func (e *end) Close() (err error) {
	sched.Sync()
	sched.Change(func() {
		if e.shut[e.me] {
			err = net.ErrClosed
		}
		e.shut[e.me] = true
	})
	sched.InputOutput(&e.mark, false, nil)
	e.n.Do()
	return
}

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (e *end) LocalAddr() net.Addr              { return addr("here") }
func (e *end) RemoteAddr() net.Addr             { return addr("there") }
func (e *end) SetDeadline(time.Time) error      { return nil }
func (e *end) SetReadDeadline(time.Time) error  { return nil }
func (e *end) SetWriteDeadline(time.Time) error { return nil }

var _ net.Conn = &end{}

// what the callers find: fids 1 (f, not open), 2 (f, open), 3 (the directory
// d, not open), 4 (g, open), 5 (d, open), with fid 0 at the root.
func prepare() []wire.Msg {
	return []wire.Msg{
		wire.M(wire.Tversion, 0, uint32(8192), "9P2000"),
		wire.M(wire.Tattach, 0, uint32(0), uint32(0xffffffff), "u", ""),
		wire.M(wire.Twalk, 0, uint32(0), uint32(1), []string{"f"}),
		wire.M(wire.Twalk, 0, uint32(0), uint32(2), []string{"f"}),
		wire.M(wire.Topen, 0, uint32(2), uint8(2)),
		wire.M(wire.Twalk, 0, uint32(0), uint32(3), []string{"d"}),
		wire.M(wire.Twalk, 0, uint32(0), uint32(4), []string{"g"}),
		wire.M(wire.Topen, 0, uint32(4), uint8(2)),
		wire.M(wire.Twalk, 0, uint32(0), uint32(5), []string{"d"}),
		wire.M(wire.Topen, 0, uint32(5), uint8(0)),
	}
}

var files = [][2]string{{"f", "contents of f"}, {"g", "contents of g"}, {"d/x", "x in d"}, {"d/y", "y in d"}}

// probe is what is asked afterwards.
func probe() (l []wire.Msg) {
	for _, f := range []uint32{1, 2, 3, 10} {
		l = append(l, wire.M(wire.Tstat, 0, f), wire.M(wire.Twalk, 0, f, 20+f, []string{}))
	}
	for _, f := range []uint32{1, 2, 4, 5, 10} {
		l = append(l, wire.M(wire.Tread, 0, f, uint64(0), uint32(4000)))
	}
	more := wire.M(wire.Tread, 0, uint32(5), uint64(100), uint32(4000))
	l = append(l, more, wire.M(wire.Twalk, 0, uint32(11), uint32(31), []string{}))
	return
}

// ops the callers choose from.
var ops = map[string]wire.Msg{
	"read 2":      wire.M(wire.Tread, 0, uint32(2), uint64(0), uint32(100)),
	"read 2+4":    wire.M(wire.Tread, 0, uint32(2), uint64(4), uint32(6)),
	"read 4":      wire.M(wire.Tread, 0, uint32(4), uint64(0), uint32(100)),
	"read 5":      wire.M(wire.Tread, 0, uint32(5), uint64(0), uint32(4000)),
	"read 1":      wire.M(wire.Tread, 0, uint32(1), uint64(0), uint32(100)),
	"write 2 A":   wire.M(wire.Twrite, 0, uint32(2), uint64(0), []byte("AAAAAA")),
	"write 2 B":   wire.M(wire.Twrite, 0, uint32(2), uint64(3), []byte("BBBBBBBBBBBBBBB")),
	"write 4":     wire.M(wire.Twrite, 0, uint32(4), uint64(20), []byte("far")),
	"walk 1 10":   wire.M(wire.Twalk, 0, uint32(1), uint32(10), []string{}),
	"walk f 10":   wire.M(wire.Twalk, 0, uint32(0), uint32(10), []string{"f"}),
	"walk h 11":   wire.M(wire.Twalk, 0, uint32(0), uint32(11), []string{"h"}),
	"walk d/x 10": wire.M(wire.Twalk, 0, uint32(0), uint32(10), []string{"d", "x"}),
	"walk x 11":   wire.M(wire.Twalk, 0, uint32(3), uint32(11), []string{"x"}),
	"walk n 11":   wire.M(wire.Twalk, 0, uint32(0), uint32(11), []string{"d", "n"}),
	"walk up":     wire.M(wire.Twalk, 0, uint32(3), uint32(3), []string{".."}),
	"walk f 2":    wire.M(wire.Twalk, 0, uint32(0), uint32(2), []string{"f"}),
	"open 1":      wire.M(wire.Topen, 0, uint32(1), uint8(2)),
	"open 1 cut":  wire.M(wire.Topen, 0, uint32(1), uint8(0x11)),
	"open 10":     wire.M(wire.Topen, 0, uint32(10), uint8(0)),
	"open 3":      wire.M(wire.Topen, 0, uint32(3), uint8(0)),
	"clunk 1":     wire.M(wire.Tclunk, 0, uint32(1)),
	"clunk 2":     wire.M(wire.Tclunk, 0, uint32(2)),
	"clunk 3":     wire.M(wire.Tclunk, 0, uint32(3)),
	"remove 1":    wire.M(wire.Tremove, 0, uint32(1)),
	"remove 2":    wire.M(wire.Tremove, 0, uint32(2)),
	"remove 3":    wire.M(wire.Tremove, 0, uint32(3)),
	"stat 1":      wire.M(wire.Tstat, 0, uint32(1)),
	"stat 2":      wire.M(wire.Tstat, 0, uint32(2)),
	"stat 5":      wire.M(wire.Tstat, 0, uint32(5)),
	"name 1":      wstat(1, func(d *wire.Dir) { d.Name = "h" }),
	"name 2":      wstat(2, func(d *wire.Dir) { d.Name = "h" }),
	"name d":      wstat(3, func(d *wire.Dir) { d.Name = "e" }),
	"cut 2":       wstat(2, func(d *wire.Dir) { d.Length = 4 }),
	"mode 1":      wstat(1, func(d *wire.Dir) { d.Mode = 0600 }),
	"create n":    wire.M(wire.Tcreate, 0, uint32(3), "n", uint32(0644), uint8(1)),
	"create dir":  wire.M(wire.Tcreate, 0, uint32(3), "n", uint32(1<<31|0755), uint8(0)),
	"attach 10":   wire.M(wire.Tattach, 0, uint32(10), uint32(0xffffffff), "u", "d"),
	"flush":       wire.M(wire.Tflush, 0, uint16(9)),
}

func wstat(fid uint32, f func(*wire.Dir)) wire.Msg {
	d := wire.DontTouch()
	f(&d)
	return wire.M(wire.Twstat, 0, fid, wire.EncodeDir(d))
}

// show is what matters of a result: not what the host makes up.
func show(m wire.Msg, f []any, err error) string {
	if err != nil {
		return "error"
	}
	switch m.Type {
	case wire.Tattach:
		return fmt.Sprint("attached ", f[0].(wire.Qid).Type)
	case wire.Twalk:
		s := "walked"
		for _, q := range f[0].([]wire.Qid) {
			s += fmt.Sprint(" ", q.Type)
		}
		return s
	case wire.Topen, wire.Tcreate:
		return fmt.Sprint("opened ", f[0].(wire.Qid).Type, " ", f[1])
	case wire.Tstat:
		d, rest, err := wire.DecodeDir(f[0].([]byte))
		if err != nil || len(rest) > 0 {
			return fmt.Sprintf("malformed % x", f[0])
		}
		return about(d)
	case wire.Tread:
		b := f[0].([]byte)
		if len(b) > 40 {
			var l []string
			for x := b; len(x) > 0; {
				d, rest, err := wire.DecodeDir(x)
				if err != nil {
					return fmt.Sprintf("%q", b)
				}
				l = append(l, about(d))
				x = rest
			}
			sort.Strings(l)
			return strings.Join(l, ", ")
		}
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprint(f...)
}

func about(d wire.Dir) string {
	if d.Mode>>31 != 0 {
		return fmt.Sprintf("%s %o", d.Name, d.Mode)
	}
	return fmt.Sprintf("%s %o %d", d.Name, d.Mode, d.Length)
}

type call struct {
	name       string
	from, till int // when it began and returned
	what       string
}

type world struct {
	callers [][]*call
	clock   int
	go_     bool
	ready   bool
	bad     string
	after   string
	probed  bool
}

var roots int

// fresh makes the files, at a new path every time: what is remembered of
// others must not matter.
func fresh(base string) string {
	if err := os.RemoveAll(base); err != nil {
		panic(err)
	}
	roots++
	root := filepath.Join(base, fmt.Sprint(roots), "root")
	if err := os.MkdirAll(filepath.Join(root, "d"), 0755); err != nil {
		panic(err)
	}
	for _, f := range files { // always in the same order, which may be that of the directory
		if err := os.WriteFile(filepath.Join(root, f[0]), []byte(f[1]), 0644); err != nil {
			panic(err)
		}
	}
	if err := flag.Set("root", root); err != nil {
		panic(err)
	}
	return root
}

func tree(root string) string {
	var l []string
	filepath.Walk(root, func(n string, i os.FileInfo, err error) error {
		if err != nil {
			l = append(l, n+": "+err.Error())
			return nil
		}
		s := fmt.Sprint(strings.TrimPrefix(n, root), " ", i.Mode())
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(n)
			s += fmt.Sprintf(" %q", b)
		}
		l = append(l, s)
		return nil
	})
	return strings.Join(l, "\n")
}

// instance runs the programs, those of all callers at once, or in the order
// given one call after the other.
func instance(base string, programs [][]string, order []int, judge func(w *world) string) *xplore.Inst {
	w := &world{}
	root := ""
	for _, l := range programs {
		var cs []*call
		for _, n := range l {
			if _, ok := ops[n]; !ok {
				panic(n)
			}
			cs = append(cs, &call{name: n})
		}
		w.callers = append(w.callers, cs)
	}
	var c *p.Client
	pi := &pipe{}
	do := func(x *call) {
		m := ops[x.name]
		sched.Change(func() { w.clock++; x.from = w.clock })
		f, err := api.Call(c, m)
		sched.Change(func() { w.clock++; x.till = w.clock; x.what = show(m, f, err) })
	}
	in := &xplore.Inst{}
	in.Setup = func(s *sched.S) {
		s.Quiet(true)
		root = fresh(base)
		l, err := ufs.NewUFS(api.TraceListener)
		if err != nil {
			panic(err)
		}
		s.Thread("accept", func() { l.Accept(&end{pipe: pi, me: 0}) })
		c, err = p.NewClient(func(c *p.Client) error {
			e := &end{pipe: pi, me: 1}
			c.FromNet, c.ToNet = e, e
			return nil
		}, api.TraceClient)
		if err != nil {
			panic(err)
		}
		s.Thread("prepare", func() {
			for _, m := range prepare() {
				if _, err := api.Call(c, m); err != nil {
					sched.Change(func() { w.bad = fmt.Sprintf("%v alone: %v", m, err) })
				}
			}
			sched.Change(func() { w.ready = true })
		})
		if order != nil {
			s.Thread("caller", func() {
				sched.Block(func() bool { return w.go_ })
				next := make([]int, len(w.callers))
				for _, i := range order {
					do(w.callers[i][next[i]])
					next[i]++
				}
			})
			return
		}
		for i := range w.callers {
			s.Thread(fmt.Sprint("caller", i), func() {
				sched.Block(func() bool { return w.go_ })
				for _, x := range w.callers[i] {
					do(x)
				}
			})
		}
	}
	in.Idle = func(s *sched.S) bool {
		if !w.ready {
			return false
		}
		if !w.go_ {
			s.Quiet(order != nil)
			sched.Change(func() { w.go_ = true })
			return true
		}
		if w.probed {
			return false
		}
		w.probed = true
		s.Quiet(true)
		w.after = tree(root)
		s.Thread("probe", func() {
			for _, m := range probe() {
				f, err := api.Call(c, m)
				sched.Change(func() { w.after += fmt.Sprintf("\n%v: %s", m, show(m, f, err)) })
			}
			sched.Change(func() { w.after += "\nafter all of which: " + tree(root) })
		})
		return true
	}
	in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
		defer sched.Change(func() { pi.shut = [2]bool{true, true} })
		if o.Overrun {
			return "no progress (step limit reached)", ""
		}
		if w.bad != "" {
			return w.bad, ""
		}
		if !w.ready {
			return "the calls that are made first, one after the other, do not return", ""
		}
		for i, l := range w.callers {
			for _, x := range l {
				if x.till == 0 {
					return fmt.Sprintf("caller %d: %s does not return", i, x.name), ""
				}
			}
		}
		if !s.Ended("probe") {
			return "the calls that are made last, one after the other, do not return", ""
		}
		return judge(w), w.results()
	}
	return in
}

func (w *world) results() (s string) {
	for i, l := range w.callers {
		for _, x := range l {
			s += fmt.Sprintf("caller %d: %s: %s\n", i, x.name, x.what)
		}
	}
	return s + w.after
}

// fits says whether an order of the calls agrees with which of them had
// returned before others began.
func (w *world) fits(order []int) bool {
	next := make([]int, len(w.callers))
	late := 0
	for _, i := range order {
		x := w.callers[i][next[i]]
		next[i]++
		if x.till < late {
			return false
		}
		if x.from > late {
			late = x.from
		}
	}
	return true
}

// orders of the calls of callers with so many calls.
func orders(n []int) (l [][]int) {
	var rec func(a []int)
	rec = func(a []int) {
		end := true
		for i := range n {
			if n[i] > 0 {
				end = false
				n[i]--
				rec(append(a[:len(a):len(a)], i))
				n[i]++
			}
		}
		if end {
			l = append(l, a)
		}
	}
	rec(nil)
	return
}

type plan struct {
	programs [][]string
	bound    int
}

func plans(c *kit.Ctx) (l []plan) {
	x := 0
	if c.Thorough() {
		x = 1
	}
	add := func(bound int, programs ...string) {
		var ps [][]string
		for _, s := range programs {
			ps = append(ps, strings.Split(s, "; "))
		}
		l = append(l, plan{ps, bound})
	}
	add(2+x, "write 2 A", "read 2")
	add(2+x, "clunk 2", "read 2")
	add(2+x, "walk f 10", "attach 10")
	add(2+x, "remove 1", "stat 1")
	add(1+x, "clunk 2; walk f 2", "read 2; write 2 A")
	add(1+x, "clunk 1; walk f 10; open 10", "walk 1 10; stat 1")
	add(1+x, "name 2; walk f 10", "walk h 11; stat 2")
	add(1+x, "write 2 A; read 2", "write 2 B; read 2+4")
	add(1+x, "remove 2; walk f 10", "write 2 B; stat 2")
	add(1+x, "create n; write 2 A", "walk n 11; read 5")
	add(1+x, "open 1 cut; read 2", "write 2 A; stat 2")
	add(1+x, "remove 3; walk d/x 10", "create n; clunk 3")
	add(1+x, "attach 10; clunk 3", "walk x 11; walk up; walk f 10")
	add(1+x, "flush; read 4", "write 4; flush")
	add(1+x, "walk f 2; read 2", "clunk 2; remove 1")
	add(1+x, "write 2 A", "write 2 B", "read 2")
	add(1+x, "walk f 10", "walk d/x 10", "attach 10")
	add(1+x, "clunk 2", "clunk 2", "remove 2")
	add(1+x, "open 1", "open 1 cut", "clunk 1")
	add(1+x, "name 1", "name 2", "walk h 11")
	// One caller, whose calls follow each other: what one leaves for later.
	changes := []string{"write 2 A", "write 2 B", "write 4", "cut 2", "mode 1", "name 1", "open 1 cut", "create n", "remove 1", "clunk 2", "walk f 10"}
	looks := []string{"stat 1", "stat 2", "read 2", "walk n 11", "read 5"}
	for _, a := range changes {
		for _, b := range changes {
			for _, o := range looks {
				add(1+x, a+"; "+b+"; "+o)
			}
		}
	}
	add(1+x, "write 2 A; write 2 B; stat 1", "read 4")
	add(1+x, "write 2 B; write 2 A; read 2", "stat 2")
	add(1+x, "create n; cut 2; write 2 A", "walk n 11; stat 2; read 5")
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, a := range names {
		for _, b := range names[i:] {
			add(1+x, a, b)
		}
	}
	return
}

// Rule28 describes the case space.
const Rule28 = "a client and a ufs server on one connection, everything instrumented: all pairs of 40 calls on a few shared fids, made by two callers at once, 605 sequences of three calls by one caller (change, change, look), and programs of two callers with up to three calls and of three callers, under all schedules with at most the bound of deviations at every synchronisation, shared-variable and host operation of client and server; the results, the host's files and 15 probing calls afterwards must be those of one sequential order of the calls, run on the same code, that respects which calls had returned before others began. Non-trivial: at least one decision."

// C28: concurrent calls take effect one at a time.
func C28(c *kit.Ctx) {
	for i, pl := range plans(c) {
		if c.Done() {
			return
		}
		root := filepath.Join(c.Scratch, "e2e")
		var n []int
		for _, l := range pl.programs {
			n = append(n, len(l))
		}
		ords := orders(n)
		var want []string // made when first needed
		var sc xplore.Scenario
		sc.Name = fmt.Sprintf("%q", pl.programs)
		sc.Bound = pl.bound
		sc.Make = func() *xplore.Inst {
			return instance(root, pl.programs, nil, func(w *world) string {
				got := w.results()
				var could []string
				for k, o := range ords {
					if w.fits(o) {
						if got == want[k] {
							return ""
						}
						could = append(could, want[k])
					}
				}
				return "the outcome is that of no sequential order:\n" + got + "\nbut could have been:\n" + strings.Join(could, "\nor\n")
			})
		}
		if only := c.Only(); only != "" && !strings.HasPrefix(only, sc.Name+"|") {
			continue
		}
		bad := false
		for _, o := range ords {
			res := "?"
			seq := xplore.Scenario{Name: sc.Name + " in order", Make: func() *xplore.Inst {
				return instance(root, pl.programs, o, func(w *world) string { res = w.results(); return "" })
			}}
			xplore.One(c, &seq, nil, false)
			bad = bad || res == "?"
			want = append(want, res)
		}
		if bad {
			// not served even one at a time: nothing to compare with; other checks look at that
			c.Count("programs_not_served_alone", 1)
			c.Cap()
			continue
		}
		xplore.Explore(c, i, sc)
	}
}
