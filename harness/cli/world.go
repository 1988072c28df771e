// Package cli explores the client side of the library: the real client code,
// instrumented for controlled scheduling, against a scripted server over an
// in-memory transport.
package cli

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"ninepverif/api"
	"ninepverif/bub"
	"ninepverif/kit"
	"ninepverif/sched"
	"ninepverif/srv"
	"ninepverif/wire"

	p "github.com/Harvey-OS/ninep/protocol"
)

// call is a request with the answer the server has for it.
type call struct {
	m    wire.Msg
	res  []any
	fail string // the answer is this error, unless empty
}

func mk(t uint8, v int, fail string) call {
	m, r := srv.Rep(t, 0, v)
	return call{m, r, fail}
}

func (x call) reply(tag uint16) []byte {
	if x.fail != "" {
		return wire.Encode(wire.M(wire.Rerror, tag, x.fail))
	}
	return wire.Encode(wire.Msg{Type: x.m.Type + 1, Tag: tag, F: x.res})
}

// result of a call.
type result struct {
	f    []any
	err  error
	done bool
}

// ok says whether the result is the server's answer.
func (r result) ok(x call) bool {
	if x.fail != "" {
		return r.err != nil && r.err.Error() == x.fail
	}
	return r.err == nil && api.Equal(r.f, x.res)
}

// request as the server sees it.
type request struct {
	tag      uint16
	who, i   int // whose call
	answered int // offset in the reply stream at which its reply ends; 0: none
}

var errReset = errors.New("connection reset by peer")
var errClosed = errors.New("use of closed connection")

// world is a client with its transport and server. All of it but c is
// touched only inside sched.Change, Try and conditions.
type world struct {
	c *p.Client
	s *sched.S

	// transport
	in       []byte // the whole stream of replies
	got      int    // read by the client
	out      []byte // written by the client
	parsed   int
	rEnd     int // offset at which reading ends; -1: never
	rErr     error
	rWith    bool // the error comes with the last bytes
	wEnd     int  // offset at which writing fails; -1: never
	wBlock   bool // writing does not fail there but waits
	rClosed  bool
	wClosed  bool
	oneConn  bool // both directions are one connection
	max      int  // most bytes per Read; 0: any
	reads    int
	writes   int
	failedAt int // reads seen to fail
	cuts     []int
	pauses   []int // nothing after the first of these offsets is delivered yet

	// callers
	calls   [][]call
	results [][]result

	// server
	reqs  []request
	held  *[65536]bool // tags taken by GetTag
	wrong string
	go_   bool // lets late callers go
	open  bool // the server answers

	prefix string // of the names of the callers
}

func newWorld(calls [][]call) *world {
	w := &world{rEnd: -1, wEnd: -1, calls: calls, held: new([65536]bool)}
	w.results = make([][]result, len(calls))
	for i := range calls {
		w.results[i] = make([]result, len(calls[i]))
	}
	return w
}

type rside struct {
	w *world
	n api.Tally
}
type wside struct {
	w *world
	n api.Tally
}
type both struct {
	*world
	n api.Tally
}

// delivered is the part of the replies that has reached the client's side.
func (w *world) delivered() int {
	if len(w.pauses) > 0 && w.pauses[0] < len(w.in) {
		return w.pauses[0]
	}
	return len(w.in)
}

// resume ends a pause at which everything delivered was read; whatever was
// answered in full must have reached its caller.
func (w *world) resume() bool {
	if len(w.pauses) == 0 || w.delivered() != w.pauses[0] {
		return false
	}
	for _, q := range w.reqs {
		if q.answered > 0 && q.answered <= w.pauses[0] && !w.results[q.who][q.i].done {
			w.bad("call %d.%d was answered in full and does not return while bytes after it are missing (%d of %d delivered)", q.who, q.i, w.pauses[0], len(w.in))
		}
	}
	w.pauses = w.pauses[1:]
	return true
}

func (w *world) readable() bool {
	return w.rClosed || w.got < w.delivered() && (w.rEnd < 0 || w.got < w.rEnd) || w.rEnd >= 0 && w.got >= w.rEnd
}

func (w *world) Read(b []byte) (n int, err error) {
	for {
		sched.Block(w.readable)
		ok := sched.Try(func() bool {
			if w.rClosed {
				n, err = 0, errClosed
				return true
			}
			if !w.readable() {
				return false
			}
			end := w.delivered()
			if w.rEnd >= 0 && w.rEnd < end {
				end = w.rEnd
			}
			for _, k := range w.cuts {
				if k > w.got && k < end {
					end = k
					break
				}
			}
			if w.max > 0 && w.got+w.max < end {
				end = w.got + w.max
			}
			n, err = copy(b, w.in[w.got:end]), nil
			if len(b) > 0 {
				w.reads++
			}
			w.got += n
			if w.rEnd >= 0 && w.got >= w.rEnd && (n == 0 || w.rWith) && len(b) > 0 {
				err = w.rErr
				w.failedAt++
			}
			return true
		})
		if ok {
			sched.InputOutput(&w.rEnd, true, b[:n])
			return
		}
	}
}

func (w *world) Write(b []byte) (n int, err error) {
	ready := func() bool {
		return !(w.wBlock && w.wEnd >= 0 && len(w.out) >= w.wEnd) || w.wClosed
	}
	all := b
	for {
		sched.Block(ready)
		ok := sched.Try(func() bool {
			if w.wClosed {
				err = errClosed
				return true
			}
			if !ready() {
				return false
			}
			k := len(b)
			if w.wEnd >= 0 && len(w.out)+k > w.wEnd {
				k = w.wEnd - len(w.out)
			}
			w.out = append(w.out, b[:k]...)
			n += k
			b = b[k:]
			w.writes++
			if len(b) > 0 {
				if w.wBlock {
					return false
				}
				err = errReset
			}
			return true
		})
		if ok {
			sched.InputOutput(&w.wEnd, false, all[:n])
			return
		}
	}
}

func (x *rside) Read(b []byte) (int, error) {
	n, err := x.w.Read(b)
	x.n.Do()
	return n, err
}
func (x *rside) Close() error {
	sched.Sync()
	sched.Change(func() { x.w.rClosed = true })
	sched.InputOutput(&x.w.rEnd, false, nil)
	x.n.Do()
	return nil
}
func (x *wside) Write(b []byte) (int, error) {
	n, err := x.w.Write(b)
	x.n.Do()
	return n, err
}
func (x *wside) Close() error {
	sched.Sync()
	sched.Change(func() { x.w.wClosed = true })
	sched.InputOutput(&x.w.wEnd, false, nil)
	x.n.Do()
	return nil
}
func (x *both) Read(b []byte) (int, error) {
	n, err := x.world.Read(b)
	x.n.Do()
	return n, err
}
func (x *both) Write(b []byte) (int, error) {
	n, err := x.world.Write(b)
	x.n.Do()
	return n, err
}
func (x *both) Close() error {
	sched.Sync()
	var was bool
	sched.Change(func() { was = x.rClosed; x.rClosed, x.wClosed = true, true })
	sched.InputOutput(&x.rEnd, false, nil)
	sched.InputOutput(&x.wEnd, false, nil)
	x.n.Do()
	if was {
		return errClosed
	}
	return nil
}

// Watched adds a thread that asks for the client's String.
var Watched bool

func (w *world) watch(s *sched.S) {
	if Watched {
		s.Thread(w.prefix+"watcher", func() { _ = w.c.String() })
	}
}

// start makes the client; with keep > 0 only that many tags are left in the
// pool.
func (w *world) start(s *sched.S, keep int) {
	w.s = s
	c, err := p.NewClient(func(c *p.Client) error {
		if w.oneConn {
			x := &both{world: w}
			c.FromNet, c.ToNet = x, x
		} else {
			c.FromNet, c.ToNet = &rside{w: w}, &wside{w: w}
		}
		return nil
	}, api.TraceClient)
	if err != nil {
		panic(err)
	}
	w.c = c
	if keep > 0 {
		n := supply(nil) - keep
		for i := 0; i < n; i++ {
			w.held[uint16(c.GetTag())] = true
		}
	}
}

var tagSupply int

// supply is the number of tags a client has.
func supply(c *kit.Ctx) int {
	if tagSupply == 0 {
		w := newWorld(nil)
		bub.Run(c.T, func() {
			sched.Control(nil, 10, false, func(s *sched.S) {
				w.start(s, 0)
				s.Free(func() {
					for {
						w.c.GetTag()
						tagSupply++
					}
				})
			}, nil, func(*sched.S, *sched.Outcome) {})
		})
	}
	return tagSupply
}

func caller(i int) string { return fmt.Sprintf("caller%d", i) }

// callers starts the threads that make the calls.
func (w *world) callers(s *sched.S) {
	for i := range w.calls {
		s.Thread(w.prefix+caller(i), func() { w.make(i) })
	}
	w.watch(s)
}

func (w *world) make(i int) {
	for j, x := range w.calls[i] {
		f, err := api.Call(w.c, x.m)
		sched.Change(func() {
			if w.results[i][j].done {
				w.bad("call %d.%d returned twice", i, j)
			}
			w.results[i][j] = result{f, err, true}
		})
	}
}

func (w *world) bad(f string, a ...any) {
	if w.wrong == "" {
		w.wrong = fmt.Sprintf(f, a...)
	}
}

// complete says whether there is a complete request the server has not taken.
func (w *world) complete() bool {
	b := w.out[w.parsed:]
	return len(b) >= 4 && len(b) >= size(b)
}

func size(b []byte) int {
	return int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
}

// take parses the next request; -1 if there is none.
func (w *world) take() int {
	if !w.complete() {
		return -1
	}
	b := w.out[w.parsed:]
	n := size(b)
	if n < 7 {
		w.bad("the client sent a message with size %d: % x", n, clip(b))
		w.parsed = len(w.out)
		return -1
	}
	b = b[:n]
	w.parsed += n
	m, err := wire.Decode(b)
	if err != nil {
		w.bad("the client sent a malformed message: %v: % x", err, clip(b))
		return -1
	}
	r := request{tag: m.Tag, who: -1}
	for i, l := range w.calls {
		for j, x := range l {
			if x.m.Type == m.Type && api.Equal(x.m.F, m.F) {
				r.who, r.i = i, j
			}
		}
	}
	if r.who < 0 {
		w.bad("the client sent %v, which nobody asked for", m)
		return -1
	}
	if m.Tag == 0 || m.Tag == 0xffff {
		w.bad("%v uses a reserved tag", m)
	}
	if w.held[m.Tag] {
		w.bad("%v uses a tag that was handed out to somebody else", m)
	}
	for _, q := range w.reqs {
		if q.tag == m.Tag && (q.answered == 0 || q.answered > w.got) {
			w.bad("%v uses the tag of a request whose reply has not arrived", m)
		}
		if q.who == r.who && q.i == r.i {
			w.bad("%v was sent twice", m)
		}
	}
	w.reqs = append(w.reqs, r)
	return len(w.reqs) - 1
}

// answer sends the reply to a request.
func (w *world) answer(k int) {
	r := &w.reqs[k]
	w.in = append(w.in, w.calls[r.who][r.i].reply(r.tag)...)
	r.answered = len(w.in)
}

// prompt is a server thread that answers requests as they come.
func (w *world) prompt(s *sched.S) {
	s.Thread(w.prefix+"server", func() {
		for {
			sched.Block(w.complete)
			sched.Change(func() {
				if k := w.take(); k >= 0 {
					w.answer(k)
				}
			})
		}
	})
}

// order answers, whenever nothing else can happen, the outstanding request
// that comes first in the given order of callers.
func (w *world) order(ord []int) func(*sched.S) bool {
	return func(s *sched.S) (more bool) {
		sched.Change(func() {
			for w.complete() {
				w.take()
			}
			best, rank := -1, 0
			for k, q := range w.reqs {
				if q.answered == 0 {
					r := 0
					for ord[r] != q.who {
						r++
					}
					if best < 0 || r < rank {
						best, rank = k, r
					}
				}
			}
			if best >= 0 {
				w.answer(best)
				more = true
			}
		})
		return
	}
}

// allAnswered judges an execution in which every call is to succeed.
func (w *world) allAnswered(s *sched.S, o *sched.Outcome) (bad, seen string) {
	if o.Overrun {
		return "the calls make no progress (step limit reached)", ""
	}
	if w.wrong != "" {
		return w.wrong, ""
	}
	for i, l := range w.calls {
		for j, x := range l {
			r := w.results[i][j]
			if !r.done {
				return fmt.Sprintf("call %d.%d (%v) never returned; requests seen: %s", i, j, x.m, w.describe()), ""
			}
			if !r.ok(x) {
				return fmt.Sprintf("call %d.%d (%v) returned %.200q, %v; the server answered %.200q %q", i, j, x.m, fmt.Sprint(r.f), r.err, fmt.Sprint(x.res), x.fail), ""
			}
		}
		if !s.Ended(w.prefix + caller(i)) {
			return fmt.Sprintf("caller %d did not end", i), ""
		}
	}
	if w.parsed != len(w.out) {
		return fmt.Sprintf("the client sent surplus bytes: % x", clip(w.out[w.parsed:])), ""
	}
	return "", w.describe()
}

func (w *world) describe() string {
	var b strings.Builder
	for _, q := range w.reqs {
		fmt.Fprintf(&b, "%d.%d tag %d @%d;", q.who, q.i, q.tag, q.answered)
	}
	return b.String()
}

func clip(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

// perms of 0..n-1.
func perms(n int) (l [][]int) {
	var rec func(a []int, used int)
	rec = func(a []int, used int) {
		if len(a) == n {
			l = append(l, append([]int{}, a...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(a, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}

// begin notes what holds for all checks here.
func begin(c *kit.Ctx) {
	if os.Getenv("VK_PLAIN") != "" {
		c.Count("uninstrumented", 1)
		c.Cap()
	}
}

var _ io.ReadWriteCloser = &both{}
