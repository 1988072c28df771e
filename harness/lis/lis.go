// Package lis explores listeners and several connections of one listener: the
// real server code, instrumented for controlled scheduling.
package lis

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"ninepverif/api"
	"ninepverif/bub"
	"ninepverif/kit"
	"ninepverif/mnet"
	"ninepverif/sched"
	"ninepverif/srv"
	"ninepverif/wire"
	"ninepverif/xplore"

	p "github.com/Harvey-OS/ninep/protocol"
)

func begin(c *kit.Ctx) {
	if os.Getenv("VK_PLAIN") != "" {
		c.Count("uninstrumented", 1)
		c.Cap()
	}
}

type nerr struct {
	n         int
	temp, tmo bool
}

func (e *nerr) Error() string   { return fmt.Sprintf("accept error %d", e.n) }
func (e *nerr) Temporary() bool { return e.temp }
func (e *nerr) Timeout() bool   { return e.tmo }

var _ net.Error = &nerr{}

// hostErrs are errors that listeners of the host return.
var hostErrs = map[rune]error{
	'A': acceptErr(syscall.ECONNABORTED), 'B': acceptErr(syscall.EMFILE), 'C': acceptErr(syscall.ENFILE),
	'D': acceptErr(syscall.EINTR), 'E': acceptErr(syscall.EAGAIN), 'F': acceptErr(syscall.ETIMEDOUT),
	'G': acceptErr(syscall.ECONNRESET), 'H': syscall.EMFILE, 'I': os.ErrDeadlineExceeded,
	'J': &net.OpError{Op: "accept", Net: "unix", Err: os.ErrDeadlineExceeded},
	'P': acceptErr(syscall.EINVAL), 'Q': acceptErr(syscall.EBADF), 'R': &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed},
	'S': io.EOF, 'U': net.ErrClosed, 'V': acceptErr(syscall.ENOBUFS), 'W': acceptErr(syscall.ENOMEM), 'X': acceptErr(syscall.EPERM),
	'Y': context.Canceled, 'Z': context.DeadlineExceeded,
}

func acceptErr(e syscall.Errno) error {
	return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", e)}
}

func temporary(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Temporary()
}

var errLnClosed = errors.New("listener closed")

// outcome of an Accept: a connection, or an error.
type outcome struct {
	conn *mnet.Conn
	err  error
}

// ln is a fake listener. Its fields are touched only inside sched.Change etc.
type ln struct {
	script  []outcome
	closed  bool
	closes  int
	accepts int
	served  []*mnet.Conn // connections handed out
	lastErr error        // the error that has to end Serve
	tempAt  time.Time    // when a temporary error was returned
	late    time.Duration
	wrong   string
	failing bool // Close closes, but reports an error
}

func (l *ln) ready() bool { return l.closed || len(l.script) > 0 }

func (l *ln) Accept() (c net.Conn, err error) {
	now := time.Now()
	sched.Change(func() {
		l.accepts++
		if !l.tempAt.IsZero() {
			if d := now.Sub(l.tempAt); d > l.late {
				l.late = d
			}
			l.tempAt = time.Time{}
		}
		if l.lastErr != nil && l.wrong == "" {
			l.wrong = "Accept was called again after a permanent error"
		}
	})
	for {
		sched.Block(l.ready)
		if sched.Try(func() bool {
			if l.closed {
				err = errLnClosed
				return true
			}
			if len(l.script) == 0 {
				return false
			}
			o := l.script[0]
			l.script = l.script[1:]
			if o.err != nil {
				err = o.err
				if e, ok := o.err.(net.Error); ok && e.Temporary() {
					l.tempAt = time.Now()
				} else {
					l.lastErr = o.err
				}
				return true
			}
			l.served = append(l.served, o.conn)
			c = o.conn
			return true
		}) {
			return
		}
	}
}

func (l *ln) Close() (err error) {
	sched.Sync()
	sched.Change(func() {
		if l.closed {
			err = errLnClosed
		} else if l.failing {
			err = errors.New("close reports an error")
		}
		l.closed = true
		l.closes++
	})
	return
}

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "listener" }

func (l *ln) Addr() net.Addr { return addr{} }

var _ net.Listener = &ln{}

// echo is a file server that answers everything.
func echo() p.NineServer {
	return api.Mock{H: func(m wire.Msg) ([]any, error) {
		_, r := srv.Rep(m.Type, 0, 0)
		return r, nil
	}}
}

func ping(t uint8, tag uint16) (req, rep []byte) {
	m, r := srv.Rep(t, tag, 0)
	return wire.Encode(m), wire.Encode(wire.Msg{Type: t + 1, Tag: tag, F: r})
}

// C14: serving and shutting down.
func C14(c *kit.Ctx) {
	begin(c)
	sequences(c)
	interleavings(c)
}

// sequences of accept outcomes, without controlling the schedule, in fake time.
func sequences(c *kit.Ctx) {
	idx := 0
	depth := 5
	if c.Thorough() {
		depth = 6
	}
	run := func(seq string) {
		idx++
		if !c.Case(idx, "accept "+seq) {
			return
		}
		c.Eval(1)
		c.Distinct("nontrivial", seq)
		if bad := sequence(c, seq); bad != "" {
			c.Violate(bad, "accept outcomes %s (c: connection, t: temporary error, T: temporary timeout, p: error, n: net.Error that is not temporary, o: time-out that is not temporary)", seq)
		}
	}
	var rec func(s string)
	rec = func(s string) {
		run(s)
		if len(s) == depth || strings.ContainsAny(s, "pno") {
			return
		}
		for _, k := range "ctTpno" {
			rec(s + string(k))
		}
	}
	rec("")
	ns := []int{48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 1100}
	if c.Thorough() {
		ns = append(ns, 4100, 33000, 65540)
	}
	for n := 6; n <= 40; n++ {
		ns = append(ns, n)
	}
	for _, n := range ns {
		run(strings.Repeat("t", n/2) + "c" + strings.Repeat("t", n) + "c")
		run(strings.Repeat("T", n) + "c")
		run(strings.Repeat("t", n))
		run(strings.Repeat("t", n) + "c")
		run(strings.Repeat("t", n) + "cttc")
		run(strings.Repeat("tc", n))
		run(strings.Repeat("t", n) + "p")
		run(strings.Repeat("c", n))
	}
	var hs []rune
	for k := range hostErrs {
		hs = append(hs, k)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	for _, k := range hs {
		x := string(k)
		for _, s := range []string{x, x + "c", "c" + x + "c"} {
			if i := strings.Index(s, x); temporary(hostErrs[k]) {
				run(s)
				run(s + "t" + x + "c")
				run(strings.Repeat(x, 12) + s)
				for _, l := range hs {
					if run(x + string(l)); temporary(hostErrs[l]) {
						run(s + string(l) + "c")
					}
				}
			} else {
				run(s[:i+1])
				run("cT" + s[:i+1])
			}
		}
	}
	for n := 4; n <= 40; n++ {
		ns = append(ns, n)
	}
	for _, n := range ns {
		for _, again := range []bool{false, true} {
			if n > 1200 || c.Done() {
				continue
			}
			idx++
			if c.Case(idx, fmt.Sprintf("%d listeners, again %v", n, again)) {
				c.Eval(1)
				c.Distinct("nontrivial", fmt.Sprint("listeners ", n, again))
				if bad := several(c, n, again); bad != "" {
					c.Violate(bad, "%d listeners served at once", n)
				}
			}
		}
	}
}

// several serves many listeners at once and shuts down; again: after a third
// of them have ended and others taken their place.
func several(c *kit.Ctx, n int, again bool) (bad string) {
	say := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	bub.Run(c.T, func() {
		panics := sched.Uncontrolled(func(s *sched.S) {
			l, err := p.NewListener(echo, api.TraceListener)
			if err != nil {
				panic(err)
			}
			type served struct {
				ln   *ln
				conn *mnet.Conn
				ret  error
				over bool
			}
			var all []*served
			start := func(i int) {
				x := &served{ln: &ln{failing: i%4 == 3}, conn: mnet.New(fmt.Sprint("peer", i))}
				x.ln.script = []outcome{{conn: x.conn}}
				all = append(all, x)
				s.Thread(fmt.Sprint("serve", i), func() {
					err := l.Serve(x.ln)
					sched.Change(func() { x.ret, x.over = err, true })
				})
			}
			talk := func(i int) {
				q, r := ping(wire.Tversion, 0xffff)
				all[i].conn.Feed(q)
				bub.Wait()
				if g := all[i].conn.Take(); string(g) != string(r) {
					say("the connection of listener %d is not served: sent % x, got % x", i, q, g)
				}
			}
			for i := 0; i < n; i++ {
				start(i)
			}
			bub.Wait()
			for i := range all {
				talk(i)
			}
			if again {
				fail := errors.New("accept fails")
				for i := 0; i < n; i += 3 {
					sched.Change(func() { all[i].ln.script = append(all[i].ln.script, outcome{err: fail}) })
				}
				s.Free(func() {})
				for i := 0; i < n; i += 3 {
					if !all[i].over || !errors.Is(all[i].ret, fail) || !all[i].ln.closed {
						say("Serve of listener %d does not end with its accept error: over=%v %v, closed=%v", i, all[i].over, all[i].ret, all[i].ln.closed)
					}
				}
				for i := n; i < n+n/3; i++ {
					start(i)
				}
				bub.Wait()
			}
			done := false
			s.Thread("shutdown", func() {
				l.Shutdown()
				sched.Change(func() { done = true })
			})
			time.Sleep(3 * time.Second)
			bub.Wait()
			if !done {
				say("Shutdown did not return")
			}
			for i, x := range all {
				if !x.ln.closed {
					say("listener %d of %d was not closed by Shutdown", i, len(all))
				} else if !x.over {
					say("Serve of listener %d of %d did not return after Shutdown", i, len(all))
				}
			}
			for i, x := range all {
				if i < 5 || i > len(all)-5 {
					talk(i)
				}
				x.ln.closed = true
				x.conn.End(errors.New("over"), false)
			}
			bub.Wait()
		})
		if len(panics) > 0 {
			say("a goroutine panicked: %s", panics[0])
		}
	})
	return
}

func sequence(c *kit.Ctx, seq string) (bad string) {
	say := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	bub.Run(c.T, func() {
		panics := sched.Uncontrolled(func(s *sched.S) {
			l, err := p.NewListener(echo, api.TraceListener)
			if err != nil {
				panic(err)
			}
			x := &ln{failing: len(seq)%2 == 1}
			var conns []*mnet.Conn
			var last error
			for i, k := range seq {
				o := outcome{}
				switch k {
				case 'c':
					o.conn = mnet.New(fmt.Sprint("peer", i))
					conns = append(conns, o.conn)
				case 't':
					o.err = &nerr{i, true, false}
				case 'T':
					o.err = &nerr{i, true, true}
				case 'p':
					o.err = fmt.Errorf("accept error %d", i)
				case 'n':
					o.err = &nerr{i, false, false}
				case 'o':
					o.err = &nerr{i, false, true}
				}
				if e, ok := hostErrs[k]; ok {
					o.err = e
				}
				if o.err != nil && !temporary(o.err) {
					last = o.err
				}
				x.script = append(x.script, o)
			}
			var ret error
			returned := false
			s.Thread("serve", func() {
				err := l.Serve(x)
				sched.Change(func() { ret, returned = err, true })
			})
			time.Sleep(time.Duration(len(seq)+2) * time.Second)
			bub.Wait()
			if len(x.script) > 0 {
				say("after %d s only %d of %d accept outcomes were consumed", len(seq)+2, len(seq)-len(x.script), len(seq))
				return
			}
			if x.late > time.Second {
				say("a temporary accept error was retried only after %v", x.late)
			}
			if x.wrong != "" {
				say("%s", x.wrong)
			}
			talk := func(t uint8, tag uint16) {
				for i, cn := range conns {
					q, r := ping(t, tag)
					cn.Feed(q)
					bub.Wait()
					if g := cn.Take(); string(g) != string(r) {
						say("connection %d of %d is not served: sent % x, got % x", i, len(conns), q, g)
						return
					}
				}
			}
			talk(wire.Tversion, 0xffff)
			if last != nil {
				if !returned {
					say("Serve did not return after %v", last)
				} else if !errors.Is(ret, last) && (ret == nil || ret.Error() != last.Error()) {
					say("Serve returned %v instead of %v", ret, last)
				} else if !x.closed {
					say("Serve returned but did not close its listener")
				}
			} else if returned {
				say("Serve returned %v while it was to serve", ret)
			}
			if bad != "" {
				return
			}
			talk(wire.Tclunk, 7)
			done := false
			s.Thread("shutdown", func() {
				l.Shutdown()
				sched.Change(func() { done = true })
			})
			time.Sleep(3 * time.Second)
			bub.Wait()
			switch {
			case !done:
				say("Shutdown did not return")
			case !returned:
				say("Serve did not return after Shutdown")
			case !x.closed:
				say("the listener was not closed")
			case last == nil && ret == nil && false:
			}
			talk(wire.Tstat, 8)
			for _, cn := range conns {
				cn.End(errors.New("over"), false)
			}
			bub.Wait()
		})
		if len(panics) > 0 {
			say("a goroutine panicked: %s", panics[0])
		}
	})
	return
}

type lplan struct {
	name      string
	scripts   []string // per listener, one Serve each
	shutdowns int
	direct    int // connections given to Accept directly, each by its own thread
	failing   bool
	bound     int
}

func (pl lplan) scenario() xplore.Scenario {
	return xplore.Scenario{Name: pl.name, Bound: pl.bound, Make: func() *xplore.Inst {
		l, err := p.NewListener(echo, api.TraceListener)
		if err != nil {
			panic(err)
		}
		var lns []*ln
		var direct []*mnet.Conn
		must := make([]bool, len(pl.scripts)) // that Serve has to return
		rets := make([]error, len(pl.scripts))
		phase := 0
		bad := ""
		say := func(f string, a ...any) {
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
		}
		mk := func(n string) *mnet.Conn {
			m := mnet.New(n)
			m.Hook = func(string, []byte) { sched.Sync() }
			return m
		}
		shutdown := func() {
			sched.Sync()
			sched.Change(func() {
				for i, x := range lns {
					if x.accepts > 0 {
						must[i] = true
					}
				}
			})
			l.Shutdown()
		}
		in := &xplore.Inst{}
		in.Setup = func(s *sched.S) {
			for i, sc := range pl.scripts {
				x := &ln{failing: pl.failing}
				for k, ch := range sc {
					switch ch {
					case 'c':
						x.script = append(x.script, outcome{conn: mk(fmt.Sprint("peer", i, k))})
					case 't':
						x.script = append(x.script, outcome{err: &nerr{k, true, false}})
					case 'p':
						x.script = append(x.script, outcome{err: fmt.Errorf("accept error %d.%d", i, k)})
					}
				}
				lns = append(lns, x)
				s.Thread(fmt.Sprint("serve", i), func() {
					err := l.Serve(x)
					sched.Change(func() { rets[i] = err })
				})
			}
			for i := 0; i < pl.shutdowns; i++ {
				s.Thread(fmt.Sprint("shutdown", i), shutdown)
			}
			for i := 0; i < pl.direct; i++ {
				cn := mk(fmt.Sprint("direct", i))
				direct = append(direct, cn)
				s.Thread(fmt.Sprint("accept", i), func() {
					if err := l.Accept(cn); err != nil {
						sched.Change(func() { say("Accept returned %v", err) })
					}
				})
			}
		}
		conns := func() (r []*mnet.Conn) {
			for _, x := range lns {
				r = append(r, x.served...)
			}
			return append(r, direct...)
		}
		var want []byte
		expect := func(when string) {
			for i, cn := range conns() {
				if g := cn.Take(); string(g) != string(want) {
					say("%s: connection %d is not served: got % x, want % x", when, i, g, want)
				}
			}
		}
		in.Idle = func(s *sched.S) bool {
			defer func() { phase++ }()
			if bad != "" {
				return false
			}
			switch phase {
			case 0, 1, 2: // temporary errors
				time.Sleep(time.Second)
				return true
			case 3:
				for i := 0; i < pl.shutdowns; i++ {
					if !s.Ended(fmt.Sprint("shutdown", i)) {
						say("Shutdown did not return")
					}
				}
				for i, x := range lns {
					e := s.Ended(fmt.Sprint("serve", i))
					switch {
					case must[i] && !e:
						say("Serve call %d, which was accepting when Shutdown was called, did not return", i)
					case x.lastErr != nil && !e:
						say("Serve call %d did not return after %v", i, x.lastErr)
					case e && x.lastErr != nil && !x.closed:
						say("Serve call %d returned without closing its listener", i)
					case e && pl.shutdowns == 0 && x.lastErr == nil:
						say("Serve call %d returned %v for no reason", i, rets[i])
					case e && x.lastErr != nil && pl.shutdowns == 0 && (rets[i] == nil || !strings.Contains(rets[i].Error(), x.lastErr.Error())):
						say("Serve call %d returned %v instead of %v", i, rets[i], x.lastErr)
					case must[i] && !x.closed:
						say("Shutdown did not close listener %d", i)
					}
				}
				var q []byte
				q, want = ping(wire.Tversion, 0xffff)
				for _, cn := range conns() {
					cn.Feed(q)
				}
				return true
			case 4:
				expect("first")
				s.Thread("lastshutdown", shutdown)
				return true
			case 5, 6:
				time.Sleep(time.Second)
				return true
			case 7:
				if !s.Ended("lastshutdown") {
					say("the last Shutdown did not return")
				}
				for i, x := range lns {
					if !s.Ended(fmt.Sprint("serve", i)) {
						say("Serve call %d did not return after Shutdown", i)
					} else if !x.closed {
						say("listener %d was not closed", i)
					}
					if x.wrong != "" {
						say("%s", x.wrong)
					}
				}
				var q []byte
				q, want = ping(wire.Tclunk, 9)
				for _, cn := range conns() {
					cn.Feed(q)
				}
				return true
			case 8:
				expect("after Shutdown")
			}
			return false
		}
		in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
			defer over(conns())
			if o.Overrun {
				return "no progress (step limit reached)", ""
			}
			if bad == "" && phase < 9 {
				return "", "" // not reached
			}
			return bad, fmt.Sprint(must, rets, len(conns()))
		}
		return in
	}}
}

func interleavings(c *kit.Ctx) {
	x := 0
	if c.Thorough() {
		x = 1
	}
	for i, pl := range []lplan{
		{name: "serve", scripts: []string{"c"}, bound: 2 + x},
		{name: "serve two", scripts: []string{"cc", "c"}, bound: 1 + x},
		{name: "serve and shutdown", scripts: []string{"c"}, shutdowns: 1, bound: 3 + x},
		{name: "serve nothing and shutdown", scripts: []string{""}, shutdowns: 1, bound: 4 + x},
		{name: "serve two and shutdown", scripts: []string{"c", ""}, shutdowns: 1, bound: 2 + x},
		{name: "serve three and shutdown", scripts: []string{"", "", ""}, shutdowns: 1, bound: 2 + x},
		{name: "serve ends and shutdown", scripts: []string{"p"}, shutdowns: 1, bound: 3 + x},
		{name: "serve ends, another serves, and shutdown", scripts: []string{"p", "c"}, shutdowns: 1, bound: 2 + x},
		{name: "serve and shutdown twice", scripts: []string{""}, shutdowns: 2, bound: 3 + x},
		{name: "serve two and shutdown twice", scripts: []string{"c", ""}, shutdowns: 2, bound: 2},
		{name: "serve with temporary error and shutdown", scripts: []string{"tc"}, shutdowns: 1, bound: 2 + x},
		{name: "serve with temporary errors, two", scripts: []string{"ttc", "tc"}, shutdowns: 1, bound: 1 + x},
		{name: "serve, shutdown, close reports an error", scripts: []string{"c"}, shutdowns: 1, failing: true, bound: 2 + x},
		{name: "serve two, shutdown, close reports an error", scripts: []string{"c", ""}, shutdowns: 1, failing: true, bound: 1 + x},
		{name: "serve three, shutdown, close reports an error", scripts: []string{"", "c", ""}, shutdowns: 1, failing: true, bound: 1 + x},
		{name: "serve four, close reports an error", scripts: []string{"c", "", "c", ""}, failing: true, bound: x},
		{name: "serve ends, close reports an error", scripts: []string{"p", ""}, shutdowns: 1, failing: true, bound: 1 + x},
		{name: "direct accepts", scripts: nil, direct: 2, bound: 2 + x},
		{name: "direct accepts, serve and shutdown", scripts: []string{"c"}, direct: 1, shutdowns: 1, bound: 2},
	} {
		xplore.Explore(c, 100000+i, pl.scenario())
	}
}
