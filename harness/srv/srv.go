// Package srv enumerates conversations with the server side of the library,
// running the real code in synctest bubbles over an in-memory transport.
package srv

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"ninepverif/api"
	"ninepverif/bub"
	"ninepverif/codec"
	"ninepverif/kit"
	"ninepverif/mnet"
	"ninepverif/wire"

	p "github.com/Harvey-OS/ninep/protocol"
)

// step is a request (as bytes) with what has to come of it.
type step struct {
	raw  []byte   // what is sent
	msg  wire.Msg // the request, if well formed
	op   bool     // the file server is invoked with msg
	res  []any    // what it returns
	err  error
	want []byte // the exact reply; nil: an error reply with tag
	tag  uint16
	ends bool // the server ends the connection
}

var errs = []error{errors.New("no such file"), errors.New(""), errors.New("100%d %s %v"), errors.New(string(codec.Pat(65535, 3))), errors.New("\xff\x00é")}

// Sentinels are errors that code likes to compare with, and of types it likes to look into.
var Sentinels = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe,
	os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrInvalid, os.ErrClosed, os.ErrDeadlineExceeded, net.ErrClosed,
	syscall.ENOENT, syscall.EPERM, syscall.EACCES, syscall.EEXIST, syscall.ENOTDIR, syscall.EISDIR, syscall.EINTR, syscall.EAGAIN, syscall.EINVAL, syscall.EBADF, syscall.EPIPE, syscall.ENOTEMPTY,
	context.Canceled, context.DeadlineExceeded, bytes.ErrTooLarge,
	&os.PathError{Op: "open", Path: "/a%b", Err: syscall.ENOENT}, &os.PathError{Op: "read", Path: "x", Err: io.EOF},
	&os.LinkError{Op: "rename", Old: "a", New: "b", Err: syscall.EXDEV}, &os.SyscallError{Syscall: "read", Err: syscall.EIO},
	fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", os.ErrNotExist), errors.Join(io.EOF, os.ErrExist), mnet.ErrReset}

// good makes the step of a well-formed supported request.
func good(m wire.Msg, res []any, err error) step {
	s := step{raw: wire.Encode(m), msg: m, op: true, res: res, err: err, tag: m.Tag}
	if err != nil {
		s.want = wire.Encode(wire.M(wire.Rerror, m.Tag, err.Error()))
	} else {
		s.want = wire.Encode(wire.Msg{Type: m.Type + 1, Tag: m.Tag, F: res})
	}
	return s
}

// unsupported makes the step of a request with an unknown type, or a
// malformed one: answered by an error reply, nothing invoked.
func refused(typ uint8, tag uint16, rest []byte) step {
	b := append([]byte{0, 0, 0, 0, typ, byte(tag), byte(tag >> 8)}, rest...)
	copy(b, wire.Int(nil, uint64(len(b)), 4))
	return step{raw: b, tag: tag}
}

// TTypes are the supported request types.
var TTypes = []uint8{wire.Tversion, wire.Tattach, wire.Tflush, wire.Twalk, wire.Topen, wire.Tcreate, wire.Tread, wire.Twrite, wire.Tclunk, wire.Tremove, wire.Tstat, wire.Twstat}

func isT(t uint8) bool { return bytes.IndexByte(TTypes, t) >= 0 }

// Rep gives representative arguments (v varies them) and results.
func Rep(t uint8, tag uint16, v int) (wire.Msg, []any) {
	f := uint32(0x01020304 + v*0x1111)
	q := wire.Qid{Type: uint8(0x80 + v), Vers: 0x0a0b0c0d + uint32(v), Path: 0x1112131415161718 + uint64(v)<<40}
	switch t {
	case wire.Tversion:
		return wire.M(t, tag, uint32(8192+v), "9P2000"), []any{uint32(8000 + v), "9P2000"}
	case wire.Tattach:
		return wire.M(t, tag, f, uint32(0xffffffff), "user", fmt.Sprint("/tree", v)), []any{q}
	case wire.Tflush:
		return wire.M(t, tag, uint16(0x0203+v)), nil
	case wire.Twalk:
		return wire.M(t, tag, f, f+1, []string{"a", "", fmt.Sprint("..", v)}), []any{[]wire.Qid{q, {Type: 1, Vers: 2, Path: 3}}}
	case wire.Topen:
		return wire.M(t, tag, f, uint8(0x12+v)), []any{q, uint32(0x21222324 + v)}
	case wire.Tcreate:
		return wire.M(t, tag, f, fmt.Sprint("new", v), uint32(0x800001ed), uint8(2)), []any{q, uint32(77 + v)}
	case wire.Tread:
		return wire.M(t, tag, f, uint64(0x3132333435363738)+uint64(v), uint32(100+v)), []any{codec.Pat(100+v, v)}
	case wire.Twrite:
		return wire.M(t, tag, f, uint64(0x4142434445464748)+uint64(v), codec.Pat(33+v, v)), []any{uint32(33 + v)}
	case wire.Tclunk, wire.Tremove:
		return wire.M(t, tag, f), nil
	case wire.Tstat:
		return wire.M(t, tag, f), []any{codec.Pat(60+v, v)}
	case wire.Twstat:
		return wire.M(t, tag, f, codec.Pat(61+v, v)), nil
	}
	panic("type")
}

func version(tag uint16) step {
	m, r := Rep(wire.Tversion, tag, 0)
	return good(m, r, nil)
}

// world is a listener with a scripted file server per connection.
type world struct {
	c    *kit.Ctx
	l    *p.Listener
	next *peer // the peer the next creation belongs to
}

type peer struct {
	conn  *mnet.Conn
	todo  []step // expected operations, in order
	ops   int
	wrong string
	slow  time.Duration // how long operations take
}

func (x *peer) handle(m wire.Msg) ([]any, error) {
	if x.ops >= len(x.todo) {
		if x.wrong == "" {
			x.wrong = fmt.Sprintf("unexpected operation %v", m)
		}
		return nil, errors.New("unexpected")
	}
	s := x.todo[x.ops]
	x.ops++
	if (s.msg.Type != m.Type || !api.Equal(s.msg.F, m.F)) && x.wrong == "" {
		x.wrong = fmt.Sprintf("operation %d is %v, want %v", x.ops, m, s.msg)
	}
	if x.slow > 0 {
		time.Sleep(x.slow)
	}
	return s.res, s.err
}

func newWorld(c *kit.Ctx) *world {
	w := &world{c: c}
	var err error
	w.l, err = p.NewListener(func() p.NineServer {
		x := w.next
		return api.Mock{H: x.handle}
	}, api.TraceListener)
	if err != nil {
		panic(err)
	}
	return w
}

func (w *world) connect(name string) *peer {
	x := &peer{conn: mnet.New(name)}
	w.next = x
	if err := w.l.Accept(x.conn); err != nil {
		panic(err)
	}
	bub.Wait()
	return x
}

// expect queues the operations the steps cause.
func (x *peer) expect(st ...step) {
	for _, s := range st {
		if s.op {
			x.todo = append(x.todo, s)
		}
	}
}

// replies checks the replies to steps that were sent, given what came out.
func replies(out []byte, st []step) string {
	msgs, rest := wire.Split(out)
	if len(rest) != 0 {
		return fmt.Sprintf("output ends with a broken message: % x", clip(rest))
	}
	if len(msgs) != len(st) {
		return fmt.Sprintf("%d replies to %d requests: %s", len(msgs), len(st), list(msgs))
	}
	for i, s := range st {
		if s.want != nil {
			if !bytes.Equal(msgs[i], s.want) {
				g, gerr := wire.Decode(msgs[i])
				w, _ := wire.Decode(s.want)
				return fmt.Sprintf("reply %d to %v is %v (%v), want %v", i, s.msg, g, gerr, w)
			}
			continue
		}
		g, err := wire.Decode(msgs[i])
		if err != nil || g.Type != wire.Rerror || g.Tag != s.tag {
			return fmt.Sprintf("reply %d to refused request % x is %v (%v), want an error reply with tag %d", i, clip(s.raw), g, err, s.tag)
		}
	}
	return ""
}

func list(msgs [][]byte) string {
	s := ""
	for i, m := range msgs {
		if i > 5 {
			return s + "..."
		}
		d, err := wire.Decode(m)
		s += fmt.Sprintf("[%v %v] ", d, err)
	}
	return s
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// verdict checks replies and operations after quiescence.
func (x *peer) verdict(st []step) string {
	if r := replies(x.conn.Take(), st); r != "" {
		return r
	}
	if x.wrong != "" {
		return x.wrong
	}
	if x.ops != len(x.todo) {
		return fmt.Sprintf("%d operations invoked, want %d", x.ops, len(x.todo))
	}
	return ""
}

// exchange sends steps (all at once, or waiting for each reply) and checks.
func (x *peer) exchange(st []step, pipelined bool) string {
	if pipelined {
		var all []byte
		for _, s := range st {
			all = append(all, s.raw...)
		}
		x.expect(st...)
		x.conn.Feed(all)
		bub.Wait()
		return x.verdict(st)
	}
	for _, s := range st {
		x.expect(s)
		x.conn.Feed(s.raw)
		bub.Wait()
		if r := x.verdict([]step{s}); r != "" {
			return r
		}
	}
	return ""
}

func (x *peer) finish() {
	x.conn.End(io.EOF, false)
	bub.Wait()
	x.conn.Close()
}

var otherTypes = func() []uint8 {
	var r []uint8
	for t := 0; t < 256; t++ {
		if !isT(uint8(t)) {
			r = append(r, uint8(t))
		}
	}
	return r
}()

// C03: one reply per request.
func C03(c *kit.Ctx) {
	idx := 0
	// alphabet of requests
	var mk []func(tag uint16, v int) step
	for _, t := range TTypes {
		t := t
		mk = append(mk, func(tag uint16, v int) step { m, r := Rep(t, tag, v); return good(m, r, nil) })
		mk = append(mk, func(tag uint16, v int) step { m, r := Rep(t, tag, v); return good(m, r, errs[v%len(errs)]) })
	}
	for _, t := range []uint8{wire.Tauth, wire.Terror, wire.Rversion, wire.Rerror, wire.Rwalk, wire.Rread, 128, 0, 255, 99} {
		t := t
		mk = append(mk, func(tag uint16, v int) step { return refused(t, tag, codec.Pat(v*3, v)) })
	}
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	tagsets := [][]uint16{{1, 2, 3, 4}, {7, 7, 7, 7}, {0, 0xffff, 0x8001, 1}}
	var rec func(pre []int)
	rec = func(pre []int) {
		if c.Done() {
			return
		}
		if len(pre) > 0 {
			for ts, tags := range tagsets {
				for mode := 0; mode < 2; mode++ {
					idx++
					if len(pre) == 1 && mode == 1 || len(pre) == 3 && ts > 0 && !c.Thorough() || len(pre) > 3 && (ts > 0 || mode == 0) {
						continue
					}
					if !c.Case(idx, fmt.Sprintf("seq %v tags%d mode%d", pre, ts, mode)) {
						continue
					}
					var st []step
					for i, a := range pre {
						st = append(st, mk[a](tags[i], i))
					}
					conversation(c, st, mode == 1)
				}
			}
		}
		if len(pre) < depth {
			for a := range mk {
				rec(append(append([]int{}, pre...), a))
			}
		}
	}
	rec(nil)
	if c.Violated() {
		return
	}
	// argument and result values, in batches on one connection
	var batch []step
	flush := func(force bool) {
		if len(batch) < 60 && !force || len(batch) == 0 {
			return
		}
		idx++
		if c.Case(idx, fmt.Sprintf("values batch %d", idx)) {
			c.Count("value_requests", len(batch))
			conversation(c, batch, idx%2 == 0)
		}
		batch = nil
	}
	n := 0
	add := func(s step) {
		batch = append(batch, s)
		n++
		flush(false)
	}
	for _, t := range TTypes {
		spec, rspec := wire.ByType(t), wire.ByType(t+1)
		_, res := Rep(t, 0, 1)
		for fi, f := range spec.Fields {
			for _, v := range codec.Values(f.Kind, fi, true) {
				m, _ := Rep(t, codec.Tags[n%len(codec.Tags)], 1)
				m.F[fi] = v
				add(good(m, res, nil))
			}
		}
		for fi, f := range rspec.Fields {
			for _, v := range codec.Values(f.Kind, fi, true) {
				m, res := Rep(t, codec.Tags[n%len(codec.Tags)], 2)
				r := append([]any{}, res...)
				r[fi] = v
				add(good(m, r, nil))
			}
		}
		for _, e := range append(append([]error{}, errs...), Sentinels...) {
			m, res := Rep(t, 9, 3)
			add(good(m, res, e))
			add(good(m, nil, e)) // an error without values
		}
		for _, tag := range codec.Tags {
			m, res := Rep(t, tag, 4)
			add(good(m, res, nil))
		}
	}
	for _, t := range otherTypes {
		for _, l := range []int{0, 1, 50, 300} {
			add(refused(t, uint16(n), codec.Pat(l, l)))
		}
	}
	flush(true)
	if c.Violated() {
		return
	}
	// Operations that take long, clients that are silent for long.
	for _, d := range []time.Duration{time.Millisecond, 100 * time.Millisecond, time.Second, 3 * time.Second, 10 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 25 * time.Hour, 400 * 24 * time.Hour} {
		for _, t := range append([]uint8{wire.Tauth}, TTypes...) {
			for mode := 0; mode < 3; mode++ {
				idx++
				if c.Case(idx, fmt.Sprintf("waiting %v at type %d mode %d", d, t, mode)) {
					waiting(c, d, t, mode)
				}
			}
		}
	}
	// long conversations
	for k, t := range []uint8{wire.Tclunk, wire.Tread, wire.Tauth, wire.Twalk} {
		for mode := 0; mode < 2; mode++ {
			n := 2000
			if k == 0 && mode == 1 {
				n = 1<<16 + 300
			}
			idx++
			if !c.Case(idx, fmt.Sprintf("%d requests of type %d mode %d", n, t, mode)) {
				continue
			}
			var st []step
			for i := 0; i < n; i++ {
				if !isT(t) {
					st = append(st, refused(t, uint16(i), nil))
					continue
				}
				m, res := Rep(t, uint16(i), i%50)
				var err error
				if i%5 == 4 {
					err = errs[0]
				}
				st = append(st, good(m, res, err))
			}
			conversation(c, st, mode == 1)
		}
	}
}

// waiting has pauses in a conversation: operations that take long (mode 0; 1:
// with requests following at once), or requests that arrive late (2).
func waiting(c *kit.Ctx, d time.Duration, t uint8, mode int) {
	bub.Run(c.T, func() {
		w := newWorld(c)
		x := w.connect("a")
		st := []step{version(0xffff)}
		for i := 0; i < 3; i++ {
			if !isT(t) {
				st = append(st, refused(t, uint16(i), nil))
				continue
			}
			m, r := Rep(t, uint16(i), i)
			st = append(st, good(m, r, nil))
		}
		if mode < 2 {
			x.slow = d
		}
		c.Eval(1)
		if mode == 1 {
			x.expect(st...)
			for _, s := range st {
				x.conn.Feed(s.raw)
			}
			time.Sleep(5 * d)
			bub.Wait()
			if r := x.verdict(st); r != "" {
				c.Violate("requests and replies do not correspond", "operations take %v: %s", d, r)
			}
		} else {
			for _, s := range st {
				x.expect(s)
				if mode == 2 {
					time.Sleep(d)
				}
				x.conn.Feed(s.raw)
				if mode == 0 {
					time.Sleep(d + 1)
				}
				bub.Wait()
				if r := x.verdict([]step{s}); r != "" {
					c.Violate("requests and replies do not correspond", "waiting %v, mode %d: %s", d, mode, r)
					break
				}
			}
		}
		if x.conn.Closed() && !c.Violated() {
			c.Violate("the server closed the connection", "waiting %v, mode %d", d, mode)
		}
		c.Distinct("nontrivial", fmt.Sprint("waiting ", d, t, mode))
		x.finish()
	})
}

func conversation(c *kit.Ctx, st []step, pipelined bool) {
	bub.Run(c.T, func() {
		w := newWorld(c)
		x := w.connect("a")
		all := append([]step{version(0xffff)}, st...)
		if pipelined {
			if r := x.exchange(all, true); r != "" {
				c.Violate("requests and replies do not correspond", "pipelined: %s", r)
			}
		} else if r := x.exchange(all, false); r != "" {
			c.Violate("requests and replies do not correspond", "%s", r)
		}
		c.Count("requests", len(all))
		if x.conn.Closed() && !c.Violated() {
			c.Violate("the server closed the connection", "after %d well-framed requests", len(all))
		}
		// still usable
		m, r := Rep(wire.Tclunk, 0x4321, 9)
		if !c.Violated() {
			if r := x.exchange([]step{good(m, r, nil)}, false); r != "" {
				c.Violate("connection not usable any more", "%s", r)
			}
		}
		x.finish()
	})
	if len(st) > 1 {
		c.Distinct("nontrivial", fmt.Sprint(st, pipelined))
	}
}

func cut(b []byte, at ...int) [][]byte {
	var r [][]byte
	last := 0
	for _, a := range at {
		r = append(r, b[last:a])
		last = a
	}
	return append(r, b[last:])
}

// stream is a conversation for segmentation and fault enumeration.
type stream struct {
	name string
	st   []step
}

func streams() []stream {
	g := func(t uint8, tag uint16, v int) step { m, r := Rep(t, tag, v); return good(m, r, nil) }
	e := func(t uint8, tag uint16, v int) step { m, r := Rep(t, tag, v); return good(m, r, errs[0]) }
	var all []step
	for i, t := range TTypes {
		all = append(all, g(t, uint16(100+i), i))
	}
	big, br := Rep(wire.Twrite, 5, 0)
	big.F[2] = codec.Pat(700, 1)
	return []stream{
		{"flush-clunk", []step{g(wire.Tflush, 1, 0), g(wire.Tclunk, 2, 1)}},
		{"walk-open-read", []step{g(wire.Twalk, 1, 0), g(wire.Topen, 2, 0), g(wire.Tread, 3, 1)}},
		{"refused", []step{refused(wire.Tauth, 3, codec.Pat(9, 0)), refused(wire.Twalk, 4, []byte{1, 2}), e(wire.Tstat, 5, 0), g(wire.Tclunk, 6, 0)}},
		{"write", []step{good(big, br, nil), g(wire.Twstat, 6, 0), g(wire.Tremove, 7, 0)}},
		{"all", all},
	}
}

// C04: segmentation.
func C04(c *kit.Ctx) {
	idx := 0
	// One connection per block of segmentations; after each the result is compared.
	empties := false
	runBlock := func(key string, st []step, vs step, gen func(yield func(at []int) bool)) {
		var raw []byte
		for _, s := range st {
			raw = append(raw, s.raw...)
		}
		bub.Run(c.T, func() {
			w := newWorld(c)
			x := w.connect("a")
			if r := x.exchange([]step{vs}, false); r != "" {
				c.Violate("version exchange failed", "%s", r)
				return
			}
			x.conn.Empties = empties
			gen(func(at []int) bool {
				x.todo, x.ops = nil, 0
				x.expect(st...)
				x.conn.Feed(cut(raw, at...)...)
				bub.Wait()
				c.Eval(1)
				c.Count("segments", len(at)+1)
				if len(at) > 0 {
					c.Distinct("nontrivial", fmt.Sprint(key, at))
				}
				if r := x.verdict(st); r != "" {
					c.Violate("segmentation changes the behaviour", "stream cut at %v: %s", at, r)
					return false
				}
				return true
			})
			x.finish()
		})
	}
	// The same with a pause after each segment: what was received by then is
	// answered, whatever part of a further request came with it.
	runPauses := func(key string, st []step, vs step, gen func(yield func(at []int) bool)) {
		var raw []byte
		var ends []int
		for _, s := range st {
			raw = append(raw, s.raw...)
			ends = append(ends, len(raw))
		}
		bub.Run(c.T, func() {
			w := newWorld(c)
			x := w.connect("a")
			if r := x.exchange([]step{vs}, false); r != "" {
				c.Violate("version exchange failed", "%s", r)
				return
			}
			gen(func(at []int) bool {
				x.todo, x.ops = nil, 0
				c.Eval(1)
				c.Count("segments", len(at)+1)
				k, pos := 0, 0
				for _, seg := range cut(raw, at...) {
					pos += len(seg)
					k0 := k
					for k < len(st) && ends[k] <= pos {
						k++
					}
					x.expect(st[k0:k]...)
					if pos > len(seg) {
						time.Sleep(time.Hour)
					}
					x.conn.Feed(seg)
					bub.Wait()
					if r := x.verdict(st[k0:k]); r != "" {
						c.Violate("segmentation changes the behaviour", "stream cut at %v with pauses, %d bytes delivered: %s", at, pos, r)
						return false
					}
				}
				c.Distinct("nontrivial", fmt.Sprint(key, at))
				return true
			})
			x.finish()
		})
	}
	v := version(0xffff)
	// all compositions of a short stream, in blocks
	ss := streams()
	f1, r1 := Rep(wire.Tflush, 1, 0)
	f2, r2 := Rep(wire.Tflush, 2, 1)
	short := stream{"flush-flush", []step{good(f1, r1, nil), good(f2, r2, nil)}} // 18 bytes
	comp := []stream{short, ss[0]}                                               // 18 and 20 bytes
	if c.Thorough() {
		k1, _ := Rep(wire.Tclunk, 3, 3)
		k2, _ := Rep(wire.Tremove, 4, 4)
		comp = append(comp, stream{"clunk-remove", []step{good(k1, nil, nil), good(k2, nil, errs[0])}}) // 22 bytes
	}
	for _, s := range comp {
		n := 0
		for _, x := range s.st {
			n += len(x.raw)
		}
		const blk = 1 << 10
		for lo := 0; lo < 1<<(n-1); lo += blk {
			idx++
			key := fmt.Sprintf("all cuts of %s from %d", s.name, lo)
			if !c.Case(idx, key) {
				continue
			}
			runBlock(key, s.st, v, func(yield func([]int) bool) {
				for m := lo; m < lo+blk; m++ {
					var at []int
					for i := 0; i < n-1; i++ {
						if m>>i&1 == 1 {
							at = append(at, i+1)
						}
					}
					if !yield(at) {
						return
					}
				}
			})
			if c.Violated() {
				return
			}
		}
	}
	// one, two (three) cuts, and regular chunks, of the longer streams
	for si, s := range ss {
		n := 0
		for _, x := range s.st {
			n += len(x.raw)
		}
		for a := 0; a < n; a++ {
			idx++
			key := fmt.Sprintf("cuts of %s, first at %d", s.name, a)
			if !c.Case(idx, key) {
				continue
			}
			runBlock(key, s.st, v, func(yield func([]int) bool) {
				if a == 0 {
					yield(nil)
					for k := 1; k <= 64 && k < n; k++ {
						var at []int
						for i := k; i < n; i += k {
							at = append(at, i)
						}
						if !yield(at) {
							return
						}
					}
					return
				}
				if !yield([]int{a}) {
					return
				}
				for b := a + 1; b < n; b++ {
					if !yield([]int{a, b}) {
						return
					}
					if si < 2 || si == 2 && c.Thorough() {
						for d := b + 1; d < n; d++ {
							if !yield([]int{a, b, d}) {
								return
							}
						}
					}
				}
			})
			if c.Violated() {
				return
			}
		}
	}
	// reads that return nothing, before every piece
	for _, s := range ss {
		n := 0
		for _, x := range s.st {
			n += len(x.raw)
		}
		idx++
		key := "empty reads in " + s.name
		if !c.Case(idx, key) {
			continue
		}
		empties = true
		runBlock(key, s.st, v, func(yield func([]int) bool) {
			for a := 1; a < n; a++ {
				if !yield([]int{a}) {
					return
				}
			}
			for k := 1; k <= 64 && k < n; k++ {
				var at []int
				for i := k; i < n; i += k {
					at = append(at, i)
				}
				if !yield(at) {
					return
				}
			}
		})
		empties = false
		if c.Violated() {
			return
		}
	}
	for si, s := range ss {
		n := 0
		for _, x := range s.st {
			n += len(x.raw)
		}
		for a := 0; a < n; a++ {
			idx++
			key := fmt.Sprintf("pauses in %s, first at %d", s.name, a)
			if !c.Case(idx, key) {
				continue
			}
			runPauses(key, s.st, v, func(yield func([]int) bool) {
				if a == 0 {
					for k := 1; k <= 64 && k < n; k++ {
						var at []int
						for i := k; i < n; i += k {
							at = append(at, i)
						}
						if !yield(at) {
							return
						}
					}
					return
				}
				if !yield([]int{a}) {
					return
				}
				for b := a + 1; b < n; b++ {
					if (si < 4 || c.Thorough() || b-a < 8) && !yield([]int{a, b}) {
						return
					}
				}
			})
			if c.Violated() {
				return
			}
		}
	}
	// the version request itself in pieces, merged with what follows, and the end
	// of the connection arriving with the last bytes; a fresh connection each
	for _, s := range ss[:4] {
		full := append([]step{v}, s.st...)
		var raw []byte
		for _, x := range full {
			raw = append(raw, x.raw...)
		}
		for a := 0; a < len(raw); a++ {
			for end := 0; end < 3; end++ {
				idx++
				if !c.Case(idx, fmt.Sprintf("fresh %s cut at %d end%d", s.name, a, end)) {
					continue
				}
				bub.Run(c.T, func() {
					w := newWorld(c)
					x := w.connect("a")
					k, pos := 0, 0
					for k < len(full) && pos+len(full[k].raw) <= a {
						pos += len(full[k].raw)
						k++
					}
					x.expect(full[:k]...)
					x.conn.Feed(raw[:a])
					bub.Wait()
					if r := x.verdict(full[:k]); r != "" {
						c.Violate("segmentation changes the behaviour", "stream cut at %d, first part: %s", a, r)
					}
					x.expect(full[k:]...)
					if end == 0 {
						x.conn.Feed(raw[a:])
					} else {
						x.conn.FeedEnd(io.EOF, end == 1, raw[a:])
					}
					bub.Wait()
					c.Eval(1)
					if r := x.verdict(full[k:]); r != "" && !c.Violated() {
						c.Violate("segmentation changes the behaviour", "stream cut at %d, end %d: %s", a, end, r)
					}
					x.finish()
				})
				if c.Violated() {
					return
				}
			}
		}
	}
}
