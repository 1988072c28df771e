package srv

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"ninepverif/api"
	"ninepverif/bub"
	"ninepverif/codec"
	"ninepverif/kit"
	"ninepverif/mnet"
	"ninepverif/wire"

	"github.com/Harvey-OS/ninep/pkg/debugfs"
)

// malformed gives request bodies (after the tag) of a type that do not decode.
func malformed(t uint8) [][]byte {
	m, _ := Rep(t, 1, 0)
	return Damage(t, wire.Encode(m)[7:])
}

// Damage gives bodies like the given one that do not decode.
func Damage(t uint8, body []byte) [][]byte {
	var r [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if _, err := wire.DecodeBody(t, append([]byte{1, 0}, b...)); err != nil && !seen[string(b)] {
			seen[string(b)] = true
			r = append(r, append([]byte{}, b...))
		}
	}
	for n := 0; n < len(body); n++ {
		add(body[:n])
	}
	for _, tr := range [][]byte{{0}, {0xff}, {0, 0}, codec.Pat(13, 2)} {
		add(append(append([]byte{}, body...), tr...))
	}
	for i := 0; i+2 <= len(body); i++ {
		for _, v := range []int{0, 1, 2, 0x7fff, 0xffff} {
			x := append([]byte{}, body...)
			x[i], x[i+1] = byte(v), byte(v>>8)
			add(x)
		}
		if i+4 <= len(body) {
			for _, v := range []uint64{0x7fffffff, 0x80000000, 0xffffffff, uint64(len(body))} {
				x := append([]byte{}, body...)
				copy(x[i:], wire.Int(nil, v, 4))
				add(x)
			}
		}
	}
	return r
}

// C05: incomplete and malformed requests.
func C05(c *kit.Ctx) {
	idx := 0
	v := version(0xffff)
	// A second connection of the same listener is alive before and after.
	bystander := func(w *world) (*peer, bool) {
		y := w.connect("b")
		m, r := Rep(wire.Tattach, 3, 1)
		if r := y.exchange([]step{version(1), good(m, r, nil)}, false); r != "" {
			c.Violate("another connection does not work", "%s", r)
			return y, false
		}
		return y, true
	}
	stillFine := func(y *peer, what string) {
		if c.Violated() {
			return
		}
		m, r := Rep(wire.Tread, 3, 2)
		if r := y.exchange([]step{good(m, r, nil)}, false); r != "" || y.conn.Closed() {
			c.Violate("another connection noticed", "%s: %s closed=%v", what, r, y.conn.Closed())
			return
		}
		y.finish()
	}
	// the stream ends at every byte, in every way
	for _, s := range streams() {
		full := append([]step{v}, s.st...)
		var raw []byte
		var ends []int
		for _, x := range full {
			raw = append(raw, x.raw...)
			ends = append(ends, len(raw))
		}
		for n := 0; n <= len(raw); n++ {
			for kind := 0; kind < 5; kind++ {
				idx++
				if !c.Case(idx, fmt.Sprintf("%s ends after %d bytes, kind %d", s.name, n, kind)) {
					continue
				}
				done := 0
				for done < len(ends) && ends[done] <= n {
					done++
				}
				c.Eval(1)
				bub.Run(c.T, func() {
					w := newWorld(c)
					y, ok := bystander(w)
					if !ok {
						return
					}
					x := w.connect("a")
					x.expect(full[:done]...)
					switch kind {
					case 0: // end of file
						x.conn.FeedEnd(io.EOF, false, raw[:n])
					case 1: // failure
						x.conn.FeedEnd(mnet.ErrReset, false, raw[:n])
					case 2: // with the last bytes
						x.conn.FeedEnd(io.EOF, true, raw[:n])
					case 3:
						x.conn.FeedEnd(mnet.ErrReset, true, raw[:n])
					case 4: // later, byte by byte
						for i := 0; i < n; i++ {
							x.conn.Feed(raw[i : i+1])
						}
						bub.Wait()
						x.conn.End(io.ErrUnexpectedEOF, false)
					}
					bub.Wait()
					if kind != 3 {
						if r := x.verdict(full[:done]); r != "" {
							c.Violate("an incomplete request had an effect, or a complete one had none", "%s", r)
						}
					} else {
						// the failure is reported with the last bytes: whether they count is the
						// transport's ambiguity; nothing incomplete may be executed
						if x.wrong != "" || x.ops > len(x.todo) {
							c.Violate("an incomplete request had an effect", "%s", x.wrong)
						}
					}
					if !c.Violated() && !x.conn.Closed() {
						c.Violate("the server did not close its side", "after %d bytes", n)
					}
					stillFine(y, fmt.Sprintf("when the first ended after %d bytes", n))
				})
				if done < len(ends) {
					c.Distinct("nontrivial", fmt.Sprint(s.name, n, kind))
				}
				if c.Violated() {
					return
				}
			}
		}
		// writing fails at every byte
		total := 0
		for _, x := range full {
			if x.want != nil {
				total += len(x.want)
			} else {
				total += 20
			}
		}
		for n := 0; n < total; n++ {
			if n > 300 && n%17 != 0 && !c.Thorough() {
				continue
			}
			idx++
			if !c.Case(idx, fmt.Sprintf("%s writing fails after %d bytes", s.name, n)) {
				continue
			}
			c.Eval(1)
			bub.Run(c.T, func() {
				w := newWorld(c)
				y, ok := bystander(w)
				if !ok {
					return
				}
				x := w.connect("a")
				x.expect(full...)
				x.conn.LimitWrites(n)
				for i := range full {
					x.conn.Feed(full[i].raw)
					bub.Wait()
				}
				if x.wrong != "" {
					c.Violate("wrong operation after a write failure", "%s", x.wrong)
				} else if !x.conn.Closed() {
					// the stream goes on after the failed reply; it must end with the peer
					x.conn.End(io.EOF, false)
					bub.Wait()
					if !x.conn.Closed() {
						c.Violate("the server did not close its side", "writing failed after %d bytes", n)
					}
				}
				stillFine(y, fmt.Sprintf("when writing to the first failed after %d bytes", n))
			})
			c.Distinct("nontrivial", fmt.Sprint(s.name, "w", n))
			if c.Violated() {
				return
			}
		}
	}
	// malformed bodies, in a well-framed message
	for _, t := range TTypes {
		bodies := malformed(t)
		const blk = 40
		for lo := 0; lo < len(bodies); lo += blk {
			idx++
			if !c.Case(idx, fmt.Sprintf("malformed %s from %d", wire.ByType(t).Name, lo)) {
				continue
			}
			bub.Run(c.T, func() {
				w := newWorld(c)
				y, ok := bystander(w)
				if !ok {
					return
				}
				x := w.connect("a")
				if r := x.exchange([]step{v}, false); r != "" {
					c.Violate("version exchange failed", "%s", r)
					return
				}
				for i := lo; i < lo+blk && i < len(bodies) && !c.Violated(); i++ {
					tag := codec.Tags[i%len(codec.Tags)]
					m, res := Rep(wire.Tclunk, 17, i)
					st := []step{refused(t, tag, bodies[i]), good(m, res, nil)}
					c.Eval(1)
					c.Distinct("nontrivial", fmt.Sprint(t, bodies[i]))
					if r := x.exchange(st, i%2 == 0); r != "" {
						c.Violate("a malformed request was not refused cleanly", "%s", r)
					}
				}
				x.finish()
				stillFine(y, "after malformed requests")
			})
			if c.Violated() {
				return
			}
		}
	}
	// sizes smaller than a header; sizes far larger than what follows
	for _, sz := range []uint32{0, 1, 2, 3, 4, 5, 6, 0x7fffffff, 0x80000000, 0x80000006, 0xfffffff9, 0xffffffff, 1 << 20} {
		for _, t := range []uint8{wire.Tversion, wire.Tclunk, wire.Twrite, 0, 255} {
			for pre := 0; pre < 2; pre++ {
				for tail := 0; tail < 3; tail++ {
					idx++
					if !c.Case(idx, fmt.Sprintf("size %d type %d versioned %d tail %d", sz, t, pre, tail)) {
						continue
					}
					c.Eval(1)
					bub.Run(c.T, func() {
						w := newWorld(c)
						y, ok := bystander(w)
						if !ok {
							return
						}
						x := w.connect("a")
						if pre == 1 {
							if r := x.exchange([]step{v}, false); r != "" {
								c.Violate("version exchange failed", "%s", r)
								return
							}
						}
						b := append(wire.Int(nil, uint64(sz), 4), t, 9, 0)
						m, _ := Rep(wire.Tclunk, 5, 0)
						switch tail {
						case 1:
							b = append(b, wire.Encode(m)...)
						case 2:
							b = append(b, bytes.Repeat(wire.Encode(m), 20)...)
						}
						if sz < 7 {
							// ends at once, without the peer ending it
							x.conn.Feed(b)
							bub.Wait()
							if !x.conn.Closed() {
								c.Violate("a message with an impossible size did not end the connection", "size %d", sz)
							}
						} else {
							x.conn.FeedEnd(io.EOF, false, b)
							bub.Wait()
							if !x.conn.Closed() {
								c.Violate("the server did not close its side", "size %d", sz)
							}
							if o := x.conn.Take(); len(o) != 0 && !c.Violated() {
								c.Violate("an incomplete request was answered", "size %d: % x", sz, clip(o))
							}
						}
						if !c.Violated() && (x.wrong != "" || x.ops != len(x.todo)) {
							c.Violate("an incomplete or impossible request was executed", "size %d: %s", sz, x.wrong)
						}
						c.Distinct("nontrivial", fmt.Sprint("size", sz, t, pre, tail))
						stillFine(y, "after an impossible size")
					})
					if c.Violated() {
						return
					}
				}
			}
		}
	}
	// complete requests that claim to be longer than they are
	for _, t := range TTypes {
		m, _ := Rep(t, 9, 0)
		raw := wire.Encode(m)
		sizes := map[uint32]bool{}
		var order []uint32
		for bit := 0; bit < 32; bit++ {
			for _, sz := range []uint32{uint32(len(raw)) | 1<<bit, uint32(len(raw)) + 1<<bit} {
				if sz > uint32(len(raw)) && !sizes[sz] {
					sizes[sz] = true
					order = append(order, sz)
				}
			}
		}
		for _, sz := range order {
			for kind := 0; kind < 2; kind++ {
				idx++
				if !c.Case(idx, fmt.Sprintf("%s of %d bytes claims %d, end %d", wire.ByType(t).Name, len(raw), sz, kind)) {
					continue
				}
				c.Eval(1)
				c.Distinct("nontrivial", fmt.Sprint("claims", t, sz, kind))
				bub.Run(c.T, func() {
					w := newWorld(c)
					y, ok := bystander(w)
					if !ok {
						return
					}
					x := w.connect("a")
					if r := x.exchange([]step{v}, false); r != "" {
						c.Violate("version exchange failed", "%s", r)
						return
					}
					b := append([]byte{}, raw...)
					copy(b, wire.Int(nil, uint64(sz), 4))
					x.conn.Feed(b)
					bub.Wait()
					x.conn.End([]error{io.EOF, mnet.ErrReset}[kind], false)
					bub.Wait()
					if r := x.verdict(nil); r != "" {
						c.Violate("an incomplete request had an effect", "%s of %d bytes that claims to have %d: %s", wire.ByType(t).Name, len(raw), sz, r)
					} else if !x.conn.Closed() {
						c.Violate("the server did not close its side", "size %d", sz)
					}
					stillFine(y, "after an incomplete request")
				})
				if c.Violated() {
					return
				}
			}
		}
	}
	largeEnds(c, v, bystander, stillFine)
}

// largeEnds ends the stream in the middle of large requests.
func largeEnds(c *kit.Ctx, v step, bystander func(*world) (*peer, bool), stillFine func(*peer, string)) {
	idx := 0
	lens := []int{600, 3000, 10000, 1<<20 + 1<<19, 3<<20 + 24}
	for k := 9; k <= 21; k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1, 1<<k+24)
	}
	for _, n := range lens {
		lack := []int{1, 2, 3, 4, 7, 8, 10, 16, 23, 24, 30, 100, 256, 511, 512, 513, 1000, 1024, 2048, 4095, 4096, 4097, 5000, 8192, 10000, 32767, 32768, 65535, 65536, 65537, 1 << 20, n / 2, n/2 + 1, n - 7, n - 8, n - 23, n - 24, n - 30}
		for di, d := range lack {
			if d >= n-4 || d <= 0 {
				continue
			}
			for kind := 0; kind < 4; kind++ {
				if kind > 1 && n > 1<<17 && !c.Thorough() {
					continue
				}
				idx++
				if !c.Case(idx, fmt.Sprintf("request of %d bytes lacks %d (%d), kind %d", n, d, di, kind)) {
					continue
				}
				c.Eval(1)
				c.Distinct("nontrivial", fmt.Sprint("large", n, d, kind))
				bub.Run(c.T, func() {
					w := newWorld(c)
					y, ok := bystander(w)
					if !ok {
						return
					}
					x := w.connect("a")
					if r := x.exchange([]step{v}, false); r != "" {
						c.Violate("version exchange failed", "%s", r)
						return
					}
					// a write, then one that lacks bytes
					var st []step
					if kind == 3 {
						m, r := Rep(wire.Twrite, 8, 1)
						st = append(st, good(m, r, nil))
					}
					b := wire.Encode(wire.M(wire.Twrite, 9, uint32(3), uint64(5), codec.Pat(n-23, 1)))
					x.expect(st...)
					for _, s := range st {
						x.conn.Feed(s.raw)
					}
					b = b[:n-d]
					switch kind {
					case 0, 3:
						x.conn.FeedEnd(io.EOF, false, b)
					case 1:
						x.conn.FeedEnd(io.EOF, true, b)
					case 2: // in pieces
						for len(b) > 4000 {
							x.conn.Feed(b[:4000])
							b = b[4000:]
						}
						x.conn.Feed(b)
						bub.Wait()
						x.conn.End(mnet.ErrReset, false)
					}
					bub.Wait()
					if r := x.verdict(st); r != "" {
						c.Violate("an incomplete request had an effect", "a request of %d bytes that lacks %d: %s", n, d, r)
					} else if !x.conn.Closed() {
						c.Violate("the server did not close its side", "request of %d bytes that lacks %d", n, d)
					}
					stillFine(y, "after an incomplete large request")
				})
				if c.Violated() {
					return
				}
			}
		}
	}
}

// C06: the version gate.
func C06(c *kit.Ctx) {
	idx := 0
	v := version(0xffff)
	// a request before version negotiation: every type, several bodies
	early := func(t uint8, k int) step {
		if isT(t) {
			switch k {
			case 0:
				m, _ := Rep(t, 0x0102, 1)
				return step{raw: wire.Encode(m), tag: m.Tag}
			case 1:
				m, _ := Rep(t, 0xffff, 2)
				return step{raw: wire.Encode(m), tag: m.Tag}
			}
		}
		return refused(t, uint16(0x0304+k), codec.Pat(max(k-2, 0)*4, k))
	}
	after := func(tag uint16, t uint8) step { m, r := Rep(t, tag, 3); return good(m, r, nil) }
	run := func(key string, st []step, pipelined bool) {
		idx++
		if !c.Case(idx, key) {
			return
		}
		bub.Run(c.T, func() {
			w := newWorld(c)
			x := w.connect("a")
			all := append(append([]step{}, st...), v)
			for i, t := range TTypes {
				all = append(all, after(uint16(i), t))
			}
			if r := x.exchange(all, pipelined); r != "" {
				c.Violate("the version gate does not work", "%d requests before the version request: %s", len(st), r)
			}
			if !c.Violated() && x.conn.Closed() {
				c.Violate("the connection did not stay usable", "")
			}
			x.finish()
		})
		if len(st) > 0 {
			c.Distinct("nontrivial", key)
		}
	}
	run("no early request", nil, false)
	for t := 0; t < 256; t++ {
		if t == wire.Tversion {
			continue
		}
		for k := 0; k < 5; k++ {
			if k < 2 && !isT(uint8(t)) {
				continue
			}
			for mode := 0; mode < 2; mode++ {
				run(fmt.Sprintf("early type %d body %d mode %d", t, k, mode), []step{early(uint8(t), k)}, mode == 1)
				if c.Violated() {
					return
				}
			}
		}
	}
	// sequences of early requests
	alpha := append([]uint8{}, TTypes[1:]...)
	alpha = append(alpha, wire.Rversion, wire.Tauth, 0, 255)
	depth := 3
	if c.Thorough() {
		depth = 4
	}
	var rec func(pre []uint8)
	rec = func(pre []uint8) {
		if len(pre) > 1 {
			var st []step
			for i, t := range pre {
				st = append(st, early(t, (i+len(pre))%4))
			}
			run(fmt.Sprintf("early %v", pre), st, len(pre)%2 == 1)
		}
		if len(pre) < depth && !c.Done() {
			for _, t := range alpha {
				rec(append(append([]uint8{}, pre...), t))
			}
		}
	}
	rec(nil)
	if c.Violated() {
		return
	}
	// The first version request is one the file server refuses: it has been received
	// all the same, and so requests are dispatched from then on, and a second one works.
	for _, t := range TTypes {
		for e := 0; e < 2; e++ {
			for k := 0; k < 3; k++ {
				idx++
				key := fmt.Sprintf("version refused %d, then %d mode %d", e, t, k)
				if !c.Case(idx, key) {
					continue
				}
				bub.Run(c.T, func() {
					x := newWorld(c).connect("a")
					m, _ := Rep(wire.Tversion, 5, e)
					st := []step{good(m, nil, errs[e]), after(7, t), after(8, wire.Tclunk), v, after(9, t)}
					if k == 2 {
						st = append([]step{early(wire.Twalk, 0)}, st...)
					}
					if r := x.exchange(st, k == 1); r != "" {
						c.Violate("the version gate does not work", "%s: %s", key, r)
					}
					x.finish()
				})
				c.Distinct("nontrivial", key)
				if c.Violated() {
					return
				}
			}
		}
	}
	// Connections one after the other, the earlier ones negotiated or not, open or
	// ended; from the same address or another.
	ways := []string{"early", "version", "version, end", "early, end", "version, walk, reset", "version refused", "malformed version"}
	for d := 1; d <= 2; d++ {
		for comb := 0; comb < len(ways)*len(ways); comb++ {
			if d == 1 && comb >= len(ways) {
				break
			}
			for same := 0; same < 2; same++ {
				for _, t := range append([]uint8{wire.Tauth, 0}, TTypes[1:]...) {
					idx++
					key := fmt.Sprintf("after %d connections %d same=%d, early %d", d, comb, same, t)
					if !c.Case(idx, key) {
						continue
					}
					bub.Run(c.T, func() {
						w := newWorld(c)
						var open []*peer
						for i, k := 0, comb; i <= d && !c.Violated(); i, k = i+1, k/len(ways) {
							name := "a"
							if same == 0 {
								name += fmt.Sprint(i)
							}
							x := w.connect(name)
							st := []step{early(t, 0)}
							if i < d {
								way := ways[k%len(ways)]
								switch way {
								case "version", "version, end":
									st = []step{v}
								case "version, walk, reset":
									st = []step{v, after(3, wire.Twalk)}
								case "version refused":
									m, _ := Rep(wire.Tversion, 5, 0)
									st = []step{good(m, nil, errs[0])}
								case "malformed version":
									st = []step{refused(wire.Tversion, 6, []byte{1})}
								}
								if r := x.exchange(st, false); r != "" {
									c.Violate("the version gate does not work", "connection %d (%s): %s", i, way, r)
								}
								switch way {
								case "version, end", "early, end":
									x.finish()
								case "version, walk, reset":
									x.conn.End(mnet.ErrReset, false)
									bub.Wait()
									x.conn.Close()
								default:
									open = append(open, x)
								}
								continue
							}
							st = append(st, v, after(7, wire.Twalk))
							if r := x.exchange(st, false); r != "" {
								c.Violate("the version gate does not work after other connections", "%s: %s", key, r)
							}
							open = append(open, x)
						}
						for _, x := range open {
							x.finish()
						}
					})
					c.Distinct("nontrivial", key)
					if c.Violated() {
						return
					}
				}
			}
		}
	}
	// Two connections a and b: all interleavings of their scripts; early requests on one
	// while the other is or becomes versioned.
	type act struct {
		who  int
		st   step
		name string
	}
	scripts := [2][]act{}
	for who := 0; who < 2; who++ {
		scripts[who] = []act{
			{who, early(wire.Tattach, 0), "early"},
			{who, v, "version"},
			{who, after(7, wire.Twalk), "walk"},
			{who, after(8, wire.Tversion), "version again"},
			{who, after(9, wire.Tclunk), "clunk"},
		}
	}
	n := len(scripts[0])
	var il func(i, j int, pre []act)
	il = func(i, j int, pre []act) {
		if c.Done() {
			return
		}
		if i == n && j == n {
			idx++
			key := "interleaving"
			for _, a := range pre {
				key += fmt.Sprintf(" %c:%s", 'a'+a.who, a.name)
			}
			if !c.Case(idx, key) {
				return
			}
			bub.Run(c.T, func() {
				w := newWorld(c)
				x := []*peer{w.connect("a"), w.connect("b")}
				for _, a := range pre {
					if r := x[a.who].exchange([]step{a.st}, false); r != "" {
						c.Violate("the version gate does not work with two connections", "%c %s: %s", 'a'+a.who, a.name, r)
						break
					}
				}
				x[0].finish()
				x[1].finish()
			})
			c.Distinct("nontrivial", key)
			return
		}
		if i < n {
			il(i+1, j, append(append([]act{}, pre...), scripts[0][i]))
		}
		if j < n {
			il(i, j+1, append(append([]act{}, pre...), scripts[1][j]))
		}
	}
	il(0, 0, nil)
}

// C23: the debugging wrapper, called directly and behind a listener.
func C23(c *kit.Ctx) {
	idx := 0
	var calls []wire.Msg
	var res []any
	var rerr error
	inner := api.Mock{H: func(m wire.Msg) ([]any, error) {
		for i := range m.F {
			if b, ok := m.F[i].([]byte); ok {
				m.F[i] = append([]byte{}, b...)
			}
		}
		calls = append(calls, m)
		return res, rerr
	}}
	d := &debugfs.DebugFileServer{FileServer: inner}
	one := func(m wire.Msg, r []any, err error) {
		idx++
		if !c.Case(idx, fmt.Sprintf("call %d %s", idx, wire.ByType(m.Type).Name)) {
			return
		}
		calls, res, rerr = nil, r, err
		arg := wire.Encode(m)
		sent := wire.Msg{Type: m.Type}
		for _, f := range m.F {
			if b, ok := f.([]byte); ok {
				f = append([]byte{}, b...)
			}
			sent.F = append(sent.F, f)
		}
		var got []any
		var gerr error
		if perr := api.Catch(func() { got, gerr = api.Ops(d, sent) }); perr != nil {
			c.Violate("the wrapper panics", "%v with result %v %v: %v", m, short(r), err, perr)
			return
		}
		want := r
		if r == nil && len(wire.ByType(m.Type+1).Fields) > 0 {
			want = zero(m.Type + 1)
		}
		switch {
		case len(calls) != 1:
			c.Violate("not forwarded exactly once", "%v: %d calls", m, len(calls))
		case calls[0].Type != m.Type || !api.Equal(calls[0].F, m.F):
			c.Violate("forwarded with other arguments", "%v became %v", m, calls[0])
		case !bytes.Equal(wire.Encode(wire.Msg{Type: m.Type, Tag: m.Tag, F: sent.F}), arg):
			c.Violate("the caller's arguments were changed", "%v", m)
		case gerr != err:
			c.Violate("another error came back", "%v: %v became %v", m, err, gerr)
		case !api.Equal(got, want):
			c.Violate("other results came back", "%v (error %v): %s became %s", m, err, short(want), short(got))
		}
		if len(m.F) > 0 {
			c.Distinct("nontrivial", fmt.Sprint(string(arg), short(r), err))
		}
	}
	outcomes := append([]error{nil}, errs...)
	stats := [][]byte{{}, {1}, {0, 0}, codec.Pat(40, 1), codec.Pat(200, 2), bytes.Repeat([]byte{0xff}, 300), bytes.Repeat([]byte{0}, 48), wire.EncodeDir(wire.DontTouch()),
		wire.EncodeDir(wire.Dir{Name: "x", Uid: "y"})[:45], append(wire.EncodeDir(wire.Dir{Name: "x"}), 1, 2, 3)}
	for _, t := range TTypes {
		spec, rspec := wire.ByType(t), wire.ByType(t+1)
		for _, e := range Sentinels {
			m, r := Rep(t, 0, 1)
			one(m, r, e)
			one(m, nil, e)
		}
		for _, e := range outcomes {
			m, r := Rep(t, 0, 1)
			one(m, r, e)
			if e != nil {
				one(m, nil, e)
			}
			for fi, f := range spec.Fields {
				vals := codec.Values(f.Kind, fi, true)
				if t == wire.Twstat && fi == 1 {
					for _, s := range stats {
						vals = append(vals, s)
					}
				}
				for _, v := range vals {
					m, r := Rep(t, 0, 1)
					m.F[fi] = v
					one(m, r, e)
					if c.Violated() {
						return
					}
				}
			}
			for fi, f := range rspec.Fields {
				vals := codec.Values(f.Kind, fi, true)
				if t == wire.Tstat {
					for _, s := range stats {
						vals = append(vals, s)
					}
				}
				for _, v := range vals {
					m, r := Rep(t, 0, 1)
					r = append([]any{}, r...)
					r[fi] = v
					one(m, r, e)
					if c.Violated() {
						return
					}
				}
			}
		}
	}
	// stateful file server behind it: all sequences of two operations give the same
	// trace with and without the wrapper
	for _, a := range TTypes {
		for _, b := range TTypes {
			for k := 0; k < 4; k++ {
				idx++
				if !c.Case(idx, fmt.Sprintf("pair %d %d outcomes %d", a, b, k)) {
					continue
				}
				tr := func(wrapped bool) string {
					var log string
					n := 0
					inner := api.Mock{H: func(m wire.Msg) ([]any, error) {
						n++
						log += fmt.Sprintf("%d %v;", n, m)
						_, r := Rep(m.Type, 0, n)
						if k>>(n-1)&1 == 1 {
							return r, errors.New(fmt.Sprint("error ", n))
						}
						return r, nil
					}}
					for i, t := range []uint8{a, b} {
						m, _ := Rep(t, 0, i+3)
						var got []any
						var err error
						if wrapped {
							got, err = api.Ops(&debugfs.DebugFileServer{FileServer: inner}, m)
						} else {
							got, err = api.Ops(inner, m)
						}
						log += fmt.Sprintf("-> %v %v;", got, err)
					}
					return log
				}
				if x, y := tr(false), tr(true); x != y {
					c.Violate("the wrapper changes the trace", "%s became %s", x, y)
				}
				c.Distinct("nontrivial", fmt.Sprint(a, b, k))
			}
		}
	}
}

func zero(t uint8) []any {
	var r []any
	for _, f := range wire.ByType(t).Fields {
		switch f.Kind {
		case wire.U8:
			r = append(r, uint8(0))
		case wire.U16:
			r = append(r, uint16(0))
		case wire.U32:
			r = append(r, uint32(0))
		case wire.U64:
			r = append(r, uint64(0))
		case wire.Str:
			r = append(r, "")
		case wire.QID:
			r = append(r, wire.Qid{})
		case wire.Qids:
			r = append(r, []wire.Qid{})
		default:
			r = append(r, []byte{})
		}
	}
	return r
}

func short(x any) string {
	s := fmt.Sprint(x)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}
