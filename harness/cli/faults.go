package cli

import (
	"fmt"
	"io"

	"ninepverif/kit"
	"ninepverif/sched"
	"ninepverif/srv"
	"ninepverif/wire"
	"ninepverif/xplore"
)

// small calls, so that every byte position can be tried.
func small(k int) call {
	f := uint32(0x100 + k)
	switch k % 4 {
	case 0:
		return call{m: wire.M(wire.Tclunk, 0, f)}
	case 1:
		return call{m: wire.M(wire.Tread, 0, f, uint64(k), uint32(8)), res: []any{[]byte{1, byte(k)}}}
	case 2:
		return call{m: wire.M(wire.Twalk, 0, f, f+1, []string{"a"}), res: []any{[]wire.Qid{{Type: 1, Vers: 2, Path: uint64(k)}}}}
	}
	return call{m: wire.M(wire.Tstat, 0, f), res: []any{[]byte{byte(k), 9}}}
}

func smalls(n ...int) (l [][]call) {
	k := 0
	for _, m := range n {
		var cs []call
		for j := 0; j < m; j++ {
			cs = append(cs, small(k))
			k++
		}
		l = append(l, cs)
	}
	return
}

// fault plan.
type fplan struct {
	name  string
	calls [][]call // the last caller is late: it calls when everything has come to rest
	keep  int
	one   bool
	bound int
	hold  bool // the server does not answer

	rEnd  int // -1: none
	rErr  error
	rWith bool
	wEnd  int // -1: none
	block bool
	// cutter: a thread that breaks the transport at a moment of its own
	cut  string // "", "read", "readnow", "write", "both"
	fin  bool   // the read side ends when everything is at rest, before the late call
	trap bool   // the tags of the failed calls must be free again
}

func (f fplan) scenario() xplore.Scenario {
	return xplore.Scenario{Name: f.name, Bound: f.bound, Make: func() *xplore.Inst {
		w := newWorld(f.calls)
		w.oneConn = f.one
		w.rEnd, w.rErr, w.rWith, w.wEnd, w.wBlock = f.rEnd, f.rErr, f.rWith, f.wEnd, f.block
		late := len(f.calls) - 1
		in := &xplore.Inst{}
		in.Setup = func(s *sched.S) {
			w.start(s, f.keep)
			for i := range f.calls {
				s.Thread(caller(i), func() {
					if i == late {
						sched.Block(func() bool { return w.go_ })
					}
					w.make(i)
				})
			}
			if !f.hold {
				w.prompt(s)
			}
			w.watch(s)
			if f.cut != "" {
				s.Thread("cutter", func() {
					sched.Sync()
					sched.Change(func() {
						switch f.cut {
						case "read":
							w.rEnd = len(w.in)
						case "readnow":
							w.rEnd = w.got
						case "write":
							w.wEnd = len(w.out)
						case "both":
							w.rEnd, w.wEnd = w.got, len(w.out)
						}
						w.rErr = f.rErr
					})
				})
			}
		}
		step := 0
		in.Idle = func(s *sched.S) (more bool) {
			sched.Change(func() {
				for f.hold && w.complete() {
					w.take()
				}
				if step == 0 && f.fin && w.rEnd < 0 {
					w.rEnd, w.rErr = len(w.in), f.rErr
					if w.rErr == nil {
						w.rErr = io.EOF
					}
					more = true
				} else if step <= 1 && !w.go_ {
					w.go_ = true
					more = true
				}
				step++
			})
			return
		}
		in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
			if o.Overrun {
				return "the client makes no progress (step limit reached)", ""
			}
			if w.wrong != "" {
				return w.wrong, ""
			}
			seen := fmt.Sprint(w.got, len(w.out))
			broken := w.rEnd >= 0 || w.wEnd >= 0
			for i, l := range w.calls {
				for j, x := range l {
					r := w.results[i][j]
					arrived, unclear := false, false
					for _, q := range w.reqs {
						if q.who == i && q.i == j && q.answered > 0 && q.answered <= w.got {
							arrived = true
							// a failure reported together with the last bytes: the transport's ambiguity
							unclear = q.answered == w.rEnd && w.rWith && w.rErr != io.EOF
						}
					}
					switch {
					case !r.done:
						return fmt.Sprintf("call %d.%d (%v) never returned", i, j, x.m), ""
					case r.err == nil && !arrived:
						return fmt.Sprintf("call %d.%d (%v) reports success although its reply did not arrive", i, j, x.m), ""
					case r.err == nil && !r.ok(x):
						return fmt.Sprintf("call %d.%d (%v) returned %v, the server answered %v", i, j, x.m, r.f, x.res), ""
					case r.err != nil && arrived && !unclear && w.wEnd < 0:
						return fmt.Sprintf("call %d.%d (%v) returned error %q although its reply arrived completely", i, j, x.m, r.err), ""
					case r.err == nil && broken && i == late && w.failedAt > 0:
						return fmt.Sprintf("call %d.%d (%v), made after the connection was lost, succeeded", i, j, x.m), ""
					}
					seen += fmt.Sprint(" ", r.err != nil)
				}
			}
			return "", seen
		}
		return in
	}}
}

var rkinds = []struct {
	n    string
	err  error
	with bool
}{{"EOF", io.EOF, false}, {"EOF with data", io.EOF, true}, {"error", errReset, false}, {"error with data", errReset, true}, {"unexpected EOF", io.ErrUnexpectedEOF, false}}

// C10: lost connections.
func C10(c *kit.Ctx) {
	begin(c)
	supply(c)
	x := extra(c)
	var l []fplan
	add := func(f fplan) {
		if f.name == "" {
			panic("name")
		}
		l = append(l, f)
	}
	streamLen := func(calls [][]call) (in, out int) {
		for _, q := range calls[:len(calls)-1] {
			for _, y := range q {
				in += len(y.reply(1))
				out += len(wire.Encode(y.m))
			}
		}
		return
	}
	shapes := map[string][][]call{"1+1": smalls(1, 1), "2+1": smalls(2, 1), "1,1+1": smalls(1, 1, 1), "2,2+2": smalls(2, 2, 2), "4+1": smalls(4, 1)}
	for _, nm := range []string{"1+1", "2+1", "1,1+1", "2,2+2", "4+1"} {
		calls := shapes[nm]
		in, out := streamLen(calls)
		for _, one := range []bool{false, true} {
			for _, rk := range rkinds {
				for k := 0; k <= in; k++ {
					add(fplan{name: fmt.Sprintf("%s one=%v read %s at %d", nm, one, rk.n, k), calls: calls, one: one, rEnd: k, rErr: rk.err, rWith: rk.with, wEnd: -1})
				}
				add(fplan{name: fmt.Sprintf("%s one=%v unanswered, then %s", nm, one, rk.n), calls: calls, one: one, rEnd: -1, rErr: rk.err, wEnd: -1, hold: true, fin: true})
			}
			for k := 0; k <= out; k++ {
				add(fplan{name: fmt.Sprintf("%s one=%v write error at %d", nm, one, k), calls: calls, one: one, rEnd: -1, wEnd: k})
				add(fplan{name: fmt.Sprintf("%s one=%v write error at %d, unanswered", nm, one, k), calls: calls, one: one, rEnd: -1, wEnd: k, hold: true, fin: true})
				add(fplan{name: fmt.Sprintf("%s one=%v write stops at %d, then EOF", nm, one, k), calls: calls, one: one, rEnd: -1, wEnd: k, block: true, fin: true})
			}
		}
	}
	// interleavings
	for _, one := range []bool{false, true} {
		for _, cut := range []string{"read", "readnow", "write", "both"} {
			n := fmt.Sprintf("one=%v cutter %s ", one, cut)
			add(fplan{name: n + "1+1", calls: smalls(1, 1), one: one, rEnd: -1, wEnd: -1, rErr: io.EOF, cut: cut, bound: 2 + x})
			add(fplan{name: n + "1,1+1", calls: smalls(1, 1, 1), one: one, rEnd: -1, wEnd: -1, rErr: errReset, cut: cut, bound: 1 + x})
			add(fplan{name: n + "1,1+1 one tag", calls: smalls(1, 1, 1), keep: 1, one: one, rEnd: -1, wEnd: -1, rErr: errReset, cut: cut, bound: 1 + x})
			add(fplan{name: n + "1,1+1 unanswered", calls: smalls(1, 1, 1), one: one, rEnd: -1, wEnd: -1, rErr: io.EOF, cut: cut, hold: true, bound: 1 + x, fin: true})
			add(fplan{name: n + "1,1+1 one tag unanswered", calls: smalls(1, 1, 1), keep: 1, one: one, rEnd: -1, wEnd: -1, rErr: io.EOF, cut: cut, hold: true, bound: 1 + x, fin: true})
		}
		// a fault in the middle of a message, with interleavings
		for _, k := range []int{0, 3, 7, 12, 19} {
			add(fplan{name: fmt.Sprintf("one=%v read error at %d, interleaved", one, k), calls: smalls(1, 1, 1), one: one, rEnd: k, rErr: errReset, wEnd: -1, bound: 1 + x})
			add(fplan{name: fmt.Sprintf("one=%v write error at %d, interleaved", one, k), calls: smalls(1, 1, 1), one: one, rEnd: -1, wEnd: k, bound: 1 + x})
			add(fplan{name: fmt.Sprintf("one=%v write stops at %d, interleaved", one, k), calls: smalls(1, 1, 1), one: one, rEnd: -1, wEnd: k, block: true, fin: true, bound: 1 + x})
		}
	}
	for i, f := range l {
		xplore.Explore(c, i, f.scenario())
	}
	// the connection ends inside a reply whose rest is not needed to decode it
	n := len(l)
	for _, t := range srv.TTypes {
		a := mk(t, 0, "")
		e := mk(t, 0, "some error")
		calls := [][]call{{a}, {mk(wire.Tclunk, 1, "")}, {mk(wire.Twalk, 2, "")}}
		for _, y := range []call{a, e} {
			full := len(y.reply(1))
			seen := map[uint32]bool{}
			for bit := 0; bit < 32; bit++ {
				for _, sz := range []uint32{uint32(full) | 1<<bit, uint32(full) + 1<<bit} {
					if sz <= uint32(full) || seen[sz] {
						continue
					}
					seen[sz] = true
					n++
					xplore.Explore(c, n, hplan{name: fmt.Sprintf("reply to T%d of %d bytes claims %d", t, full, sz), calls: calls, expA: "error", fatal: true,
						bytes: func(ta, tb uint16, w *world) []byte {
							b := append([]byte{}, y.reply(ta)...)
							copy(b, wire.Int(nil, uint64(sz), 4))
							return b
						}}.scenario())
				}
			}
		}
	}
	// a large reply lacks its last bytes
	calls := [][]call{{mk(wire.Tread, 0, "")}, {mk(wire.Tclunk, 1, "")}, {mk(wire.Twalk, 2, "")}}
	lens := []int{600, 3000, 10000, 1<<20 + 4096*3}
	for k := 9; k <= 20; k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1, 1<<k+100)
	}
	for _, ln := range lens {
		for _, d := range []int{1, 2, 3, 7, 10, 11, 12, 100, 256, 511, 512, 513, 1000, 1024, 2048, 4094, 4095, 4096, 4097, 8192, 32768, 65536, ln / 2} {
			if d > ln-11 {
				continue
			}
			n++
			xplore.Explore(c, n, hplan{name: fmt.Sprintf("a reply of %d bytes lacks %d", ln, d), calls: calls, expA: "error", fatal: true,
				bytes: func(ta, tb uint16, w *world) []byte {
					return wire.Encode(wire.M(wire.Rread, ta, make([]byte, ln-11)))[:ln-d]
				}}.scenario())
		}
	}
}

// hostile input.
type hplan struct {
	name  string
	calls [][]call                           // caller 0: the one under attack, 1: a bystander, 2: late
	bytes func(a, b uint16, w *world) []byte // what the server sends when both requests are there
	expA  string                             // "ok", "error" or "any"
	fatal bool                               // framing is gone: everybody may fail
	keep  int
	late  bool // send it before the late call instead, when nothing is outstanding
	join  bool // in one piece with the good replies
	bound int
	steps int // 0: the usual limit
}

func (h hplan) scenario() xplore.Scenario {
	return xplore.Scenario{Name: h.name, Bound: h.bound, MaxSteps: h.steps, Make: func() *xplore.Inst {
		w := newWorld(h.calls)
		in := &xplore.Inst{}
		in.Setup = func(s *sched.S) {
			w.start(s, h.keep)
			for i := range h.calls {
				s.Thread(caller(i), func() {
					if i == 2 {
						sched.Block(func() bool { return w.go_ })
					}
					w.make(i)
				})
			}
		}
		find := func(who int) int {
			for k, q := range w.reqs {
				if q.who == who {
					return k
				}
			}
			return -1
		}
		step := 0
		in.Idle = func(s *sched.S) (more bool) {
			sched.Change(func() {
				for w.complete() {
					w.take()
				}
				a, b := find(0), find(1)
				good := func() {
					if h.fatal {
						w.rEnd, w.rErr = len(w.in), io.EOF
						return
					}
					for _, k := range []int{b, a} {
						if k >= 0 && w.reqs[k].answered == 0 && (k != a || h.expA == "ok") {
							w.answer(k)
						}
					}
				}
				hostile := func() {
					var ta, tb uint16
					if a >= 0 {
						ta = w.reqs[a].tag
					}
					if b >= 0 {
						tb = w.reqs[b].tag
					}
					w.in = append(w.in, h.bytes(ta, tb, w)...)
					if a >= 0 && h.expA != "ok" && !h.late {
						w.reqs[a].answered = len(w.in) // that was the answer
					}
				}
				switch step {
				case 0:
					if !h.late {
						hostile()
					}
					if h.join || h.late {
						good()
					}
				case 1:
					if h.late {
						hostile()
					}
					good()
				case 2:
					w.go_ = true
				default:
					for k, q := range w.reqs {
						if q.who == 2 && q.answered == 0 && !h.fatal {
							w.answer(k)
							more = true
						}
					}
					if step > 20 {
						more = false
					}
				}
				if step < 3 {
					more = true
				}
				step++
			})
			return
		}
		in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
			if o.Overrun {
				return "the client makes no progress (step limit reached)", ""
			}
			if w.wrong != "" {
				return w.wrong, ""
			}
			for i, l := range w.calls {
				for j, x := range l {
					r := w.results[i][j]
					if !r.done {
						return fmt.Sprintf("call %d.%d (%v) never returned", i, j, x.m), ""
					}
					want := "ok"
					if i == 0 {
						want = h.expA
					}
					if h.fatal {
						want = "error"
					}
					switch {
					case want == "ok" && !r.ok(x):
						return fmt.Sprintf("call %d.%d (%v) returned %v, %v; its own reply was %v", i, j, x.m, r.f, r.err, x.res), ""
					case want == "error" && r.err == nil:
						return fmt.Sprintf("call %d.%d (%v) accepted a bad reply: %v", i, j, x.m, r.f), ""
					}
				}
			}
			return "", ""
		}
		return in
	}}
}

func packet(typ uint8, tag uint16, body []byte) []byte {
	b := append([]byte{0, 0, 0, 0, typ, byte(tag), byte(tag >> 8)}, body...)
	copy(b, wire.Int(nil, uint64(len(b)), 4))
	return b
}

// C11: hostile replies.
func C11(c *kit.Ctx) {
	begin(c)
	supply(c)
	x := extra(c)
	idx := 0
	run := func(h hplan) {
		idx++
		if sched.Racing && h.bound == 0 && idx%17 != 0 {
			return // the values make no difference to the race detector
		}
		xplore.Explore(c, idx, h.scenario())
	}
	for _, t := range srv.TTypes {
		a := mk(t, 0, "")
		calls := [][]call{{a}, {mk(wire.Tread, 1, "")}, {mk(wire.Twalk, 2, "")}}
		body := a.reply(1)[7:]
		one := func(name, exp string, join bool, f func(ta, tb uint16, w *world) []byte) {
			run(hplan{name: fmt.Sprintf("T%d %s join=%v", t, name, join), calls: calls, bytes: f, expA: exp, join: join})
		}
		// wrong types
		for r := 0; r < 256; r++ {
			if uint8(r) == t+1 || r == wire.Rerror {
				continue
			}
			bodies := [][]byte{body}
			if sp := wire.ByType(uint8(r)); sp != nil && r%2 == 1 {
				_, res := srv.Rep(uint8(r-1), 1, 1)
				bodies = append(bodies, wire.Encode(wire.Msg{Type: uint8(r), Tag: 1, F: res})[7:])
			}
			for k, bd := range bodies {
				one(fmt.Sprintf("answered by type %d body %d", r, k), "error", false, func(ta, tb uint16, w *world) []byte { return packet(uint8(r), ta, bd) })
			}
		}
		// bodies that do not decode
		for k, bd := range srv.Damage(t+1, body) {
			one(fmt.Sprintf("answered by a damaged body %d", k), "error", k%2 == 0, func(ta, tb uint16, w *world) []byte { return packet(t+1, ta, bd) })
		}
		for k, bd := range srv.Damage(wire.Rerror, wire.Encode(wire.M(wire.Rerror, 1, "oops"))[7:]) {
			one(fmt.Sprintf("answered by a damaged error %d", k), "error", k%2 == 0, func(ta, tb uint16, w *world) []byte { return packet(wire.Rerror, ta, bd) })
		}
	}
	// tags nobody waits for
	for _, t := range []uint8{wire.Tread, wire.Tclunk, wire.Tstat} {
		a := mk(t, 0, "")
		calls := [][]call{{a}, {mk(wire.Tread, 1, "")}, {mk(wire.Twalk, 2, "")}}
		for _, keep := range []int{0, 1, 2, 3} {
			if keep == 1 {
				continue // two requests have to be outstanding
			}
			for _, typ := range []uint8{t + 1, wire.Rerror, wire.Rread, wire.Tread, 0, 255} {
				for _, full := range []bool{true, false} {
					bd := []byte{}
					if full {
						bd = a.reply(1)[7:]
					}
					for k, tag := range []func(ta, tb uint16, w *world) uint16{
						func(ta, tb uint16, w *world) uint16 { return 0 },
						func(ta, tb uint16, w *world) uint16 { return 0xffff },
						func(ta, tb uint16, w *world) uint16 { return 0xfffe },
						func(ta, tb uint16, w *world) uint16 { return 0xfffd },
						func(ta, tb uint16, w *world) uint16 { return free(ta+1, ta, tb) },
						func(ta, tb uint16, w *world) uint16 { return free(tb+1, ta, tb) },
						func(ta, tb uint16, w *world) uint16 { return free(ta-1, ta, tb) },
						func(ta, tb uint16, w *world) uint16 { return free(ta<<8|ta>>8, ta, tb) },
						func(ta, tb uint16, w *world) uint16 { return free(ta|0x100, ta, tb) },
						func(ta, tb uint16, w *world) uint16 { return free(ta|0x8000, ta, tb) },
					} {
						for j := 0; j < 3; j++ {
							run(hplan{name: fmt.Sprintf("T%d stray type %d full=%v tag %d keep %d when %d", t, typ, full, k, keep, j), calls: calls, keep: keep, expA: "ok", join: j == 1, late: j == 2,
								bytes: func(ta, tb uint16, w *world) []byte {
									g := tag(ta, tb, w)
									if k >= 2 && (g == ta || g == tb) {
										return nil
									}
									return packet(typ, g, bd)
								}})
						}
					}
				}
			}
			// a second reply with a tag that was already answered
			run(hplan{name: fmt.Sprintf("T%d duplicate keep %d", t, keep), calls: calls, keep: keep, expA: "ok", late: true,
				bytes: func(ta, tb uint16, w *world) []byte {
					return append(a.reply(ta), append(a.reply(ta), calls[1][0].reply(tb)...)...)
				}})
			run(hplan{name: fmt.Sprintf("T%d answered three times keep %d", t, keep), calls: calls, keep: keep, expA: "any", join: true,
				bytes: func(ta, tb uint16, w *world) []byte {
					return append(a.reply(ta), append(a.reply(ta), a.reply(ta)...)...)
				}})
		}
	}
	// interleavings of a stray reply with the calls
	for _, keep := range []int{0, 2} {
		calls := [][]call{{mk(wire.Tread, 0, "")}, {mk(wire.Tread, 1, "")}, {mk(wire.Twalk, 2, "")}}
		run(hplan{name: fmt.Sprint("interleaved stray keep ", keep), calls: calls, keep: keep, expA: "ok", join: true, bound: 1 + x,
			bytes: func(ta, tb uint16, w *world) []byte {
				return append(packet(wire.Rread, 0, nil), packet(wire.Rread, 0x1234, calls[0][0].reply(1)[7:])...)
			}})
		run(hplan{name: fmt.Sprint("interleaved wrong type keep ", keep), calls: calls, keep: keep, expA: "error", join: true, bound: 1 + x,
			bytes: func(ta, tb uint16, w *world) []byte { return packet(wire.Rwalk, ta, calls[0][0].reply(1)[7:]) }})
		run(hplan{name: fmt.Sprint("interleaved duplicate keep ", keep), calls: calls, keep: keep, expA: "any", join: true, bound: 1 + x,
			bytes: func(ta, tb uint16, w *world) []byte {
				return append(calls[0][0].reply(ta), calls[0][0].reply(ta)...)
			}})
	}
	// many of them
	many := []int{5, 8, 10, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1001, 1024, 1025, 1100}
	if c.Thorough() {
		many = append(many, 4100, 10010, 70000)
	}
	for _, k := range many {
		a := mk(wire.Tread, 0, "")
		calls := [][]call{{a}, {mk(wire.Tclunk, 1, "")}, {mk(wire.Twalk, 2, "")}}
		for _, kind := range []string{"unknown tag", "tag 0", "no-tag", "as many tags", "error", "request", "undecodable", "duplicates"} {
			exp := "ok"
			if kind == "duplicates" {
				exp = "any"
			}
			run(hplan{name: fmt.Sprintf("%d replies nobody waits for, %s", k, kind), calls: calls, expA: exp, join: kind == "error", steps: 20000 + 100*k,
				bytes: func(ta, tb uint16, w *world) (b []byte) {
					for i := 0; i < k; i++ {
						switch kind {
						case "unknown tag":
							b = append(b, a.reply(free(0x4321, ta, tb))...)
						case "tag 0":
							b = append(b, a.reply(0)...)
						case "no-tag":
							b = append(b, a.reply(0xffff)...)
						case "as many tags":
							b = append(b, a.reply(free(uint16(0x2000+i), ta, tb))...)
						case "error":
							b = append(b, wire.Encode(wire.M(wire.Rerror, free(9999, ta, tb), "no"))...)
						case "request":
							b = append(b, packet(wire.Tread, free(9999, ta, tb), nil)...)
						case "undecodable":
							b = append(b, packet(wire.Rread, free(9999, ta, tb), []byte{1})...)
						case "duplicates":
							b = append(b, a.reply(ta)...)
						}
					}
					return
				}})
		}
		// calls that are answered badly, one after the other, and a good one
		for ti, t := range []uint8{wire.Tread, wire.Tclunk, wire.Twalk} {
			for _, bad := range []vcall{
				{call: mk(t, 1, ""), what: "answered by another type", typ: wire.Rstat, raw: []byte{1, 0, 0}},
				{call: mk(t, 1, ""), what: "answered by an undecodable reply", typ: t + 1, raw: []byte{9, 9, 9}},
				{call: mk(t, 1, ""), what: "answered by an undecodable error", typ: wire.Rerror, raw: []byte{9}},
			} {
				idx++
				if !c.Case(idx, fmt.Sprintf("%d calls T%d %s", k, ti, bad.what)) {
					continue
				}
				c.Eval(1)
				c.Distinct("nontrivial", fmt.Sprint("bad ", k, ti, bad.what))
				var l []vcall
				for i := 0; i < k; i++ {
					l = append(l, bad)
				}
				if r := values(c, append(l, vcall{call: mk(t, 2, ""), what: "answered at last"}), 0); r != "" {
					c.Violate(r, "after %d calls %s", k, bad.what)
				}
			}
		}
	}
	// framing gone
	calls := [][]call{{mk(wire.Tread, 0, "")}, {mk(wire.Tclunk, 1, "")}, {mk(wire.Twalk, 2, "")}}
	for sz := 0; sz < 7; sz++ {
		for _, typ := range []uint8{wire.Rread, wire.Rclunk, wire.Rerror, 0} {
			for _, n := range []int{0, 1, 6, 7, 30} {
				run(hplan{name: fmt.Sprintf("size %d type %d then %d bytes", sz, typ, n), calls: calls, expA: "error", fatal: true,
					bytes: func(ta, tb uint16, w *world) []byte {
						return append([]byte{byte(sz), 0, 0, 0, typ, byte(ta), byte(ta >> 8)}, make([]byte, n)...)
					}})
			}
		}
	}
	for _, sz := range []uint64{8, 12, 1000, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for _, typ := range []uint8{wire.Rread, wire.Rclunk, wire.Rerror} {
			run(hplan{name: fmt.Sprintf("size %d type %d, never complete", sz, typ), calls: calls, expA: "error", fatal: true,
				bytes: func(ta, tb uint16, w *world) []byte {
					return append(wire.Int(nil, sz, 4), typ, byte(ta), byte(ta>>8))
				}})
		}
	}
}

// free changes a tag until it is neither of the two, nor reserved.
func free(t, a, b uint16) uint16 {
	for t == a || t == b || t == 0 || t == 0xffff {
		t += 7
	}
	return t
}

// paused: nothing after a cut arrives before the client is at rest.
const paused = -1

// C12: segmentation of replies.
func C12(c *kit.Ctx) {
	begin(c)
	supply(c)
	idx := 0
	run := func(nm string, calls [][]call, cuts []int, max int, with int) {
		idx++
		pauses := []int{}
		if with == paused {
			cuts, pauses, with = nil, cuts, 0
		}
		xplore.Explore(c, idx, xplore.Scenario{Name: fmt.Sprintf("%s %v max %d end %d pauses %v", nm, cuts, max, with, pauses), Make: func() *xplore.Inst {
			w := newWorld(calls)
			w.cuts, w.max = cuts, max
			w.pauses = append([]int{}, pauses...)
			n := 0
			for _, l := range calls {
				for _, x := range l {
					n += len(x.reply(1))
				}
			}
			in := &xplore.Inst{}
			in.Setup = func(s *sched.S) {
				w.start(s, 0)
				w.callers(s)
			}
			in.Idle = func(s *sched.S) (more bool) {
				sched.Change(func() {
					for w.complete() {
						w.take()
					}
					for k := range w.reqs {
						if w.reqs[k].answered == 0 {
							w.answer(k)
							more = true
						}
					}
					if !more && w.resume() {
						more = true
					}
					if with > 0 && len(w.in) == n {
						w.rEnd, w.rErr, w.rWith = n, io.EOF, with == 2
					}
				})
				return
			}
			in.Judge = w.allAnswered
			return in
		}})
	}
	all := func(nm string, calls [][]call, n int) {
		for m := 0; m < 1<<(n-1); m++ {
			var cuts []int
			for k := 0; k < n-1; k++ {
				if m>>k&1 != 0 {
					cuts = append(cuts, k+1)
				}
			}
			run(nm, calls, cuts, 0, 0)
			if m > 0 {
				run(nm, calls, cuts, 0, paused)
			}
			if c.Done() {
				return
			}
		}
	}
	total := func(calls [][]call) (n int) {
		for _, l := range calls {
			for _, x := range l {
				n += len(x.reply(1))
			}
		}
		return
	}
	two := [][]call{{small(0)}, {small(4)}} // two Rclunk: 14 bytes
	all("two clunks", two, total(two))
	rd := [][]call{{small(1)}} // one Rread: 13 bytes
	all("one read", rd, total(rd))
	if c.Thorough() {
		x := [][]call{{small(0)}, {call{m: wire.M(wire.Tread, 0, uint32(9), uint64(1), uint32(8)), res: []any{[]byte{}}}}}
		all("clunk and empty read", x, total(x)) // 18 bytes
	}
	big := mk(wire.Tread, 5, "")
	big.res = []any{make([]byte, 5000)}
	for i := range big.res[0].([]byte) {
		big.res[0].([]byte)[i] = byte(i * 7)
	}
	longer := map[string][][]call{
		"mixed":    {{small(1), small(6)}, {small(2)}, {mk(wire.Tstat, 3, "some error")}},
		"sequence": {{small(0), small(1), small(2), small(3)}},
		"big":      {{big}, {mk(wire.Tstat, 1, "")}},
		"every":    nil,
	}
	for k, t := range srv.TTypes {
		longer["every"] = append(longer["every"], []call{mk(t, k, "")})
	}
	for _, nm := range []string{"mixed", "sequence", "big", "every"} {
		calls := longer[nm]
		n := total(calls)
		for m := 1; m <= 64; m++ {
			run(nm, calls, nil, m, 0)
			var at []int
			for i := m; i < n; i += m {
				at = append(at, i)
			}
			run(nm, calls, at, 0, paused)
		}
		for e := 1; e <= 2; e++ {
			run(nm, calls, nil, 0, e)
			run(nm, calls, nil, 1, e)
		}
		lim := n
		if lim > 400 {
			lim = 400
		}
		for i := 1; i < lim; i++ {
			run(nm, calls, []int{i}, 0, 0)
			run(nm, calls, []int{i}, 0, paused)
			if nm != "mixed" && nm != "sequence" && !c.Thorough() {
				continue
			}
			for j := i + 1; j < lim && j < i+60; j++ {
				run(nm, calls, []int{i, j}, 0, 0)
				run(nm, calls, []int{i, j}, 0, paused)
			}
			if c.Done() {
				return
			}
		}
	}
}

// C13: identifiers.
func C13(c *kit.Ctx) {
	begin(c)
	plain(c)
	supply(c)
	x := extra(c)
	idx := 2
	for _, sh := range []struct {
		fids, tags []int // threads and how many each takes
		calls      [][]call
		keep       int
		bound      int
	}{
		{[]int{2, 2}, nil, nil, 0, 3 + x},
		{[]int{3, 3}, nil, nil, 0, 2 + x},
		{[]int{2, 2, 2}, nil, nil, 0, 2 + x},
		{[]int{4, 4, 4}, nil, nil, 0, 1 + x},
		{nil, []int{2, 2}, nil, 0, 2 + x},
		{nil, []int{2, 2, 2}, nil, 0, 2 + x},
		{nil, []int{2, 1}, nil, 2, 2 + x},
		{[]int{2, 2}, []int{1, 1}, nil, 0, 2 + x},
		{[]int{1, 1}, nil, smalls(1), 0, 2 + x},
		{nil, []int{1}, smalls(1, 1), 3, 2 + x},
		{nil, []int{1}, smalls(2), 2, 2 + x},
		{nil, []int{2}, smalls(2), 3, 2 + x},
		{nil, []int{1, 1}, smalls(1, 1), 3, 1 + x},
		{[]int{2, 2}, []int{1}, smalls(1, 1), 3, 1 + x},
		{nil, []int{1}, smalls(2, 2), 2, 1 + x},
	} {
		idx++
		sh := sh
		xplore.Explore(c, idx, xplore.Scenario{Name: fmt.Sprint(sh.fids, sh.tags, len(sh.calls), " keep ", sh.keep, " ", idx), Bound: sh.bound, Make: func() *xplore.Inst {
			w := newWorld(sh.calls)
			var fids []uint32
			var tags int
			in := &xplore.Inst{}
			in.Setup = func(s *sched.S) {
				w.start(s, sh.keep)
				w.callers(s)
				if len(sh.calls) > 0 {
					w.prompt(s)
				}
				for i, n := range sh.fids {
					s.Thread(fmt.Sprint("fids", i), func() {
						for j := 0; j < n; j++ {
							sched.Sync()
							f := uint32(w.c.GetFID())
							sched.Change(func() {
								for _, g := range fids {
									if f == g {
										w.bad("two requests for a file identifier returned %d", f)
									}
								}
								if f == 0xffffffff {
									w.bad("GetFID returned the reserved value")
								}
								fids = append(fids, f)
							})
						}
					})
				}
				for i, n := range sh.tags {
					s.Thread(fmt.Sprint("tags", i), func() {
						for j := 0; j < n; j++ {
							sched.Sync()
							t := uint16(w.c.GetTag())
							sched.Change(func() {
								if w.held[t] {
									w.bad("tag %d was handed out twice", t)
								}
								if t == 0 || t == 0xffff {
									w.bad("GetTag returned the reserved tag %d", t)
								}
								for _, q := range w.reqs {
									if q.tag == t && (q.answered == 0 || q.answered > w.got) {
										w.bad("tag %d was handed out while a request used it", t)
									}
								}
								w.held[t] = true
								tags++
							})
						}
					})
				}
			}
			in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
				if o.Overrun {
					return "no progress (step limit reached)", ""
				}
				if w.wrong != "" {
					return w.wrong, ""
				}
				for i := range sh.fids {
					if !s.Ended(fmt.Sprint("fids", i)) {
						return "GetFID did not return", ""
					}
				}
				n := 0
				for _, k := range sh.tags {
					n += k
				}
				// while there are tags left nobody may wait
				if tags < n && (sh.keep == 0 || tags < sh.keep) {
					return fmt.Sprintf("only %d of %d requests for a tag were satisfied, with %d tags there", tags, n, sh.keep), ""
				}
				if sh.keep == 0 || n < sh.keep {
					if bad, _ := w.allAnswered(s, o); bad != "" {
						return bad, ""
					}
				}
				return "", fmt.Sprint(fids, w.describe())
			}
			return in
		}})
	}
}
