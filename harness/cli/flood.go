package cli

import (
	"fmt"

	"ninepverif/api"
	"ninepverif/kit"
	"ninepverif/sched"
	"ninepverif/srv"
	"ninepverif/wire"
	"ninepverif/xplore"
)

// flood makes as many calls at once as there are tags, and more, and answers
// those sent in an order given by perm; answers are of a size of their own.
func flood(c *kit.Ctx, more int, perm func(i, n int) int) (bad string) {
	n := supply(nil)
	total := n + more
	outcome := once(c, func(s *sched.S) {
		w := newWorld(nil)
		w.start(s, 0)
		returned := make([]bool, total)
		count := 0
		reply := func(fid uint32, tag uint16) []byte {
			if fid%5 == 4 {
				return wire.Encode(wire.M(wire.Rerror, tag, fmt.Sprint("error ", fid)))
			}
			return wire.Encode(wire.M(wire.Rread, tag, []byte(fmt.Sprint("data ", fid))))
		}
		var sent []request // who: the fid
		tags := make([]int, 65536)
		fids := make([]bool, total)
		s.Free(func() {
			for i := 0; i < total; i++ {
				go func() {
					f, err := api.Call(w.c, wire.M(wire.Tread, 0, uint32(i), uint64(i), uint32(100)))
					sched.Change(func() {
						if returned[i] {
							w.bad("call %d returned twice", i)
						}
						returned[i] = true
						count++
						if i%5 == 4 {
							if err == nil || err.Error() != fmt.Sprint("error ", i) {
								w.bad("call %d returned %v %v, the server answered error %d", i, f, err, i)
							}
						} else if err != nil || len(f) != 1 || string(f[0].([]byte)) != fmt.Sprint("data ", i) {
							w.bad("call %d returned %.100q %v, the server answered data %d", i, fmt.Sprint(f), err, i)
						}
					})
				}()
			}
		})
		for round := 0; round < total && w.wrong == ""; round++ {
			sched.Change(func() {
				for w.complete() {
					b := w.out[w.parsed:]
					k := size(b)
					if k < 7 {
						w.bad("bad request % x", clip(b))
						return
					}
					m, err := wire.Decode(b[:k])
					w.parsed += k
					if err != nil || m.Type != wire.Tread {
						w.bad("bad request % x", clip(b[:k]))
						return
					}
					fid := m.F[0].(uint32)
					switch {
					case int(fid) >= total || m.F[1].(uint64) != uint64(fid) || m.F[2].(uint32) != 100:
						w.bad("request %v, which nobody asked for", m)
					case fids[fid]:
						w.bad("%v was sent twice", m)
					case m.Tag == 0 || m.Tag == 0xffff:
						w.bad("%v uses a reserved tag", m)
					case tags[m.Tag] != 0:
						w.bad("%v uses the tag of outstanding call %d", m, tags[m.Tag]-1)
					default:
						fids[fid] = true
						tags[m.Tag] = int(fid) + 1
						sent = append(sent, request{tag: m.Tag, who: int(fid)})
					}
				}
			})
			if w.wrong != "" || len(sent) == 0 {
				break
			}
			sched.Change(func() {
				for i := range sent {
					r := sent[perm(i, len(sent))]
					tags[r.tag] = 0
					w.in = append(w.in, reply(uint32(r.who), r.tag)...)
				}
				sent = sent[:0]
			})
			s.Free(func() {})
		}
		bad = w.wrong
		if bad == "" && count != total {
			for i, r := range returned {
				if !r {
					bad = fmt.Sprintf("%d calls at once: %d of them, e.g. call %d (sent: %v), never returned", total, total-count, i, fids[i])
					break
				}
			}
		}
		if bad == "" {
			bad = w.tagsBack(s, n)
		}
	})
	if outcome != "" && bad == "" {
		bad = outcome
	}
	return
}

var orders = []struct {
	name string
	f    func(i, n int) int
}{
	{"as sent", func(i, n int) int { return i }},
	{"reversed", func(i, n int) int { return n - 1 - i }},
	{"halves swapped", func(i, n int) int { return (i + n/2) % n }},
}

func floods(c *kit.Ctx, base, more int) {
	for k, o := range orders {
		if c.Case(base+k, fmt.Sprintf("all tags and %d calls more, answers %s", more, o.name)) {
			c.Eval(1)
			c.Count("calls_outstanding_at_once", supply(nil))
			if bad := flood(c, more, o.f); bad != "" {
				c.Violate(bad, "")
			}
		}
	}
}

// pool makes calls of every type with every kind of answer, twice each, and
// looks whether exactly the tags there were are there afterwards.
func pool(c *kit.Ctx, base int) {
	idx := base
	for _, t := range srv.TTypes {
		x := mk(t, 1, "")
		body := x.reply(1)[7:]
		var l []vcall
		add := func(v vcall) { l = append(l, v) }
		add(vcall{call: x, what: "answered"})
		add(vcall{call: mk(t, 2, "no"), what: "answered by an error"})
		add(vcall{call: mk(t, 2, ""), what: "answered by an empty error", raw: []byte{0, 0}, typ: wire.Rerror})
		add(vcall{call: x, raw: []byte{1}, typ: wire.Rerror, what: "answered by an undecodable error"})
		add(vcall{call: x, raw: append(append([]byte{}, body...), 0), typ: t + 1, what: "answered by too long a reply"})
		if len(body) > 0 {
			add(vcall{call: x, raw: body[:len(body)-1], typ: t + 1, what: "answered by a cut reply"})
		}
		for r := 0; r < 256; r++ {
			if uint8(r) != t+1 && r != wire.Rerror {
				add(vcall{call: x, raw: body, typ: uint8(r), what: fmt.Sprint("answered by type ", r)})
			}
		}
		for _, v := range l {
			idx++
			v.what = fmt.Sprintf("T%d %s", t, v.what)
			if c.Case(idx, "tags after "+v.what) {
				c.Eval(1)
				c.Distinct("nontrivial", v.what)
				if bad := values(c, []vcall{v, v}, 3); bad != "" {
					c.Violate(bad, "")
				}
			}
		}
	}
}

// clients runs two clients at the same time: what is kept where all clients
// share it mixes them up.
func clients(c *kit.Ctx, base, x int) {
	for k, pl := range []struct {
		calls [2][][]call
		bound int
	}{
		{[2][][]call{smalls(1), {{mk(wire.Twrite, 7, "")}}}, 1 + x},
		{[2][][]call{{{mk(wire.Tread, 1, "")}}, {{mk(wire.Tread, 2, "")}}}, 1 + x},
		{[2][][]call{{{mk(wire.Twalk, 1, "a")}}, {{mk(wire.Twalk, 2, "b")}}}, 1 + x},
		{[2][][]call{{{mk(wire.Tstat, 1, ""), mk(wire.Tread, 3, "")}}, {{mk(wire.Tread, 2, ""), mk(wire.Tstat, 4, "x")}}}, 1 + x},
	} {
		xplore.Explore(c, base+k, xplore.Scenario{Name: fmt.Sprint("two clients ", k), Bound: pl.bound, Make: func() *xplore.Inst {
			var ws [2]*world
			in := &xplore.Inst{}
			in.Setup = func(s *sched.S) {
				for i := range ws {
					w := newWorld(pl.calls[i])
					ws[i] = w
					w.start(s, 0)
					w.prefix = fmt.Sprint("client", i, ".")
					w.callers(s)
					w.prompt(s)
				}
			}
			in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
				seen := ""
				for i, w := range ws {
					bad, se := w.allAnswered(s, o)
					if bad != "" {
						return fmt.Sprintf("client %d of two: %s", i, bad), ""
					}
					seen += se
				}
				return "", seen
			}
			return in
		}})
	}
}
