package cli

import (
	"bytes"
	"fmt"

	"ninepverif/api"
	"ninepverif/codec"
	"ninepverif/kit"
	"ninepverif/sched"
	"ninepverif/srv"
	"ninepverif/wire"
)

// vcall is a call with its answer; with raw set, the answer is this damaged
// body and the call has to fail.
type vcall struct {
	call
	raw  []byte
	typ  uint8
	what string
}

// Values makes calls with every argument and result field at its boundary
// values, all error texts, damaged replies and replies of the wrong type, one
// after the other, without controlling the schedule.
func Values(c *kit.Ctx, base int) {
	idx := base
	var batch []vcall
	flush := func(force bool) {
		if len(batch) < 80 && !force || len(batch) == 0 {
			return
		}
		idx++
		if c.Case(idx, fmt.Sprintf("values of calls, batch %d", idx-base)) {
			c.Count("value_calls", len(batch))
			c.Eval(len(batch))
			for _, v := range batch {
				c.Distinct("nontrivial", v.what)
			}
			if bad := values(c, batch, 0); bad != "" {
				c.Violate(bad, "")
			}
		}
		batch = nil
	}
	add := func(v vcall) { batch = append(batch, v); flush(false) }
	for _, t := range srv.TTypes {
		spec, rspec := wire.ByType(t), wire.ByType(t+1)
		for fi, f := range spec.Fields {
			for k, v := range codec.Values(f.Kind, fi, true) {
				x := mk(t, 1, "")
				x.m.F = append([]any{}, x.m.F...)
				x.m.F[fi] = v
				add(vcall{call: x, what: fmt.Sprintf("T%d argument %d value %d", t, fi, k)})
			}
		}
		for fi, f := range rspec.Fields {
			for k, v := range codec.Values(f.Kind, fi, true) {
				x := mk(t, 2, "")
				x.res = append([]any{}, x.res...)
				x.res[fi] = v
				add(vcall{call: x, what: fmt.Sprintf("T%d result %d value %d", t, fi, k)})
			}
		}
		for k, e := range []string{"no such file", "100%d %s %v", string(codec.Pat(65535, 3)), "\xff\x00é", "EOF"} {
			add(vcall{call: mk(t, 3, e), what: fmt.Sprintf("T%d error %d", t, k)})
		}
		x := mk(t, 4, "")
		body := x.reply(1)[7:]
		for k, b := range srv.Damage(t+1, body) {
			add(vcall{call: x, raw: b, typ: t + 1, what: fmt.Sprintf("T%d damaged reply %d", t, k)})
		}
		for k, b := range srv.Damage(wire.Rerror, wire.Encode(wire.M(wire.Rerror, 1, "oops"))[7:]) {
			add(vcall{call: x, raw: b, typ: wire.Rerror, what: fmt.Sprintf("T%d damaged error %d", t, k)})
		}
		for r := 0; r < 256; r++ {
			if uint8(r) != t+1 && r != wire.Rerror {
				add(vcall{call: x, raw: body, typ: uint8(r), what: fmt.Sprintf("T%d answered by %d", t, r)})
			}
		}
	}
	flush(true)
}

// values makes the calls one after the other; with keep > 0 only that many tags
// are left and looked at afterwards.
func values(c *kit.Ctx, l []vcall, keep int) (bad string) {
	outcome := once(c, func(s *sched.S) {
		w := newWorld(nil)
		w.start(s, keep)
		cur, done := 0, false
		s.Free(func() {
			go func() {
				for {
					sched.Block(w.complete)
					sched.Change(func() {
						b := w.out[w.parsed:]
						n := size(b)
						v := l[cur]
						tag := uint16(b[5]) | uint16(b[6])<<8
						m := v.m
						m.Tag = tag
						if want := wire.Encode(m); n != len(b) || !bytes.Equal(b, want) {
							w.bad("%s: the request is % x, must be % x", v.what, clip(b), clip(want))
						}
						w.parsed = 0
						w.out = w.out[:0]
						reply := packet(v.typ, tag, v.raw)
						if v.raw == nil {
							reply = v.reply(tag)
						}
						w.in = append(w.in[:0], reply...)
						w.got = 0
					})
				}
			}()
			for cur = range l {
				v := l[cur]
				f, err := api.Call(w.c, v.m)
				if v.raw != nil {
					if err == nil {
						w.bad("%s: the call succeeds: %.200v", v.what, f)
					}
				} else if r := (result{f, err, true}); !r.ok(v.call) {
					w.bad("%s: the call returned %.200v, %.200v, must be %.200v %.100q", v.what, f, err, v.res, v.fail)
				}
				if w.wrong != "" {
					break
				}
			}
			done = true
		})
		bad = w.wrong
		if bad == "" && !done {
			bad = fmt.Sprintf("%s: the call never returned", l[cur].what)
		}
		if bad == "" && keep > 0 {
			bad = w.tagsBack(s, keep)
		}
	})
	if outcome != "" && bad == "" {
		bad = outcome
	}
	return
}
