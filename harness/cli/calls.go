package cli

import (
	"fmt"

	"ninepverif/api"
	"ninepverif/kit"
	"ninepverif/sched"
	"ninepverif/srv"
	"ninepverif/wire"
	"ninepverif/xplore"
)

// tagsBack drains the pool and compares with what must be in it.
func (w *world) tagsBack(s *sched.S, want int) string {
	n, dup := 0, ""
	ended := s.Free(func() {
		for n <= want {
			t := uint16(w.c.GetTag())
			n++
			if w.held[t] {
				dup = fmt.Sprintf("GetTag returned %d, which is in use", t)
				return
			}
			w.held[t] = true
			if t == 0 || t == 0xffff {
				dup = fmt.Sprintf("GetTag returned the reserved tag %d", t)
				return
			}
		}
	})
	switch {
	case dup != "":
		return dup
	case ended:
		return fmt.Sprintf("after all replies there are more free tags than at the beginning (%d)", want)
	case n < want:
		return fmt.Sprintf("after all replies %d tags are free, of %d at the beginning", n, want)
	}
	return ""
}

func shape(n ...int) (l [][]call) {
	types := []uint8{wire.Tread, wire.Twalk, wire.Tstat, wire.Twrite, wire.Topen, wire.Tclunk, wire.Tattach, wire.Tcreate, wire.Tversion}
	k := 0
	for _, m := range n {
		var cs []call
		for j := 0; j < m; j++ {
			f := ""
			if k%3 == 2 {
				f = fmt.Sprintf("error %d", k)
			}
			cs = append(cs, mk(types[k%len(types)], k, f))
			k++
		}
		l = append(l, cs)
	}
	return
}

// same type for all, so that a mixed-up reply decodes.
func shapeSame(n ...int) (l [][]call) {
	k := 0
	for _, m := range n {
		var cs []call
		for j := 0; j < m; j++ {
			cs = append(cs, mk(wire.Tread, k, ""))
			k++
		}
		l = append(l, cs)
	}
	return
}

type plan struct {
	name  string
	calls [][]call
	keep  int   // tags left; 0: all
	order []int // nil: prompt server
	one   bool
	bound int
	tags  bool // judge the pool afterwards
}

func (pl plan) scenario() xplore.Scenario {
	return xplore.Scenario{Name: pl.name, Bound: pl.bound, Make: func() *xplore.Inst {
		w := newWorld(pl.calls)
		w.oneConn = pl.one
		in := &xplore.Inst{}
		in.Setup = func(s *sched.S) {
			w.start(s, pl.keep)
			w.callers(s)
			if pl.order == nil {
				w.prompt(s)
			}
		}
		if pl.order != nil {
			in.Idle = w.order(pl.order)
		}
		in.Judge = func(s *sched.S, o *sched.Outcome) (string, string) {
			bad, seen := w.allAnswered(s, o)
			if bad == "" && pl.tags {
				n := pl.keep
				if n == 0 {
					n = supply(nil)
				}
				bad = w.tagsBack(s, n)
			}
			return bad, seen
		}
		return in
	}}
}

// Lighter lowers the deviation bounds by one.
var Lighter bool

func extra(c *kit.Ctx) int {
	if Lighter {
		return -1
	}
	if c.Thorough() {
		return 1
	}
	return 0
}

// C08: every call gets its own reply.
func C08(c *kit.Ctx) {
	begin(c)
	supply(c)
	x := extra(c)
	var l []plan
	add := func(pl plan) { l = append(l, pl) }
	for _, k := range []int{0, 1} {
		sh, nm := shape, "mixed"
		if k == 1 {
			sh, nm = shapeSame, "same"
		}
		add(plan{name: nm + " 1,1 prompt", calls: sh(1, 1), bound: 2 + x})
		add(plan{name: nm + " 1,1 prompt one tag", calls: sh(1, 1), keep: 1, bound: 2 + x})
		for _, o := range perms(2) {
			add(plan{name: fmt.Sprint(nm, " 1,1 order ", o), calls: sh(1, 1), order: o, bound: 2 + x})
			add(plan{name: fmt.Sprint(nm, " 2,2 order ", o), calls: sh(2, 2), order: o, bound: 1 + x})
			add(plan{name: fmt.Sprint(nm, " 2,2 two tags order ", o), calls: sh(2, 2), keep: 2, order: o, bound: 1 + x})
		}
		add(plan{name: nm + " 2,2 prompt", calls: sh(2, 2), bound: 1 + x})
		for _, o := range perms(3) {
			add(plan{name: fmt.Sprint(nm, " 1,1,1 order ", o), calls: sh(1, 1, 1), order: o, bound: 1 + x})
			add(plan{name: fmt.Sprint(nm, " 1,1,1 two tags order ", o), calls: sh(1, 1, 1), keep: 2, order: o, bound: 1})
		}
		add(plan{name: nm + " 1,1,1 prompt", calls: sh(1, 1, 1), bound: 1 + x})
	}
	// all pairs of call types, both reply orders, with and without errors
	for _, a := range srv.TTypes {
		for _, b := range srv.TTypes {
			for e := 0; e < 4; e++ {
				if e > 0 && sched.Racing {
					break // nothing new to the race detector
				}
				for _, o := range perms(2) {
					fa, fb := "", ""
					if e&1 != 0 {
						fa = "first failed"
					}
					if e&2 != 0 {
						fb = "%d second"
					}
					add(plan{name: fmt.Sprintf("types %d %d errors %d order %v", a, b, e, o), calls: [][]call{{mk(a, 0, fa)}, {mk(b, 1, fb)}}, order: o})
				}
			}
		}
	}
	for i, pl := range l {
		xplore.Explore(c, i, pl.scenario())
	}
	clients(c, 50000, x)
	floods(c, 60000, 0)
	Values(c, 100000)
}

// C09: tags.
func C09(c *kit.Ctx) {
	begin(c)
	supply(c)
	x := extra(c)
	var l []plan
	add := func(pl plan) { pl.tags = true; l = append(l, pl) }
	add(plan{name: "1,1 prompt", calls: shape(1, 1), bound: 1 + x})
	add(plan{name: "1,1 prompt one tag", calls: shape(1, 1), keep: 1, bound: 2 + x})
	add(plan{name: "2,2 prompt one tag", calls: shape(2, 2), keep: 1, bound: 1 + x})
	add(plan{name: "2,2 prompt two tags", calls: shape(2, 2), keep: 2, bound: 1 + x})
	add(plan{name: "1,1,1 prompt two tags", calls: shape(1, 1, 1), keep: 2, bound: 1 + x})
	add(plan{name: "2,2,2 prompt two tags", calls: shape(2, 2, 2), keep: 2, bound: 1})
	for _, o := range perms(2) {
		add(plan{name: fmt.Sprint("1,1 one tag order ", o), calls: shape(1, 1), keep: 1, order: o, bound: 2 + x})
		add(plan{name: fmt.Sprint("2,2 two tags order ", o), calls: shape(2, 2), keep: 2, order: o, bound: 1 + x})
	}
	for _, o := range perms(3) {
		for k := 1; k <= 3; k++ {
			add(plan{name: fmt.Sprint("1,1,1 ", k, " tags order ", o), calls: shape(1, 1, 1), keep: k, order: o, bound: 1})
			add(plan{name: fmt.Sprint("2,2,2 ", k, " tags order ", o), calls: shapeSame(2, 2, 2), keep: k, order: o, bound: x})
		}
	}
	for i, pl := range l {
		xplore.Explore(c, i, pl.scenario())
	}
	// more sequential calls than there are tags, the pool full or nearly empty
	for k, keep := range []int{0, 1, 3} {
		if !c.Case(1000+k, fmt.Sprint("sequential calls, tags left ", keep)) {
			continue
		}
		n := supply(nil) + 3000
		if keep > 0 {
			n = 5000
		}
		if bad := sequential(c, n, keep); bad != "" {
			c.Violate(bad, "")
		}
		c.Eval(n)
	}
	floods(c, 2000, 700)
	pool(c, 10000)
}

// sequential makes n calls in a row without controlling the schedule.
func sequential(c *kit.Ctx, n, keep int) (bad string) {
	x := mk(wire.Tread, 0, "")
	outcome := once(c, func(s *sched.S) {
		w := newWorld(nil)
		w.start(s, keep)
		last := 0
		serve := func() bool { return w.complete() }
		done := false
		s.Free(func() {
			go func() {
				for {
					sched.Block(serve)
					sched.Change(func() {
						b := w.out[w.parsed:]
						m, err := wire.Decode(b[:size(b)])
						if err != nil || m.Type != wire.Tread {
							w.bad("call %d: bad request % x", last, clip(b))
						} else if m.Tag == 0 || m.Tag == 0xffff || w.held[m.Tag] {
							w.bad("call %d uses tag %d", last, m.Tag)
						}
						w.parsed = 0
						w.out = w.out[:0]
						w.in = append(w.in[:0], x.reply(m.Tag)...)
						w.got = 0
					})
				}
			}()
			for last = 0; last < n; last++ {
				f, err := api.Call(w.c, x.m)
				if r := (result{f, err, true}); !r.ok(x) {
					w.bad("call %d returned %v, %v", last, f, err)
				}
				if w.wrong != "" {
					break
				}
			}
			done = true
		})
		bad = w.wrong
		if bad == "" && !done {
			bad = fmt.Sprintf("call %d of %d, one after the other, never returned", last, n)
		}
		if bad == "" {
			k := keep
			if k == 0 {
				k = supply(nil)
			}
			bad = w.tagsBack(s, k)
		}
	})
	if outcome != "" && bad == "" {
		bad = outcome
	}
	return
}
