// Package xplore enumerates the schedules of a scenario: depth-first over the
// decisions of package sched, all schedules with at most Bound deviations from
// the default scheduler (keep running the thread that ran last; else the
// first). Every deviation, preemptive or not, counts one.
package xplore

import (
	"fmt"
	"strconv"
	"strings"

	"ninepverif/bub"
	"ninepverif/kit"
	"ninepverif/sched"
)

// Inst is a fresh instance of a scenario, for one execution.
type Inst struct {
	Setup func(s *sched.S)
	Idle  func(s *sched.S) bool
	// Judge returns what is wrong, or "", and what was observed (to count distinct outcomes).
	Judge func(s *sched.S, o *sched.Outcome) (bad, seen string)
}

// Scenario to explore.
type Scenario struct {
	Name     string
	Bound    int
	MaxSteps int
	Make     func() *Inst
}

func key(name string, ch []int) string {
	s := name + "|"
	last := len(ch)
	for last > 0 && ch[last-1] == 0 {
		last--
	}
	for i, c := range ch[:last] {
		if i > 0 {
			s += "."
		}
		s += strconv.Itoa(c)
	}
	return s
}

// One runs one schedule.
func One(c *kit.Ctx, sc *Scenario, prefix []int, judged bool) (o sched.Outcome) {
	k := key(sc.Name, prefix)
	c.Set(k)
	bad, seen := once(c, sc, prefix, false, &o)
	for i := 0; o.Diverged && i < 200; i++ { // e.g. the order of a map
		c.Count("retries", 1)
		bad, seen = once(c, sc, prefix, false, &o)
	}
	if !judged {
		return
	}
	c.Eval(1)
	c.Count("steps", o.Steps)
	c.Max("decisions", len(o.Points))
	c.Distinct("outcomes", sc.Name+seen)
	if len(o.Points) > 0 {
		c.Distinct("nontrivial", k)
	}
	if o.Steps%7 == 0 {
		c.Sample(k + " => " + seen)
	}
	if o.Diverged {
		c.Count("divergences", 1)
		c.Cap()
		return
	}
	if bad != "" {
		var o2 sched.Outcome
		b2, _ := once(c, sc, prefix, true, &o2)
		tr := o2.Trace
		if len(tr) > 60 {
			tr = tr[len(tr)-60:]
		}
		c.Violate(bad, "second run of the same schedule: %q\nschedule (end):\n%s", b2, strings.Join(tr, "\n"))
	}
	return
}

func once(c *kit.Ctx, sc *Scenario, prefix []int, tracing bool, out *sched.Outcome) (bad, seen string) {
	races(c) // forget what happened when the last execution was torn down
	leak := bub.Run(c.T, func() {
		in := sc.Make()
		max := sc.MaxSteps
		if max == 0 {
			max = 6000
		}
		*out = sched.Control(prefix, max, tracing, in.Setup, in.Idle, func(s *sched.S, o *sched.Outcome) {
			if o.Diverged {
				return
			}
			if len(o.Panics) > 0 {
				bad = "a goroutine panicked: " + o.Panics[0]
				return
			}
			bad, seen = in.Judge(s, o)
			if bad == "" {
				bad = races(c)
			}
		})
	})
	if leak != "" {
		c.Count("leaky_executions", 1)
	}
	return
}

// Explore enumerates. idx numbers scenarios, for sharding.
func Explore(c *kit.Ctx, idx int, sc Scenario) {
	if only := c.Only(); only != "" {
		if !strings.HasPrefix(only, sc.Name+"|") {
			return
		}
		var ch []int
		if r := strings.TrimPrefix(only, sc.Name+"|"); r != "" {
			for _, f := range strings.Split(r, ".") {
				n, err := strconv.Atoi(f)
				if err != nil {
					return
				}
				ch = append(ch, n)
			}
		}
		One(c, &sc, ch, true)
		return
	}
	if c.Done() {
		return
	}
	if sc.Bound == 0 {
		if c.Mine(idx) {
			c.Count("cases", 1)
			One(c, &sc, nil, true)
		}
		return
	}
	// The default schedule is run by every shard, judged by one; then each
	// single deviation from it starts a subtree, which belongs to one shard.
	root := One(c, &sc, nil, c.Mine(idx))
	if c.Violated() || root.Diverged {
		return
	}
	c.Count("cases", 1)
	sub := 0
	for i, p := range root.Points {
		for alt := 1; alt < p.N; alt++ {
			sub++
			if !c.Mine(idx*7919 + sub) {
				continue
			}
			ch := make([]int, i+1)
			ch[i] = alt
			explore(c, &sc, ch, 1)
			if c.Done() {
				return
			}
		}
	}
}

func explore(c *kit.Ctx, sc *Scenario, prefix []int, cost int) {
	if c.Tick() {
		return
	}
	o := One(c, sc, prefix, true)
	if c.Violated() || o.Diverged || cost >= sc.Bound {
		return
	}
	for i := len(prefix); i < len(o.Points); i++ {
		for alt := 1; alt < o.Points[i].N; alt++ {
			ch := make([]int, i+1)
			copy(ch, prefix)
			ch[i] = alt
			explore(c, sc, ch, cost+1)
			if c.Done() {
				return
			}
		}
	}
}

// Describe is for rules.
func Describe(b int) string { return fmt.Sprintf("at most %d deviations", b) }
