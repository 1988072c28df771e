// Package sched is a controlled scheduler for stateless exploration of the
// real code. Instrumented code (see package instr) calls it before every
// channel, lock, atomic and shared-field operation; inside a synctest bubble
// the controller waits until every goroutine of the execution is parked at
// such a point or blocked for good, and then lets exactly one of them go on.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

// S is one execution.
type S struct {
	id      int64
	mu      sync.Mutex
	list    []*thread
	waiters []*waiter
	joined  byte // everything threads have done, for the race detector
	abort   chan struct{}
	aborted bool
	active  atomic.Bool
	panics  []string
	last    *thread
	steps   int
	run     int // steps the last thread has run in a row
	// Choices taken and alternatives there were, in order, where there was
	// more than one.
	Points  []Point_
	Trace   []string
	tracing bool
	free    bool // the schedule is not controlled
	quiet   atomic.Bool
	// for Point; used by the one thread that runs
	epoch   atomic.Int64
	sites   [1024]site
	skipped int
	alone   int // steps with only one thread enabled
}

type site struct {
	epoch int64
	n     int
}

// Point_ is a scheduling decision.
type Point_ struct {
	N      int // enabled threads
	Choice int
}

type thread struct {
	id     int
	g      uint64
	name   string
	gate   chan struct{}
	parked bool
	done   bool
	kids   int
	at     string
}

type waiter struct {
	cond func() bool
	ch   chan struct{}
}

var none sync.Mutex // outside of executions

var cur atomic.Pointer[S]

var ids atomic.Int64

// ID is a number of the execution, 0 if there is none.
func ID() int64 {
	if s := cur.Load(); s != nil {
		return s.id
	}
	return 0
}

// After1 passes on the result of a call to the host, with a scheduling point
// after it.
func After1[A any](a A) A { Sync(); return a }

// After2 is After1 for two results.
func After2[A, B any](a A, b B) (A, B) { Sync(); return a, b }

// After3 is After1 for three results.
func After3[A, B, C any](a A, b B, c C) (A, B, C) { Sync(); return a, b, c }

// Active says whether an execution is being controlled.
func Active() bool { s := cur.Load(); return s != nil && s.active.Load() }

// Running says whether there is an execution at all.
func Running() bool { return cur.Load() != nil }

func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for i := 10; i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}

func (s *S) me() *thread {
	off()
	defer on()
	g := goid()
	s.mu.Lock()
	var t *thread
	for _, x := range s.list {
		if x.g == g {
			t = x
		}
	}
	s.mu.Unlock()
	return t
}

// park waits at the gate until the controller says go.
func (s *S) park(t *thread) {
	Release(unsafe.Pointer(&s.joined))
	off()
	defer on()
	s.mu.Lock()
	if s.aborted {
		s.mu.Unlock()
		runtime.Goexit()
	}
	t.parked = true
	if s.tracing {
		t.at = where()
	}
	s.mu.Unlock()
	select {
	case <-t.gate:
	case <-s.abort:
		runtime.Goexit()
	}
}

func where() string {
	var pc [16]uintptr
	n := runtime.Callers(3, pc[:])
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "ninepverif/sched") {
			return fmt.Sprintf("%s:%d", f.Function[strings.LastIndex(f.Function, "/")+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// A site is passed at most so many times in a row, with no other thread
// running and no channel or lock operation in between, before passing it is
// no longer a scheduling point: loops over large tables.
const passes = 8

// Point is a scheduling point before an access to shared data at a site.
func Point(site int) {
	off()
	defer on()
	s := cur.Load()
	if s == nil {
		return
	}
	if !s.active.Load() || s.quiet.Load() {
		return
	}
	e := s.epoch.Load()
	if x := &s.sites[site%len(s.sites)]; x.epoch != e {
		x.epoch, x.n = e, 0
	} else if x.n++; x.n >= passes && s.skipped < 1<<26 {
		s.skipped++
		return
	}
	if t := s.me(); t != nil {
		s.park(t)
	}
}

// Sync is a scheduling point before an atomic operation.
func Sync() {
	off()
	defer on()
	s := cur.Load()
	if s == nil || !s.active.Load() || s.quiet.Load() {
		return
	}
	s.epoch.Add(1)
	if t := s.me(); t != nil {
		s.park(t)
	}
}

// self is what blocking operations need: the execution and the calling
// thread, both nil if not controlled.
func self() (*S, *thread) {
	off()
	defer on()
	s := cur.Load()
	if s == nil {
		return nil, nil
	}
	s.epoch.Add(1)
	return s, s.me()
}

// Go starts a thread.
func Go(f func()) { spawn("", f) }

func spawn(name string, f func()) {
	s, parent := self()
	if s == nil {
		go f()
		return
	}
	if name == "" {
		if parent != nil {
			name = parent.name + "." + strconv.Itoa(parent.kids)
			parent.kids++
		} else {
			name = "g"
		}
	}
	off()
	s.mu.Lock()
	if s.aborted {
		s.mu.Unlock()
		on()
		return
	}
	t := &thread{id: len(s.list), name: name, gate: make(chan struct{})}
	s.list = append(s.list, t)
	s.mu.Unlock()
	on()
	go func() {
		g := goid()
		off()
		s.mu.Lock()
		t.g = g
		s.mu.Unlock()
		on()
		defer func() {
			r := recover()
			Release(unsafe.Pointer(&s.joined))
			off()
			defer on()
			s.mu.Lock()
			if r != nil {
				s.panics = append(s.panics, fmt.Sprintf("%s: panic: %v\n%s", t.name, r, debug.Stack()))
			}
			t.done = true
			t.g = 0
			s.changedLocked()
			s.mu.Unlock()
		}()
		if !s.free {
			s.park(t)
		}
		f()
	}()
}

// Thread starts a named thread of the harness.
func (s *S) Thread(name string, f func()) { spawn(name, f) }

// Send sends.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if s := cur.Load(); s == nil || !s.active.Load() {
			select {
			case ch <- v:
				return
			default:
			}
		}
		s, t := self()
		if t == nil {
			if s == nil {
				ch <- v
				return
			}
			select {
			case ch <- v:
			case <-s.abort:
				runtime.Goexit()
			}
			return
		}
		if s.active.Load() {
			s.park(t)
		}
		select {
		case ch <- v:
			return
		default:
		}
		select {
		case ch <- v:
		case <-s.abort:
			runtime.Goexit()
		}
		s.woke(t)
	}
}

func (s *S) woke(t *thread) {
	if s.active.Load() {
		s.park(t)
	}
}

// Recv receives.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 receives.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if s := cur.Load(); s == nil || !s.active.Load() {
		select {
		case v, ok = <-ch:
			return
		default:
		}
	}
	s, t := self()
	if t == nil {
		if s == nil {
			v, ok = <-ch
			return
		}
		select {
		case v, ok = <-ch:
		case <-s.abort:
			runtime.Goexit()
		}
		return
	}
	if s.active.Load() {
		s.park(t)
	}
	select {
	case v, ok = <-ch:
		return
	default:
	}
	select {
	case v, ok = <-ch:
	case <-s.abort:
		runtime.Goexit()
	}
	s.woke(t)
	return
}

// Done is a channel that is closed when the execution is over; nil if there
// is none.
func Done() <-chan struct{} {
	s, _ := self()
	if s == nil {
		return nil
	}
	return s.abort
}

// Exit ends the calling thread of an execution that is over.
func Exit() { runtime.Goexit() }

// Block waits until cond holds. cond is evaluated under the scheduler's lock
// and must only look at state that is changed inside Change.
func Block(cond func() bool) {
	s, t := self()
	if s == nil {
		panic("sched.Block outside of an execution")
	}
	if t != nil && s.active.Load() {
		s.park(t)
	}
	for {
		if s.wait(cond) {
			return
		}
		if t != nil {
			s.woke(t)
		}
	}
}

// wait says that cond holds, or waits until it may hold.
func (s *S) wait(cond func() bool) bool {
	Release(unsafe.Pointer(&s.joined))
	off()
	defer on()
	s.mu.Lock()
	if s.aborted {
		s.mu.Unlock()
		runtime.Goexit()
	}
	if cond() {
		s.mu.Unlock()
		return true
	}
	w := &waiter{cond, make(chan struct{})}
	s.waiters = append(s.waiters, w)
	s.mu.Unlock()
	select {
	case <-w.ch:
	case <-s.abort:
		runtime.Goexit()
	}
	return false
}

// Change changes state that Block looks at.
func Change(f func()) {
	off()
	defer on()
	s := cur.Load()
	if s == nil {
		none.Lock()
		defer none.Unlock()
		f()
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	f()
	s.changedLocked()
}

// Try changes state if f says so, without waiting.
func Try(f func() bool) bool {
	off()
	defer on()
	s := cur.Load()
	if s == nil {
		none.Lock()
		defer none.Unlock()
		return f()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if f() {
		s.changedLocked()
		return true
	}
	return false
}

func (s *S) changedLocked() {
	n := 0
	for _, w := range s.waiters {
		if w.cond() {
			close(w.ch)
		} else {
			s.waiters[n] = w
			n++
		}
	}
	s.waiters = s.waiters[:n]
}

// Outcome of an execution.
type Outcome struct {
	Points   []Point_
	Panics   []string
	Stuck    []string // threads that have not ended
	Steps    int
	Diverged bool // a prefix choice was not available
	Overrun  bool // the step limit was reached
	Trace    []string
}

// Control is called from the root of a bubble. setup starts the threads;
// then the schedule is controlled: the first choices are prefix, later ones
// are the default, which is the thread that ran last or else the first. When
// no thread can run, idle is asked whether to go on (it may let time pass or
// start threads); then the execution is ended. live tells which threads may
// stay: others that have not ended are reported as stuck. judge is called
// before the execution is torn down.
func Control(prefix []int, maxSteps int, tracing bool, setup func(s *S), idle func(s *S) bool, judge func(s *S, o *Outcome)) (o Outcome) {
	s := &S{id: ids.Add(1), list: make([]*thread, 0, 256), waiters: make([]*waiter, 0, 256), abort: make(chan struct{}), tracing: tracing}
	cur.Store(s)
	setup(s)
	s.active.Store(true)
	for {
		synctest.Wait()
		s.mu.Lock()
		var en []*thread
		// the thread that ran last comes first, unless it has been running for too long
		fair := s.run >= 400
		if s.last != nil && s.last.parked && !fair {
			en = append(en, s.last)
		}
		for _, t := range s.list {
			if t.parked && t != s.last {
				en = append(en, t)
			}
		}
		if s.last != nil && s.last.parked && fair {
			// round robin: those after it first
			var after, before []*thread
			for _, t := range en {
				if t.id > s.last.id {
					after = append(after, t)
				} else {
					before = append(before, t)
				}
			}
			en = append(after, before...)
			en = append(en, s.last)
		}
		np := len(s.panics)
		s.mu.Unlock()
		if np > 0 {
			break
		}
		if len(en) == 0 {
			if idle != nil && idle(s) {
				continue
			}
			break
		}
		// A thread that runs alone may need many steps.
		if len(en) == 1 {
			s.alone++
		}
		if s.steps-s.alone >= maxSteps || s.alone >= 100*maxSteps {
			o.Overrun = true
			break
		}
		k := 0
		if len(en) > 1 && !s.quiet.Load() {
			if n := len(s.Points); n < len(prefix) {
				k = prefix[n]
				if k >= len(en) {
					o.Diverged = true
					break
				}
			}
			s.Points = append(s.Points, Point_{len(en), k})
		}
		t := en[k]
		s.steps++
		if s.tracing {
			s.Trace = append(s.Trace, fmt.Sprintf("%s at %s (of %d)", t.name, t.at, len(en)))
		}
		if s.last == t {
			s.run++
		} else {
			s.run = 0
			s.epoch.Add(1)
		}
		s.last = t
		s.mu.Lock()
		t.parked = false
		s.mu.Unlock()
		t.gate <- struct{}{}
	}
	synctest.Wait()
	s.mu.Lock()
	for _, t := range s.list {
		if !t.done {
			o.Stuck = append(o.Stuck, t.name)
		}
	}
	o.Panics = s.panics
	o.Points, o.Steps, o.Trace = s.Points, s.steps, s.Trace
	s.mu.Unlock()
	s.active.Store(false)
	Acquire(unsafe.Pointer(&s.joined))
	judge(s, &o)
	s.mu.Lock()
	s.aborted = true
	close(s.abort)
	s.mu.Unlock()
	synctest.Wait()
	cur.CompareAndSwap(s, nil)
	return o
}

// Uncontrolled runs f, at the root of a bubble, as an execution whose threads
// run as they like, and returns their panics.
func Uncontrolled(f func(s *S)) []string {
	s := &S{id: ids.Add(1), list: make([]*thread, 0, 256), waiters: make([]*waiter, 0, 256), abort: make(chan struct{}), free: true}
	cur.Store(s)
	f(s)
	s.mu.Lock()
	s.aborted = true
	close(s.abort)
	s.mu.Unlock()
	synctest.Wait()
	cur.CompareAndSwap(s, nil)
	return s.panics
}

// Quiet makes the default choice the only one, and only operations that may
// block scheduling points, until it is called with false.
func (s *S) Quiet(q bool) {
	off()
	defer on()
	s.quiet.Store(q)
}

// Ended says whether the named thread has ended.
func (s *S) Ended(name string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, t := range s.list {
		if t.name == name {
			return t.done
		}
	}
	return false
}

// Free runs f in a goroutine that is not scheduled, with scheduling off, and
// says whether it came to an end. For setup, idle and judge functions.
func (s *S) Free(f func()) bool {
	off()
	was := s.active.Swap(false)
	on()
	defer func() {
		off()
		s.active.Store(was)
		on()
	}()
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	synctest.Wait()
	select {
	case <-done:
		return true
	default:
		return false
	}
}

// Sleep lets fake time pass; for idle functions.
func Sleep(d time.Duration) { time.Sleep(d) }
