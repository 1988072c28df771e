// Package sync stands in for the standard package of that name in
// instrumented code: locks that the scheduler sees.
package sync

import (
	"sync"
	"unsafe"

	"ninepverif/sched"
)

func acquire[T any](p *T) { sched.Acquire(unsafe.Pointer(p)) }
func release[T any](p *T) { sched.Release(unsafe.Pointer(p)) }

// Locker as in the standard package.
type Locker = sync.Locker

// Pool as in the standard package, but always handing out what was put back
// last.
type Pool struct {
	New func() any
	id  int64 // the execution the contents are from
	l   []any
}

// Get takes from the pool.
func (p *Pool) Get() (x any) {
	sched.Change(func() {
		if p.id == sched.ID() && len(p.l) > 0 {
			x = p.l[len(p.l)-1]
			p.l = p.l[:len(p.l)-1]
		}
	})
	if x == nil && p.New != nil {
		return p.New()
	}
	acquire(&p.id)
	return
}

// Put puts into the pool.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	release(&p.id)
	sched.Change(func() {
		if p.id != sched.ID() {
			p.id, p.l = sched.ID(), nil
		}
		p.l = append(p.l, x)
	})
}

// Mutex as in the standard package.
type Mutex struct{ held bool }

// Lock locks.
func (m *Mutex) Lock() {
	if !controlled() {
		for !m.TryLock() {
			yield()
		}
		return
	}
	for {
		sched.Block(func() bool { return !m.held })
		if m.TryLock() {
			return
		}
	}
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if !sched.Try(func() bool {
		if m.held {
			return false
		}
		m.held = true
		return true
	}) {
		return false
	}
	acquire(m)
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	release(m)
	bad := false
	sched.Change(func() {
		bad = !m.held
		m.held = false
	})
	if bad {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex as in the standard package; waiting writers keep new readers out.
type RWMutex struct {
	w       bool
	r       int
	waiting int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	sched.Change(func() { m.waiting++ })
	try := func() bool {
		return sched.Try(func() bool {
			if m.w || m.r > 0 {
				return false
			}
			m.w = true
			m.waiting--
			return true
		})
	}
	defer m.locked()
	if !controlled() {
		for !try() {
			yield()
		}
		return
	}
	for {
		sched.Block(func() bool { return !m.w && m.r == 0 })
		if try() {
			return
		}
	}
}

func (m *RWMutex) locked() { acquire(&m.w); acquire(&m.r) }

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if !sched.Try(func() bool {
		if m.w || m.r > 0 {
			return false
		}
		m.w = true
		return true
	}) {
		return false
	}
	m.locked()
	return true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	bad := false
	release(&m.w)
	sched.Change(func() { bad = !m.w; m.w = false })
	if bad {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if !controlled() {
		for !m.TryRLock() {
			yield()
		}
		return
	}
	for {
		sched.Block(func() bool { return !m.w && m.waiting == 0 })
		if m.TryRLock() {
			return
		}
	}
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if !sched.Try(func() bool {
		if m.w || m.waiting > 0 {
			return false
		}
		m.r++
		return true
	}) {
		return false
	}
	acquire(&m.w)
	return true
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	bad := false
	release(&m.r)
	sched.Change(func() { bad = m.r == 0; m.r-- })
	if bad {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in the standard package.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once as in the standard package.
type Once struct {
	m    Mutex
	done bool
}

// Do does f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc as in the standard package.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue as in the standard package.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// WaitGroup as in the standard package.
type WaitGroup struct{ n int }

// Add adds.
func (w *WaitGroup) Add(n int) {
	bad := false
	if n < 0 {
		release(w)
	}
	sched.Change(func() { w.n += n; bad = w.n < 0 })
	if bad {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	defer acquire(w)
	if !controlled() {
		for !sched.Try(func() bool { return w.n == 0 }) {
			yield()
		}
		return
	}
	sched.Block(func() bool { return w.n == 0 })
}

// Go runs f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond as in the standard package.
type Cond struct {
	L Locker
	q []*bool
}

// NewCond as in the standard package.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	f := new(bool)
	sched.Change(func() { c.q = append(c.q, f) })
	c.L.Unlock()
	if controlled() {
		sched.Block(func() bool { return *f })
	} else {
		for !sched.Try(func() bool { return *f }) {
			yield()
		}
	}
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	sched.Sync()
	sched.Change(func() {
		if len(c.q) > 0 {
			*c.q[0] = true
			c.q = c.q[1:]
		}
	})
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	sched.Sync()
	sched.Change(func() {
		for _, f := range c.q {
			*f = true
		}
		c.q = nil
	})
}
