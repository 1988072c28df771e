package sync

import "ninepverif/sched"

// Map as in the standard package, but ranged over in the order of insertion.
type Map struct {
	m map[any]*entry
	l []*entry
}

type entry struct{ k, v any }

// edit does f with the scheduler's lock held, and tells the race detector of the
// read and the write of the entry that f returns.
func (m *Map) edit(f func() (read, wrote *entry)) {
	var r, w *entry
	sched.Change(func() { r, w = f() })
	if r != nil {
		acquire(r)
	}
	if w != nil {
		release(w)
	}
}

func (m *Map) set(k, v any) *entry {
	e := m.m[k]
	if e == nil {
		if m.m == nil {
			m.m = make(map[any]*entry)
		}
		e = &entry{k: k}
		m.m[k] = e
		m.l = append(m.l, e)
	}
	e.v = v
	return e
}

func (m *Map) del(e *entry) {
	delete(m.m, e.k)
	for i, x := range m.l {
		if x == e {
			m.l = append(m.l[:i:i], m.l[i+1:]...)
			break
		}
	}
}

// Load reads.
func (m *Map) Load(k any) (v any, ok bool) {
	m.edit(func() (_, _ *entry) {
		e := m.m[k]
		if e != nil {
			v, ok = e.v, true
		}
		return e, nil
	})
	return
}

// Store writes.
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Clear empties.
func (m *Map) Clear() {
	m.edit(func() (_, _ *entry) {
		m.m, m.l = nil, nil
		return nil, nil
	})
}

// LoadOrStore reads, or writes if there is nothing.
func (m *Map) LoadOrStore(k, v any) (actual any, loaded bool) {
	m.edit(func() (_, _ *entry) {
		if e := m.m[k]; e != nil {
			actual, loaded = e.v, true
			return e, nil
		}
		actual = v
		return nil, m.set(k, v)
	})
	return
}

// LoadAndDelete reads and deletes.
func (m *Map) LoadAndDelete(k any) (v any, loaded bool) {
	m.edit(func() (_, _ *entry) {
		e := m.m[k]
		if e != nil {
			v, loaded = e.v, true
			m.del(e)
		}
		return e, nil
	})
	return
}

// Delete deletes.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Swap writes and returns what there was.
func (m *Map) Swap(k, v any) (previous any, loaded bool) {
	m.edit(func() (_, _ *entry) {
		e := m.m[k]
		if e != nil {
			previous, loaded = e.v, true
		}
		return e, m.set(k, v)
	})
	return
}

// CompareAndSwap writes if there is old.
func (m *Map) CompareAndSwap(k, old, new any) (swapped bool) {
	m.edit(func() (_, _ *entry) {
		e := m.m[k]
		if e == nil || e.v != old {
			return e, nil
		}
		swapped = true
		return e, m.set(k, new)
	})
	return
}

// CompareAndDelete deletes if there is old.
func (m *Map) CompareAndDelete(k, old any) (deleted bool) {
	m.edit(func() (_, _ *entry) {
		e := m.m[k]
		if e == nil || e.v != old {
			return e, nil
		}
		deleted = true
		m.del(e)
		return e, nil
	})
	return
}

// Range goes through what there is at the start, and still is.
func (m *Map) Range(f func(k, v any) bool) {
	var l []*entry
	sched.Change(func() { l = append(l, m.l...) })
	for _, e := range l {
		v, ok := m.Load(e.k)
		if ok && !f(e.k, v) {
			break
		}
	}
}
