package api

import (
	"unsafe"

	"ninepverif/sched"
)

// Tally is what a transport keeps for itself: a count, guarded as if by a lock of its own.
type Tally struct{ n int }

// Do counts.
func (o *Tally) Do() {
	p := unsafe.Pointer(o)
	sched.Acquire(p)
	o.n++
	sched.Release(p)
}
