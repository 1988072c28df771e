package sched

import "unsafe"

var anyIO byte

// InputOutput tells the race detector of an operation on a transport: as with
// the real ones, operations on the same end are ordered, and everything before a
// write is before reads that come later anywhere. b is what it has transferred.
func InputOutput[T any](end *T, read bool, b []byte) {
	if !Racing {
		return
	}
	p := unsafe.Pointer(end)
	Acquire(p)
	Release(p)
	if read {
		Acquire(unsafe.Pointer(&anyIO))
	} else {
		Release(unsafe.Pointer(&anyIO))
	}
	if len(b) > 0 {
		Transfer(b, read)
	}
}
