//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// Racing says whether data races are being looked for.
const Racing = true

// off makes the race detector ignore the scheduler's own synchronisation by
// this goroutine, which the code under test would not have; on undoes it.
func off() { runtime.RaceDisable() }
func on()  { runtime.RaceEnable() }

// Acquire and Release are what synchronisation stand-ins tell the race
// detector.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Races is the number of reports so far.
func Races() int { return runtime.RaceErrors() }

// Transfer tells the race detector that b is written or read.
//
//go:noinline
func Transfer(b []byte, write bool) {
	if write {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	} else {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
