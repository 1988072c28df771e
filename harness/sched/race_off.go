//go:build !race

package sched

import "unsafe"

// Racing says whether data races are being looked for.
const Racing = false

func off() {}
func on()  {}

// Acquire and Release are for the race detector.
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}

// Races is for the race detector.
func Races() int { return 0 }

// Transfer is for the race detector.
func Transfer(b []byte, write bool) {}
