// Package bub runs a case inside a testing/synctest bubble, where waiting for
// quiescence is exact: Wait returns when every goroutine of the case is
// blocked for good on something only another goroutine of the case can change.
package bub

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	"ninepverif/sched"
)

// Run runs f as the root of a bubble. It returns the text of a deadlock
// panic: goroutines that can never go on were left when f returned.
func Run(t *testing.T, f func()) (leak string) {
	if !sched.Racing {
		return run(t, f)
	}
	// A race found, perhaps in the harness, fails the test, which ends the goroutine.
	done := make(chan any)
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				done <- r
			}
		}()
		leak = run(t, f)
	}()
	if r := <-done; r != nil {
		panic(r)
	}
	return
}

func run(t *testing.T, f func()) (leak string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "deadlock") {
				leak = s
				return
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(*testing.T) { f() })
	return ""
}

// Wait waits for quiescence.
func Wait() { synctest.Wait() }
