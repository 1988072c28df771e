package api

import (
	"fmt"
	"io"
	"sync/atomic"

	"ninepverif/sched"

	p "github.com/Harvey-OS/ninep/protocol"
)

// Tracing says whether clients and listeners get a trace function. It formats
// what it is given, as any would, and throws it away.
var Tracing bool

// Traced counts what was traced.
var Traced atomic.Int64

func trace(f string, a ...any) {
	if !sched.Racing { // it would order the callers
		Traced.Add(1)
	}
	fmt.Fprintf(io.Discard, f, a...)
}

// TraceClient is an option for clients.
func TraceClient(c *p.Client) error {
	if Tracing {
		c.Trace = trace
	}
	return nil
}

// TraceListener is an option for listeners.
func TraceListener(l *p.Listener) error {
	if Tracing {
		l.Trace = trace
	}
	return nil
}
