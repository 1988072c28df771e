// Package mnet is an in-memory transport whose every answer the harness
// decides: how the bytes are cut into reads, when and how reading ends, at
// which byte writing fails.
package mnet

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"ninepverif/sched"
)

// ErrReset is a transport failure.
var ErrReset = errors.New("connection reset by peer")

// Conn is the side of a connection the code under test uses.
type Conn struct {
	mu      sync.Mutex
	cond    *sync.Cond
	segs    [][]byte
	end     error // what Read returns when the segments are used up; nil: block
	endWith bool  // return end together with the last bytes
	out     []byte
	writes  int
	wlimit  int // writing fails after that many bytes; -1: never
	closed  int
	Hook    func(op string, b []byte) // called at Read, Write and Close, before anything happens
	name    string

	// Empties makes each read of a segment be preceded by one that returns
	// nothing.
	Empties bool
	gave    bool

	rdl, wdl time.Time
}

// New makes a connection.
func New(name string) *Conn {
	c := &Conn{wlimit: -1, name: name}
	c.cond = sync.NewCond(&c.mu)
	return c
}

// Feed adds segments; each is returned by at least one Read of its own.
func (c *Conn) Feed(segs ...[]byte) {
	c.mu.Lock()
	for _, s := range segs {
		if len(s) > 0 {
			c.segs = append(c.segs, s)
		}
	}
	c.mu.Unlock()
	c.cond.Broadcast()
}

// End makes reads return err once the segments are used up, or together with
// the last bytes.
func (c *Conn) End(err error, with bool) {
	c.mu.Lock()
	c.end, c.endWith = err, with
	c.mu.Unlock()
	c.cond.Broadcast()
}

// FeedEnd adds a segment and the end of the stream at once.
func (c *Conn) FeedEnd(err error, with bool, b []byte) {
	c.mu.Lock()
	if len(b) > 0 {
		c.segs = append(c.segs, b)
	}
	c.end, c.endWith = err, with
	c.mu.Unlock()
	c.cond.Broadcast()
}

// LimitWrites makes writing fail after n bytes.
func (c *Conn) LimitWrites(n int) {
	c.mu.Lock()
	c.wlimit = n
	c.mu.Unlock()
}

// Take returns what was written since the last Take.
func (c *Conn) Take() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	o := c.out
	c.out = nil
	return o
}

// Written returns the number of Write calls.
func (c *Conn) Written() int { c.mu.Lock(); defer c.mu.Unlock(); return c.writes }

// Closed says whether the code under test closed the connection.
func (c *Conn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed > 0 }

// Unread is the number of bytes nobody read.
func (c *Conn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, s := range c.segs {
		n += len(s)
	}
	return n
}

func (c *Conn) Read(p []byte) (int, error) {
	if c.Hook != nil {
		c.Hook("read", nil)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed > 0 {
			return 0, net.ErrClosed
		}
		if past(c.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		if len(c.segs) > 0 {
			if len(p) == 0 {
				return 0, nil
			}
			if c.Empties && !c.gave {
				c.gave = true
				return 0, nil
			}
			c.gave = false
			n := copy(p, c.segs[0])
			if n > 0 {
				sched.Transfer(p[:n], true)
			}
			c.segs[0] = c.segs[0][n:]
			if len(c.segs[0]) == 0 {
				c.segs = c.segs[1:]
			}
			if len(c.segs) == 0 && c.end != nil && c.endWith {
				return n, c.end
			}
			return n, nil
		}
		if c.end != nil {
			return 0, c.end
		}
		c.cond.Wait()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.Hook != nil {
		c.Hook("write", p)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed > 0 {
		return 0, net.ErrClosed
	}
	if past(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	c.writes++
	n := len(p)
	if c.wlimit >= 0 && n > c.wlimit {
		n = c.wlimit
	}
	c.out = append(c.out, p[:n]...)
	if n > 0 {
		sched.Transfer(p[:n], false)
	}
	if c.wlimit >= 0 {
		c.wlimit -= n
	}
	if n < len(p) {
		return n, ErrReset
	}
	return n, nil
}

func (c *Conn) Close() error {
	if c.Hook != nil {
		c.Hook("close", nil)
	}
	c.mu.Lock()
	c.closed++
	n := c.closed
	c.mu.Unlock()
	c.cond.Broadcast()
	if n > 1 {
		return net.ErrClosed
	}
	return nil
}

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return addr("server") }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.name) }

func past(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), c.cond.Broadcast)
	}
	c.cond.Broadcast()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()
	return nil
}

var _ net.Conn = (*Conn)(nil)
var _ io.ReadWriteCloser = (*Conn)(nil)
