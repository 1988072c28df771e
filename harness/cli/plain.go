package cli

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
	"ninepverif/kit"
)

// plainClient is a client outside of any controlled execution; nobody answers it.
func plainClient() (c *p.Client, end func()) {
	fr, fw := io.Pipe()
	tr, tw := io.Pipe()
	go io.Copy(io.Discard, tr)
	c, err := p.NewClient(func(c *p.Client) error {
		c.FromNet, c.ToNet = fr, tw
		return nil
	})
	if err != nil {
		panic(err)
	}
	return c, func() {
		fw.Close()
		tw.Close()
		fr.Close()
		tr.Close()
		// Nothing of it may go on while the next case runs.
		for n, quiet := 0, 0; quiet < 50; quiet++ {
			time.Sleep(time.Millisecond)
			if m := runtime.NumGoroutine(); m != n {
				n, quiet = m, 0
			}
		}
	}
}

// plain is the part of C13 that needs length instead of interleavings: very many
// file identifiers of one client, and tags kept while the garbage collector runs.
func plain(c *kit.Ctx) {
	if c.Case(1, "tags and the garbage collector") {
		cl, end := plainClient()
		got := make(chan uint16, 1<<17)
		go func() {
			for {
				got <- uint16(cl.GetTag())
			}
		}()
		held := make([]bool, 1<<16)
		n := 0
		for quiet := 0; quiet < 30 && !c.Violated(); {
			select {
			case t := <-got:
				quiet = 0
				n++
				if t == 0 || t == 0xffff {
					c.Violate("GetTag returned a reserved tag", "%d", t)
				} else if held[t] {
					c.Violate("a tag that is in use was handed out again", "tag %d, after %d tags had been taken and the garbage collector had run", t, n-1)
				}
				held[t] = true
			default:
				quiet++
				runtime.GC()
				time.Sleep(2 * time.Millisecond)
			}
		}
		end()
		c.Eval(1)
	}
	n := 1 << 28
	if c.Thorough() {
		n = 1<<32 - 2
	}
	if c.Case(2, "many file identifiers") {
		cl, end := plainClient()
		seen := make([]uint64, 1<<26)
		for i := 0; i < n; i++ {
			f := uint32(cl.GetFID())
			if f == 0xffffffff {
				c.Violate("GetFID returned the reserved value", "as number %d", i)
				break
			}
			if seen[f>>6]&(1<<(f&63)) != 0 {
				c.Violate("two requests for a file identifier returned the same", "%d, the second time as number %d", f, i)
				break
			}
			seen[f>>6] |= 1 << (f & 63)
			if i&(1<<22-1) == 0 {
				c.Set("many file identifiers")
				if c.Tick() {
					break
				}
			}
		}
		c.Count("file_identifiers", n)
		c.Eval(1)
		end()
		seen = nil
		runtime.GC()
	}
	for _, to := range []uint64{1 << 15, 1 << 16, 1 << 24, 1 << 29, 1 << 30, 1 << 31, 3 << 30, 1<<32 - 102} {
		if c.Case(2, fmt.Sprintf("file identifiers around %d", to)) {
			jump(c, to)
			c.Eval(1)
		}
	}
}

// at returns a client in the state it has after so many more identifiers that
// the next one is next, if the client counts identifiers in a field.
func at(next uint64) (*p.Client, func(), bool) {
	cl, end := plainClient()
	v := reflect.ValueOf(cl).Elem().FieldByName("FID")
	if !v.IsValid() || !v.CanSet() || !v.CanUint() {
		return cl, end, false
	}
	var f uint64
	for i := 0; i < 300; i++ {
		n0, f0 := v.Uint(), f
		if f = uint64(cl.GetFID()); i > 0 && (v.Uint() != n0+1 || f != f0+1) {
			return cl, end, false
		}
	}
	if next > f+1 {
		v.SetUint(v.Uint() + next - f - 1)
	}
	return cl, end, true
}

// jump looks at the identifiers around a number, without asking for all the
// ones before.
func jump(c *kit.Ctx, to uint64) {
	cl, end, good := at(to - 100)
	defer end()
	if !good {
		return
	}
	seen := map[uint64]bool{}
	for i := 0; i < 200; i++ {
		f := uint64(uint32(cl.GetFID()))
		if f == 0xffffffff {
			c.Violate("GetFID returned the reserved value", "around %d", to)
			return
		}
		again := seen[f]
		if f < to-100 {
			// Unless nobody got it before.
			b, end, _ := at(f)
			for i := 0; i < 1000 && !again; i++ {
				again = uint64(uint32(b.GetFID())) == f
			}
			end()
			b, end = plainClient()
			for i := 0; i < 1000 && !again; i++ {
				again = uint64(uint32(b.GetFID())) == f
			}
			end()
		}
		if again {
			c.Violate("two requests for a file identifier returned the same", "%d, the second time around number %d", f, to)
			return
		}
		seen[f] = true
	}
	c.Distinct("nontrivial", fmt.Sprint("jump ", to))
}
