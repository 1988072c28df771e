package ufsx

import (
	"flag"
	"fmt"
	"strings"

	"ninepverif/kit"
	"ninepverif/wire"
)

// Debug runs conversations with ufs, with and without its -debug flag: the
// replies and the files must be the same.
func Debug(c *kit.Ctx, base int) {
	l := newLab(c)
	defer flag.Set("debug", "0")
	var al []op
	for _, f := range []uint32{0, 1} {
		al = append(al, op{t: wire.Tclunk, f: f}, op{t: wire.Tremove, f: f}, op{t: wire.Topen, f: f}, op{t: wire.Topen, f: f, mode: 0x12},
			op{t: wire.Tcreate, f: f, name: "n", perm: 0640, mode: 2}, op{t: wire.Tcreate, f: f, name: "m", perm: 0x80000000 | 0750}, op{t: wire.Tread, f: f}, op{t: wire.Twrite, f: f}, op{t: wire.Tstat, f: f}, op{t: wire.Twstat, f: f, name: "z"})
	}
	for _, w := range [][]string{nil, {"a"}, {"d"}, {"d", "x"}, {"d", "nope"}, {".."}} {
		al = append(al, op{t: wire.Twalk, f: 0, g: 1, names: w}, op{t: wire.Twalk, f: 1, g: 1, names: w})
	}
	al = append(al, op{t: wire.Tattach, f: 1}, op{t: wire.Tattach, f: 1, afid: 3})
	depth := 3
	idx := base
	seq(al, depth, func(s []op) {
		idx++
		if !c.Mine(idx) || !c.Case(idx, fmt.Sprintf("ufs -debug %v", s)) {
			return
		}
		var logs [2]string
		for k := range logs {
			l.fresh(lifeTree())
			must(flag.Set("debug", fmt.Sprint(k)))
			var log []string
			l.run(func() {
				x := dial(listen())
				defer x.end()
				x.version()
				x.attach(0, "")
				x.walk(0, 1, "d")
				for _, o := range s {
					m := o.send(x)
					r := plain(o, m)
					if o.t == wire.Tread && ok(m) {
						r = fmt.Sprintf("%d bytes", len(data(m)))
					}
					if m.Type == wire.Rerror {
						r = m.F[0].(string)
					}
					log = append(log, fmt.Sprintf("%v => %s %s", o, r, x.dead))
				}
				log = append(log, diff(look(l.root), tree{}))
			})
			l.clean()
			logs[k] = strings.Join(log, "\n")
		}
		c.Distinct("nontrivial", logs[0])
		if logs[0] != logs[1] {
			c.Violate("ufs behaves differently with -debug", "without:\n%s\nwith:\n%s", logs[0], logs[1])
		}
	})
}
