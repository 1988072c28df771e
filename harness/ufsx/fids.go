package ufsx

import (
	"fmt"
	"runtime"
	"strings"

	"ninepverif/kit"
	"ninepverif/wire"
)

func lifeTree() tree {
	return tree{
		"":    {dir: true, perm: 0755},
		"a":   {perm: 0644, data: "contents of a"},
		"d":   {dir: true, perm: 0751},
		"d/x": {perm: 0600, data: "x"},
		"d/e": {dir: true, perm: 0711},
	}
}

// C16: life cycle of file identifiers.
func C16(c *kit.Ctx) {
	fids := []uint32{0, 1, 2}
	const unknown = 9
	var ops []op
	add := func(o ...op) { ops = append(ops, o...) }
	for _, f := range fids {
		add(op{t: wire.Tattach, f: f, name: ""})
		add(op{t: wire.Tclunk, f: f}, op{t: wire.Tremove, f: f}, op{t: wire.Topen, f: f, mode: 0}, op{t: wire.Topen, f: f, mode: 2})
		add(op{t: wire.Tread, f: f}, op{t: wire.Twrite, f: f}, op{t: wire.Tstat, f: f})
		add(op{t: wire.Tcreate, f: f, name: "n", perm: 0640, mode: 1})
	}
	add(op{t: wire.Tattach, f: 0, name: "d"}, op{t: wire.Tattach, f: 1, name: "nope"}, op{t: wire.Tattach, f: 1, name: "", afid: 1}, op{t: wire.Tattach, f: 0, name: "/d/../a"})
	walks := [][]string{nil, {"a"}, {"d"}, {"d", "x"}, {"d", "e"}, {"nope"}, {"d", "nope"}, {"d", "e", "nope", "x"}, {"a", "x"}, {".."}, {"d", "..", "a"}, {"x"}}
	for _, f := range fids {
		for _, g := range fids {
			for _, w := range walks {
				add(op{t: wire.Twalk, f: f, g: g, names: w})
			}
		}
	}
	u := uint32(unknown)
	add(op{t: wire.Twalk, f: u, g: 1}, op{t: wire.Twalk, f: u, g: 1, names: []string{"a"}}, op{t: wire.Twalk, f: u, g: u}, op{t: wire.Twalk, f: u, g: u, names: []string{"a"}},
		op{t: wire.Tclunk, f: u}, op{t: wire.Tremove, f: u}, op{t: wire.Topen, f: u}, op{t: wire.Tread, f: u}, op{t: wire.Twrite, f: u}, op{t: wire.Tstat, f: u},
		op{t: wire.Tcreate, f: u, name: "n", perm: 0640, mode: 1}, op{t: wire.Twstat, f: u, name: "m"}, op{t: wire.Tclunk, f: nofid}, op{t: wire.Topen, f: nofid})
	d := 4
	if c.Thorough() {
		d = 5
	}
	all := append(append([]uint32{}, fids...), unknown)
	bfs(c, "life", space{init: lifeTree(), ops: ops, depth: d, judge: func(l *lab, s *sess, end *state) string {
		if r := probe(s, end, all); r != "" {
			return r
		}
		if r := diff(look(l.root), end.t); r != "" {
			return "host files: " + r
		}
		return ends(s, end, all)
	}})
	// All sequences, whatever the model takes for the same state.
	pd := 4
	if c.Thorough() {
		pd = 5
	}
	paths(c, "lives", space{init: lifeTree(), judge: func(l *lab, s *sess, end *state) string {
		if r := probe(s, end, all); r != "" {
			return r
		}
		if r := diff(look(l.root), end.t); r != "" {
			return "host files: " + r
		}
		return ends(s, end, all)
	}}, []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: []string{"d"}}, {t: wire.Twalk, f: 0, g: 2, names: []string{"a"}}}, []op{
		{t: wire.Topen, f: 1}, {t: wire.Topen, f: 2, mode: 2}, {t: wire.Tclunk, f: 1}, {t: wire.Tclunk, f: 2}, {t: wire.Tremove, f: 2},
		{t: wire.Twalk, f: 0, g: 1, names: []string{"a"}}, {t: wire.Twalk, f: 1, g: 2, names: []string{"x"}}, {t: wire.Twalk, f: 1, g: 1, names: []string{"x"}}, {t: wire.Twalk, f: 1, g: 1, names: []string{"e", "nope"}}, {t: wire.Twalk, f: 2, g: 2},
		{t: wire.Twalk, f: 1, g: 2}, {t: wire.Twalk, f: 0, g: 2, names: []string{"d", "nope"}}, {t: wire.Tcreate, f: 1, name: "n", perm: 0640, mode: 2}, {t: wire.Tread, f: 2}, {t: wire.Twrite, f: 2}, {t: wire.Tattach, f: 1},
	}, pd)
	// Deeper, with a smaller alphabet: two identifiers and the requests that
	// change something.
	var few []op
	for _, f := range []uint32{0, 1} {
		few = append(few, op{t: wire.Tattach, f: f}, op{t: wire.Tclunk, f: f}, op{t: wire.Tremove, f: f}, op{t: wire.Topen, f: f}, op{t: wire.Topen, f: f, mode: 1}, op{t: wire.Tcreate, f: f, name: "n", perm: 0600, mode: 2})
		for _, g := range []uint32{0, 1} {
			for _, w := range [][]string{nil, {"a"}, {"d"}, {"d", "x"}, {".."}, {"d", "nope"}} {
				few = append(few, op{t: wire.Twalk, f: f, g: g, names: w})
			}
		}
	}
	d = 6
	if c.Thorough() {
		d = 9
	}
	two := []uint32{0, 1, unknown}
	bfs(c, "life2", space{init: lifeTree(), ops: few, depth: d, judge: func(l *lab, s *sess, end *state) string {
		if r := probe(s, end, two); r != "" {
			return r
		}
		if r := diff(look(l.root), end.t); r != "" {
			return "host files: " + r
		}
		return ends(s, end, two)
	}})
	numbers(c)
	oddWalks(c)
	others(c, "C16", []string{"remove", "make", "swap", "back", "more", "sub", "less", "named"}, 3)
}

// C21: create and remove.
func C21(c *kit.Ctx) {
	init := tree{
		"":     {dir: true, perm: 0755},
		"f":    {perm: 0644, data: "file"},
		"d":    {dir: true, perm: 0755},
		"d/g":  {perm: 0644, data: "inner"},
		"ro":   {dir: true, perm: 0555},
		"ro/h": {perm: 0644, data: "protected"},
		"no":   {dir: true, perm: 0600},
		"e":    {dir: true, perm: 0700},
	}
	var ops []op
	add := func(o ...op) { ops = append(ops, o...) }
	fids := []uint32{1, 2}
	add(op{t: wire.Tattach, f: 0})
	for _, f := range fids {
		for _, w := range [][]string{nil, {"f"}, {"d"}, {"d", "g"}, {"ro"}, {"ro", "h"}, {"no"}, {"e"}, {"n1"}, {"d", "n1"}} {
			add(op{t: wire.Twalk, f: 0, g: f, names: w})
		}
		for _, n := range []string{"n1", "g", "e", "h"} {
			for _, pm := range []struct {
				p uint32
				m uint8
			}{{0644, 1}, {0, 2}, {0777, 0}, {0x80000000 | 0755, 0}, {0x80000000 | 0, 0}} {
				add(op{t: wire.Tcreate, f: f, name: n, perm: pm.p, mode: pm.m})
			}
		}
		add(op{t: wire.Tremove, f: f}, op{t: wire.Tclunk, f: f}, op{t: wire.Twrite, f: f}, op{t: wire.Topen, f: f})
	}
	add(op{t: wire.Tremove, f: 0}, op{t: wire.Tcreate, f: 9, name: "n1", perm: 0644, mode: 1}, op{t: wire.Tremove, f: 9})
	d := 5
	if c.Thorough() {
		d = 7
	}
	all := []uint32{0, 1, 2}
	judge := func(l *lab, s *sess, end *state) string {
		if r := diff(look(l.root), end.t); r != "" {
			return "host files: " + r
		}
		return probe(s, end, all)
	}
	bfs(c, "make", space{init: init, ops: ops, depth: d, judge: judge})
	// all permission bits and open modes
	for perm := uint32(0); perm < 512; perm++ {
		for k, o := range []op{
			{t: wire.Tcreate, f: 1, name: "n", perm: perm, mode: 0},
			{t: wire.Tcreate, f: 1, name: "n", perm: perm, mode: 1},
			{t: wire.Tcreate, f: 1, name: "n", perm: perm, mode: 2},
			{t: wire.Tcreate, f: 1, name: "n", perm: perm, mode: 0x11},
			{t: wire.Tcreate, f: 1, name: "n", perm: perm | 0x80000000, mode: 0},
		} {
			if c.Case(int(perm)*8+k, fmt.Sprintf("perm %o mode %d", o.perm, o.mode)) {
				l := newLab(c)
				c.Count("traces_validated_against_impl", 1)
				l.replay(space{init: init, ops: []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1}, o, {t: wire.Twrite, f: 1}, {t: wire.Tread, f: 1}, {t: wire.Tclunk, f: 1}}, judge: judge}, []int{0, 1, 2, 3, 4})
				if !c.Violated() {
					l.replay(space{init: init, ops: []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1}, o, {t: wire.Twalk, f: 0, g: 2, names: []string{"n"}}, {t: wire.Tremove, f: 2}}, judge: judge}, []int{0, 1, 2, 3, 4})
				}
			}
		}
	}
	// bits that are none of permission
	n := 512 * 8
	for bit := 9; bit < 31; bit++ {
		for _, dir := range []uint32{0, 0x80000000} {
			for _, pm := range []uint32{0644, 0200, 0777} {
				for _, mode := range []uint8{0, 1, 2, 0x11, 0x12} {
					if dir != 0 && mode != 0 {
						continue
					}
					n++
					o := op{t: wire.Tcreate, f: 1, name: "n", perm: dir | 1<<bit | pm, mode: mode}
					if c.Case(n, fmt.Sprintf("perm %o mode %d", o.perm, o.mode)) {
						c.Count("traces_validated_against_impl", 1)
						newLab(c).replay(space{init: init, ops: []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1}, o, {t: wire.Twrite, f: 1}, {t: wire.Tread, f: 1}, {t: wire.Tclunk, f: 1}, {t: wire.Twalk, f: 0, g: 2, names: []string{"n"}}}, judge: judge}, []int{0, 1, 2, 3, 4, 5, 6})
					}
				}
			}
		}
	}
	oddMade(c)
}

// C22: independence and host descriptors.
func C22(c *kit.Ctx) {
	init := tree{
		"":    {dir: true, perm: 0755},
		"a":   {perm: 0644, data: "contents of a"},
		"d":   {dir: true, perm: 0751},
		"d/x": {perm: 0600, data: "x"},
		"r":   {perm: 0400, data: "read only"},
	}
	var ops []op
	add := func(o ...op) { ops = append(ops, o...) }
	fids := []uint32{0, 1, 2}
	add(op{t: wire.Tattach, f: 0})
	for _, f := range fids {
		add(op{t: wire.Topen, f: f, mode: 0}, op{t: wire.Topen, f: f, mode: 2}, op{t: wire.Tclunk, f: f}, op{t: wire.Tremove, f: f})
		add(op{t: wire.Tcreate, f: f, name: "n", perm: 0600, mode: 2}, op{t: wire.Tcreate, f: f, name: "x", perm: 0x80000000 | 0700}, op{t: wire.Twstat, f: f, name: "b"})
		add(op{t: wire.Twrite, f: f})
		for _, g := range fids {
			for _, w := range [][]string{nil, {"a"}, {"d"}, {"d", "x"}, {"r"}, {"d", "nope"}} {
				if f != 0 && f != g && len(w) > 0 {
					continue
				}
				add(op{t: wire.Twalk, f: f, g: g, names: w})
			}
		}
		add(op{t: wire.Twalk, f: f, g: f, names: []string{".."}})
	}
	d := 5
	if c.Thorough() {
		d = 7
	}
	// A file that was lost, not closed, must not be closed by its finalizer.
	defer noGC()()
	n := 0
	pre := func() {
		if n++; n%400 == 0 {
			runtime.GC()
		}
	}
	judge := func(l *lab, s *sess, end *state) string {
		if r := held(l, end); r != "" {
			return r
		}
		if r := probe(s, end, fids); r != "" {
			return r
		}
		if r := held(l, end); r != "" {
			return r + " (after reading)"
		}
		if r := ends(s, end, fids); r != "" {
			return r
		}
		if l := descriptors(l.root); len(l) > 0 {
			return fmt.Sprintf("after all identifiers were clunked, host files are still open: %v", l)
		}
		return ""
	}
	bfs(c, "open", space{init: init, ops: ops, depth: d, pre: pre, judge: judge})
	pd := 4
	if c.Thorough() {
		pd = 5
	}
	paths(c, "opens", space{init: init, pre: pre, judge: judge}, []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: []string{"a"}}}, []op{
		{t: wire.Topen, f: 1, mode: 2}, {t: wire.Topen, f: 2}, {t: wire.Topen, f: 0}, {t: wire.Tclunk, f: 1}, {t: wire.Tclunk, f: 2}, {t: wire.Tremove, f: 2}, {t: wire.Twalk, f: 1, g: 2}, {t: wire.Twalk, f: 1, g: 1},
		{t: wire.Twalk, f: 0, g: 1, names: []string{"a"}}, {t: wire.Twalk, f: 0, g: 2, names: []string{"d"}}, {t: wire.Tcreate, f: 2, name: "n", perm: 0600, mode: 2}, {t: wire.Tcreate, f: 2, name: "x", perm: 0600, mode: 1},
		{t: wire.Twstat, f: 1, name: "b"}, {t: wire.Tread, f: 1}, {t: wire.Twrite, f: 2}, {t: wire.Twalk, f: 2, g: 2, names: []string{".."}}, {t: wire.Tread, f: 0},
	}, pd)
	crowd(c)
	others(c, "C22", []string{"write", "cut", "empty", "remove", "make", "swap", "back"}, 3)
}

// held compares the open host files with the open identifiers.
func held(l *lab, st *state) string {
	n := 0
	for _, f := range st.fids {
		if f.mode >= 0 {
			n++
		}
	}
	if got := descriptors(l.root); len(got) != n {
		return fmt.Sprintf("%d identifiers are open and the server holds %d host files open: %s", n, len(got), strings.Join(got, " "))
	}
	return ""
}
