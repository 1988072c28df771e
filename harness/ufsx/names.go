package ufsx

import (
	"fmt"
	"strings"

	"ninepverif/kit"
	"ninepverif/wire"
)

// odd names, all of them legal and all different.
var odd = []string{
	"name", "NAME", "Name", "name ", " name", "\tname", "name\t", "name.", "name~", ".name", "..name", "name\n", "nam", "names", "name\\", "\\name", "n\\ame", "nam\xe9", "nam\u00e9", "name\u0301", "name\xff",
	" ", "  ", "a b", "...", "....", ".. ", ". ", " ..", "..x", ".x", "x..", "x.", "~", "-", "--", "-rf", "#", "%s", "%2e%2e", "100%", "%", "\\", "\\..", "..\\", "a:b", ":", "\n", "\r", "\x01", "\x7f", "\x80", "\xff\xfe", "\u00e9", "e\u0301",
	"*", "?", "[a]", "'", "\"", "`", "$HOME", "${x}", "&", "|", ";", "!", "<", ">", "(", "=", ",", "@", "+", "0", "00", "con", "nul", "lost+found", ".git", "tmp", "etc",
	strings.Repeat("n", 255), strings.Repeat("n", 254), strings.Repeat(".", 255), strings.Repeat("\u00e9", 127), "\U0001f600", "\u2028", "\u202e", "\ufeffname", "\u00a0",
}

func runs(c *kit.Ctx, idx int, key string, sp space) bool {
	if c.Mine(idx) && c.Case(idx, key) {
		c.Count("traces_validated_against_impl", 1)
		tr := make([]int, len(sp.ops))
		for i := range tr {
			tr[i] = i
		}
		newLab(c).replay(sp, tr)
	}
	return c.Done()
}

func hostAnd(fids ...uint32) func(l *lab, s *sess, end *state) string {
	return func(l *lab, s *sess, end *state) string {
		if r := diff(look(l.root), end.t); r != "" {
			return "host files: " + r
		}
		return probe(s, end, fids)
	}
}

// oddMade creates and removes files with odd names: each as a file and as a
// directory, and each ordered pair of them.
func oddMade(c *kit.Ctx) {
	init := tree{"": {dir: true, perm: 0755}, "d": {dir: true, perm: 0755}}
	idx := 0
	for i, n := range odd {
		idx++
		if runs(c, idx, fmt.Sprintf("odd %d", i), space{init: init, judge: hostAnd(0, 1, 2, 3, 4), ops: []op{
			{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1}, {t: wire.Tcreate, f: 1, name: n, perm: 0640, mode: 2},
			{t: wire.Twrite, f: 1, at: true, data: "data"}, {t: wire.Tcreate, f: 0, name: n, perm: 0x80000000 | 0700}, {t: wire.Twalk, f: 0, g: 2, names: []string{"d"}},
			{t: wire.Twalk, f: 0, g: 3, names: []string{"d"}},
			{t: wire.Tcreate, f: 2, name: n, perm: 0x80000000 | 0750}, {t: wire.Twalk, f: 0, g: 4, names: []string{"d", n}}, {t: wire.Tcreate, f: 4, name: n, perm: 0600, mode: 1}, {t: wire.Twrite, f: 4, at: true, data: "inner"},
			{t: wire.Tremove, f: 2}, {t: wire.Twalk, f: 3, g: 2, names: []string{n, n}}, {t: wire.Tremove, f: 2}, {t: wire.Tclunk, f: 4}, {t: wire.Twalk, f: 3, g: 4, names: []string{n}}, {t: wire.Tremove, f: 4}, {t: wire.Twalk, f: 0, g: 4, names: []string{n}}, {t: wire.Tremove, f: 1},
		}}) {
			return
		}
	}
	for i, a := range odd {
		for j, b := range odd {
			if i == j {
				continue
			}
			idx++
			if runs(c, idx, fmt.Sprintf("odd %d %d", i, j), space{init: init, judge: hostAnd(0, 1, 2, 3), ops: []op{
				{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1}, {t: wire.Tcreate, f: 1, name: a, perm: 0640, mode: 2}, {t: wire.Twrite, f: 1, at: true, data: "first"},
				{t: wire.Twalk, f: 0, g: 2, names: []string{b}}, {t: wire.Twalk, f: 0, g: 2}, {t: wire.Tcreate, f: 2, name: b, perm: 0x80000000 | 0750}, {t: wire.Twalk, f: 0, g: 3, names: []string{a}}, {t: wire.Topen, f: 3},
				{t: wire.Tremove, f: 2}, {t: wire.Twalk, f: 0, g: 2, names: []string{b}}, {t: wire.Twalk, f: 0, g: 2, names: []string{a}}, {t: wire.Tremove, f: 3},
			}}) {
				return
			}
		}
	}
}

// oddWalks walks odd names that exist and that do not but look alike.
func oddWalks(c *kit.Ctx) {
	idx := 0
	for skip := -1; skip < len(odd); skip++ {
		t := tree{"": {dir: true, perm: 0755}}
		for i, n := range odd {
			if i == skip {
				continue
			}
			if i%2 == 0 {
				t[n] = ent{perm: 0644, data: fmt.Sprint("file ", i)}
			} else {
				t[n] = ent{dir: true, perm: 0755}
				t[n+"/"+n] = ent{perm: 0600, data: fmt.Sprint("inner ", i)}
			}
		}
		ops := []op{{t: wire.Tattach, f: 0}}
		var fids []uint32
		f := uint32(0)
		for i, n := range odd {
			if skip >= 0 && i != skip && !alike(n, odd[skip]) {
				continue
			}
			ops = append(ops, op{t: wire.Twalk, f: 0, g: f + 1, names: []string{n}}, op{t: wire.Topen, f: f + 1}, op{t: wire.Twalk, f: 0, g: f + 2, names: []string{n, n}}, op{t: wire.Topen, f: f + 2}, op{t: wire.Tattach, f: f + 3, name: "/" + n})
			fids = append(fids, f+1, f+2, f+3)
			f += 3
		}
		idx++
		if runs(c, idx, fmt.Sprintf("odd walk %d", skip), space{init: t, ops: ops, judge: hostAnd(fids...)}) {
			return
		}
	}
}

func alike(a, b string) bool {
	return len(a) > 0 && len(b) > 0 && (a[0] == b[0] || a[len(a)-1] == b[len(b)-1])
}

// oddRenames renames to and from odd names.
func oddRenames(c *kit.Ctx) {
	init := tree{"": {dir: true, perm: 0755}, "d": {dir: true, perm: 0755}, "d/f": {perm: 0644, data: "from"}, "d/s": {dir: true, perm: 0755}, "d/s/in": {perm: 0600, data: "in"}}
	idx := 0
	for i, a := range odd {
		for j, b := range odd {
			if i == j || j != (i+1)%len(odd) && j != (i+7)%len(odd) && !alike(a, b) {
				continue
			}
			idx++
			if runs(c, idx, fmt.Sprintf("odd rename %d %d", i, j), space{init: init, judge: hostAnd(0, 1, 2, 3), ops: []op{
				{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: []string{"d", "f"}}, {t: wire.Twstat, f: 1, name: a}, {t: wire.Twalk, f: 0, g: 2, names: []string{"d", "s"}}, {t: wire.Twstat, f: 2, name: b},
				{t: wire.Twalk, f: 0, g: 3, names: []string{"d", b, "in"}}, {t: wire.Topen, f: 3}, {t: wire.Twstat, f: 1, name: b}, {t: wire.Tclunk, f: 3}, {t: wire.Twalk, f: 0, g: 3, names: []string{"d", a}}, {t: wire.Topen, f: 3},
			}}) {
				return
			}
		}
	}
}

// numbers uses identifiers that an implementation could mix up.
func numbers(c *kit.Ctx) {
	vals := []uint32{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffd, 0xfffffffe}
	idx := 0
	for _, a := range vals {
		for _, b := range vals {
			if a == b {
				continue
			}
			idx++
			if runs(c, idx, fmt.Sprintf("numbers %#x %#x", a, b), space{init: lifeTree(), judge: func(l *lab, s *sess, end *state) string {
				if r := probe(s, end, vals); r != "" {
					return r
				}
				return ends(s, end, vals)
			}, ops: []op{
				{t: wire.Tattach, f: a}, {t: wire.Topen, f: b}, {t: wire.Tclunk, f: b}, {t: wire.Tremove, f: b}, {t: wire.Tstat, f: b}, {t: wire.Twalk, f: b, g: a}, {t: wire.Twalk, f: a, g: a, names: []string{"d"}}, {t: wire.Twalk, f: a, g: b, names: []string{"x"}}, {t: wire.Tattach, f: b}, {t: wire.Topen, f: b, mode: 2},
				{t: wire.Twrite, f: a}, {t: wire.Twrite, f: b}, {t: wire.Topen, f: a}, {t: wire.Tclunk, f: a}, {t: wire.Tclunk, f: a}, {t: wire.Tattach, f: a, name: "a"}, {t: wire.Topen, f: a}, {t: wire.Tread, f: b},
			}}) {
				return
			}
		}
	}
	// All of them at once, then fewer.
	var ops []op
	for i, v := range vals {
		ops = append(ops, op{t: wire.Tattach, f: v}, op{t: wire.Twalk, f: v, g: v, names: [][]string{{"a"}, {"d"}, {"d", "x"}, {"d", "e"}}[i%4]})
		if i%2 == 0 {
			ops = append(ops, op{t: wire.Topen, f: v})
		}
	}
	for i, v := range vals {
		if i%3 > 0 {
			ops = append(ops, op{t: wire.Tclunk, f: v})
		}
		idx++
		if i%3 > 0 && runs(c, idx, fmt.Sprintf("numbers all but %d", i), space{init: lifeTree(), ops: ops, judge: func(l *lab, s *sess, end *state) string {
			if r := probe(s, end, vals); r != "" {
				return r
			}
			return ends(s, end, vals)
		}}) {
			return
		}
	}
	idx++
	if c.Mine(idx) && c.Case(idx, "numbers many") {
		many(c)
	}
}

// many identifiers at once.
func many(c *kit.Ctx) {
	n := uint32(70000)
	l := newLab(c)
	l.fresh(lifeTree())
	defer l.clean()
	l.run(func() {
		s := dial(listen())
		defer s.end()
		s.version()
		s.attach(0, "")
		names := []string{"a", "d"}
		for i := uint32(1); i < n; i++ {
			if m := s.walk(0, i, names[i%2]); !ok(m) {
				c.Violate("a walk fails when there are many identifiers", "identifier %d: %v %s", i, m, s.dead)
				return
			}
		}
		check := func(i uint32, have bool, what string) bool {
			d, good := s.stat(i)
			if good != have || good && d.Name != names[i%2] {
				c.Violate("an identifier among many denotes something else", "identifier %d %s: %v %q", i, what, good, d.Name)
				return false
			}
			return true
		}
		for i := uint32(1); i < n; i += 3 {
			if !ok(s.clunk(i)) {
				c.Violate("clunk fails when there are many identifiers", "identifier %d", i)
				return
			}
		}
		for i := uint32(1); i < n; i++ {
			if !check(i, i%3 != 1, "after every third was clunked") {
				return
			}
		}
		c.Count("traces_validated_against_impl", 1)
	})
}
