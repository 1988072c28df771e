package ufsx

import (
	"fmt"
	"strings"

	"ninepverif/kit"
	"ninepverif/wire"
)

// patterns writes data whose bytes an implementation could take for something
// else, over what is there, past the end and far past the end.
func patterns(c *kit.Ctx) {
	var pats []string
	rep := func(s string, ns ...int) {
		for _, n := range ns {
			pats = append(pats, strings.Repeat(s, n))
		}
	}
	rep("\x00", 1, 2, 3, 4, 6, 8, 9, 16, 512, 513, 4096, 8192, 12288)
	rep("\xff", 1, 2, 4, 8, 4096)
	rep("\n", 1, 2, 4096)
	rep(" ", 1, 8)
	rep("\r\n", 1, 2, 2048)
	rep("0", 4, 8)
	z := strings.Repeat("\x00", 4096)
	pats = append(pats, "\x00X", "X\x00", "X\x00\x00", "\x00\x00X\x00", z+"X", "X"+z, "X"+z[1:], z[1:]+"X", z+"X"+z, "\x1a", "\x04", "\xef\xbb\xbftext", "\xff\xfe", "\x80", "e\xcc", "a\nb", "a\rb", "a\r\nb", "a\r", "\r", "\t", "%d", "%", "%!s", "\\", "\\n", "\x1b[0m", "#!/bin/sh", "0123456789", "01", "9", " 1", "1 ")
	init := tree{"": {dir: true, perm: 0755}, "f": {perm: 0644, data: "0123456789"}, "g": {perm: 0644}, "h": {perm: 0644, data: strings.Repeat("abcdefg\n", 1280)}}
	idx := 0
	for i, p := range pats {
		for _, file := range []string{"f", "g", "h"} {
			for _, off := range []uint64{0, 1, 3, 10, 12, 4095, 4096, 10240, 12288} {
				if off > 100 && file == "f" {
					continue
				}
				for _, mode := range []uint8{1, 2} {
					if mode == 1 && off > 12 {
						continue
					}
					before := uint64(0)
					if off >= 2 {
						before = off - 2
					}
					n := uint32(len(p) + 5)
					end := off + uint64(len(p))
					ops := []op{{t: wire.Tattach, f: 0}, {t: wire.Twalk, f: 0, g: 1, names: []string{file}}, {t: wire.Topen, f: 1, mode: mode}, {t: wire.Twalk, f: 0, g: 2, names: []string{file}}, {t: wire.Topen, f: 2, mode: 0},
						{t: wire.Twrite, f: 1, at: true, off: off, data: p}, {t: wire.Tread, f: 2, at: true, off: before, cnt: n}, {t: wire.Tread, f: 2, at: true, off: off, cnt: n},
						{t: wire.Twrite, f: 1, at: true, off: end, data: p}, {t: wire.Tread, f: 2, at: true, off: end, cnt: n}, {t: wire.Tread, f: 2, at: true, cnt: 50000}, {t: wire.Twrite, f: 1, at: true, off: end - 1, data: "!"}, {t: wire.Twrite, f: 1, at: true, off: end + 3, data: "\x00"}, {t: wire.Tread, f: 2, at: true, off: before, cnt: 50000}}
					idx++
					if runs(c, idx, fmt.Sprintf("pattern %d %s %d %d", i, file, off, mode), space{init: init, ops: ops, judge: hostAnd()}) {
						return
					}
				}
			}
		}
	}
}
