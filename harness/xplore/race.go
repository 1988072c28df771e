package xplore

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"ninepverif/kit"
	"ninepverif/sched"
)

var (
	raceN   int // reports looked at
	raceOff int64
	frame   = regexp.MustCompile(`(?m)^  (\S+)\(\)\n\s+(\S+:\d+)`)
)

// races looks at the race detector's new reports. Only accesses by the library, or by
// a caller's or file server's use of what it was given (package api), count.
func races(c *kit.Ctx) string {
	n := sched.Races()
	if n == raceN {
		return ""
	}
	raceN = n
	l, _ := filepath.Glob(filepath.Join(filepath.Dir(c.Scratch), fmt.Sprintf("race.%d", os.Getpid())))
	if len(l) == 0 {
		panic("race reported, but no report found")
	}
	b, err := os.ReadFile(l[0])
	if err != nil {
		panic(err)
	}
	new := string(b[raceOff:])
	raceOff = int64(len(b))
	for _, rep := range strings.Split(new, "==================\n") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		c.Count("race_reports", 1)
		var at []string
		mine, others := 0, 0
		// the first two paragraphs are the accesses
		for i, para := range strings.Split(rep, "\n\n") {
			if i >= 2 {
				break
			}
			for _, f := range frame.FindAllStringSubmatch(para, -1) {
				fn := f[1]
				if fn == "ninepverif/api.trace" {
					continue // for the library
				}
				if strings.HasPrefix(fn, "github.com/Harvey-OS/ninep/") {
					mine++
					at = append(at, fmt.Sprintf("%s (%s)", fn, filepath.Base(f[2])))
				} else if strings.HasPrefix(fn, "ninepverif/api.") || fn == "ninepverif/sched.Transfer" {
					mine++
					at = append(at, fn)
				} else if !strings.HasPrefix(fn, "ninepverif/") {
					continue // runtime or standard library: whoever called it
				} else {
					others++
				}
				break
			}
		}
		if mine == 1 && others == 0 {
			// the stack of the other one was lost
			mine++
			at = append(at, "?")
		}
		if mine == 2 && strings.Contains(at[0]+at[1], "Harvey-OS") {
			return "data race: " + at[0] + " and " + at[1]
		}
	}
	return ""
}
