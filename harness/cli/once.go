package cli

import (
	"ninepverif/bub"
	"ninepverif/kit"
	"ninepverif/sched"
)

// once runs f in an execution whose schedule is not controlled.
func once(c *kit.Ctx, f func(s *sched.S)) (bad string) {
	bub.Run(c.T, func() {
		if l := sched.Uncontrolled(f); len(l) > 0 {
			bad = "a goroutine panicked: " + l[0]
		}
	})
	return
}
