package sync

import (
	"runtime"

	"ninepverif/sched"
)

func controlled() bool { return sched.Running() }

func yield() { runtime.Gosched() }
