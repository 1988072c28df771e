package tclient

import (
	"testing"

	"ninepverif/api"
	"ninepverif/cli"
	"ninepverif/e2e"
	"ninepverif/kit"
	"ninepverif/lis"
	"ninepverif/srv"
)

func TestMain(m *testing.M) {
	kit.Main(m, map[string]*kit.Check{
		"C07": {Run: lis.C07, Unpriv: true, Level: "exploration", Rule: lis.Rules["C07"]},
		"C14": {Run: lis.C14, Level: "exploration", Rule: lis.Rules["C14"]},
		"C26": {Run: traced, Unpriv: true, Level: "exploration", Rule: rule26},
		"C27": {Run: raced, Unpriv: true, Level: "exploration", Rule: rule27, MemMB: 1500, OwnFail: true},
		"C28": {Run: e2e.C28, Unpriv: true, Level: "exploration", Rule: e2e.Rule28},
		"C08": {Run: cli.C08, Level: "exploration", Rule: cli.Rules["C08"]},
		"C09": {Run: cli.C09, Level: "exploration", Rule: cli.Rules["C09"]},
		"C10": {Run: cli.C10, Level: "fault_enumeration", Rule: cli.Rules["C10"]},
		"C11": {Run: cli.C11, Level: "exploration", Rule: cli.Rules["C11"]},
		"C12": {Run: cli.C12, Level: "exploration", Rule: cli.Rules["C12"]},
		"C13": {Run: cli.C13, Level: "exploration", Rule: cli.Rules["C13"]},
	})
}

func TestChild(t *testing.T) { kit.Child(t) }

const rule26 = "the cases of C03-C08, C10-C12 and C14 (in the quick tier with the deviation bounds of C08 lowered by one), on clients and listeners with a trace function that formats its arguments, judged by the same oracles. Non-trivial: as there"

// traced is C26: with a trace function everything is as without.
func traced(c *kit.Ctx) {
	api.Tracing = true
	cli.Lighter = !c.Thorough()
	for _, f := range []func(*kit.Ctx){srv.C03, srv.C04, srv.C05, srv.C06, lis.C14, lis.C07, cli.C12, cli.C11, cli.C10, cli.C08} {
		f(c)
		if c.Done() {
			break
		}
	}
	c.Count("traces", int(api.Traced.Load()))
}

const rule27 = "the schedules of C07-C09, C11, C13 and C14, and of C10 with tracing and a thread calling Client.String (quick: deviation bounds one lower, each C11 kind of reply only with some of its values), on code built with the race detector, from which the scheduler's own synchronisation is hidden; a race between two accesses by the library, or by the library and what a caller, file server or transport does with its own data, is a violation. Non-trivial: at least one decision."

// raced is C27: no data races.
func raced(c *kit.Ctx) {
	cli.Lighter = !c.Thorough()
	c.NoCases = true
	watched := func(c *kit.Ctx) {
		cli.Watched, api.Tracing = true, true
		cli.C10(c)
		cli.Watched, api.Tracing = false, false
	}
	l := []func(*kit.Ctx){lis.C14, cli.C13, watched, lis.C07, cli.C11, cli.C09, cli.C08}
	if c.Thorough() {
		l = append(l, cli.C10)
	}
	for _, f := range l {
		f(c)
		if c.Done() {
			break
		}
	}
}
