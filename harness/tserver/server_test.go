package tserver

import (
	"testing"

	"ninepverif/kit"
	"ninepverif/srv"
	"ninepverif/ufsx"
)

func TestMain(m *testing.M) {
	kit.Main(m, map[string]*kit.Check{
		"C03": {Run: srv.C03, Level: "exploration", Rule: srv.Rules["C03"]},
		"C04": {Run: srv.C04, Level: "exploration", Rule: srv.Rules["C04"]},
		"C05": {Run: srv.C05, Level: "fault_enumeration", Rule: srv.Rules["C05"]},
		"C06": {Run: srv.C06, Level: "exploration", Rule: srv.Rules["C06"]},
		"C23": {Run: func(c *kit.Ctx) {
			srv.C23(c)
			if !c.Violated() {
				ufsx.Debug(c, 1<<20)
			}
		}, Unpriv: true, Level: "exploration", Rule: srv.Rules["C23"]},
	})
}

func TestChild(t *testing.T) { kit.Child(t) }
