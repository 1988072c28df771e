package tgen

import (
	"testing"

	"ninepverif/cli"
	"ninepverif/codec"
	"ninepverif/kit"
	"ninepverif/srv"
)

const rule = "the generator is built from the working tree and run in a scratch directory; its genout.go replaces the checked-in one (build overlay), and the cases of C01, C02, C03, C05 and the values, errors, damaged and wrong-type replies of every client call (C08, C11) are run on the result. Non-trivial: as in those."

func TestMain(m *testing.M) {
	kit.Main(m, map[string]*kit.Check{
		"C24": {Run: run, Level: "exploration", Rule: rule},
	})
}

func run(c *kit.Ctx) {
	for _, f := range []func(*kit.Ctx){srv.C03, srv.C05, func(c *kit.Ctx) { cli.Values(c, 0) }, codec.C01, codec.C02} {
		f(c)
		if c.Done() {
			return
		}
	}
}

func TestChild(t *testing.T) { kit.Child(t) }
