package tufs

import (
	"testing"

	"ninepverif/kit"
	"ninepverif/ufsx"
)

func TestMain(m *testing.M) {
	ck := func(f func(*kit.Ctx), id, level string) *kit.Check {
		return &kit.Check{Run: f, Unpriv: true, Level: level, Rule: ufsx.Rules[id]}
	}
	kit.Main(m, map[string]*kit.Check{
		"C15": ck(ufsx.C15, "C15", "exploration"),
		"C16": ck(ufsx.C16, "C16", "model_checking"),
		"C17": ck(ufsx.C17, "C17", "model_checking"),
		"C18": ck(ufsx.C18, "C18", "exploration"),
		"C19": ck(ufsx.C19, "C19", "exploration"),
		"C20": ck(ufsx.C20, "C20", "exploration"),
		"C21": ck(ufsx.C21, "C21", "model_checking"),
		"C22": ck(ufsx.C22, "C22", "model_checking"),
		"C25": ck(ufsx.C25, "C25", "exploration"),
	})
}

func TestChild(t *testing.T) { kit.Child(t) }
