package tcodec

import (
	"testing"

	"ninepverif/codec"
	"ninepverif/kit"
)

func TestMain(m *testing.M) {
	kit.Main(m, map[string]*kit.Check{
		"C01": {Run: codec.C01, Level: "exploration", Rule: codec.Rules["C01"]},
		"C02": {Run: codec.C02, Level: "exploration", Rule: codec.Rules["C02"]},
	})
}

func TestChild(t *testing.T) { kit.Child(t) }
