package main

import (
	"testing"

	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
)

func FuzzSections(f *testing.F) { pbt.FuzzHook(f, main) }

func (c *text) Text() []byte { return []byte(c.S) }
func (c *text) WithText(b []byte) pbt.Case {
	return &text{S: gens.Bytes(b), Note: "fuzzed"}
}
