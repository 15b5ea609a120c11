package main

import (
	"testing"
	"unicode/utf8"

	"github.com/mmcloughlin/addchain/verif/pbt"
)

func FuzzSections(f *testing.F) { pbt.FuzzHook(f, main) }

func (c *expr) Text() []byte { return []byte(c.S) }

// WithText only takes texts that survive the JSON of a replay file.
func (c *expr) WithText(b []byte) pbt.Case {
	if !utf8.Valid(b) {
		return nil
	}
	return &expr{S: string(b), Note: "fuzzed"}
}
