package main

import (
	"testing"

	"github.com/mmcloughlin/addchain/verif/pbt"
)

func FuzzSections(f *testing.F) { pbt.FuzzHook(f, main) }

func (c *text) Text() []byte               { return c.Src }
func (c *text) WithText(b []byte) pbt.Case { return mk(string(b), "fuzzed") }
