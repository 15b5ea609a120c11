package main

import (
	"testing"

	"github.com/mmcloughlin/addchain/verif/pbt"
)

func FuzzSections(f *testing.F) { pbt.FuzzHook(f, main) }
