package gens

import (
	"slices"

	"github.com/mmcloughlin/addchain/verif/ref"
)

// ShrinkOps proposes smaller programs with distinct values: one operation removed,
// with the readers of its result redirected to one of its operands.
func ShrinkOps(ops []ref.Op) [][]ref.Op {
	var out [][]ref.Op
	try := func(o []ref.Op) {
		c, err := ref.Eval(o)
		if err == nil && ref.Distinct(c) {
			out = append(out, o)
		}
	}
	if len(ops) > 1 {
		try(slices.Clone(ops[:len(ops)-1]))
		try(slices.Clone(ops[:len(ops)/2]))
	}
	for k := len(ops) - 1; k >= 0; k-- {
		for _, to := range []int{ops[k].I, ops[k].J} {
			var o []ref.Op
			m := func(i int) int {
				if i == k+1 {
					return to
				}
				if i > k+1 {
					return i - 1
				}
				return i
			}
			for q, op := range ops {
				if q != k {
					o = append(o, ref.Op{I: m(op.I), J: m(op.J)})
				}
			}
			try(o)
		}
		if ops[k].I > ops[k].J {
			o := slices.Clone(ops)
			o[k].I, o[k].J = o[k].J, o[k].I
			out = append(out, o)
		}
	}
	return out
}
