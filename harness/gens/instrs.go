package gens

import (
	"slices"

	"github.com/mmcloughlin/addchain/verif/ref"
	"pgregory.net/rapid"
)

// EnumInstrs enumerates well-formed instruction lists of exactly n instructions:
// additions (both operand orders when bothOrders), doublings and, when shifts,
// shifts by 2.
func EnumInstrs(n int, bothOrders, shifts bool, mine func() bool, f func([]ref.ValInstr) bool) {
	ins := make([]ref.ValInstr, 0, n)
	outs := make([]int, 1, n+1)
	depth := min(2, n)
	var rec func() bool
	rec = func() bool {
		if len(ins) == depth && !mine() {
			return true
		}
		if len(ins) == n {
			return f(slices.Clone(ins))
		}
		step := func(v ref.ValInstr) bool {
			ins = append(ins, v)
			outs = append(outs, v.Out)
			ok := rec()
			ins = ins[:len(ins)-1]
			outs = outs[:len(outs)-1]
			return ok
		}
		last := outs[len(outs)-1]
		avail := slices.Clone(outs)
		for a, x := range avail {
			if !step(ref.ValInstr{K: "d", Out: last + 1, X: x}) {
				return false
			}
			if shifts && !step(ref.ValInstr{K: "s", Out: last + 2, X: x, S: 2}) {
				return false
			}
			for b, y := range avail {
				if !bothOrders && b < a {
					continue
				}
				if !step(ref.ValInstr{K: "+", Out: last + 1, X: x, Y: y}) {
					return false
				}
			}
		}
		return true
	}
	rec()
}

// InstrStyles names liveness shapes.
var InstrStyles = []string{"uniform", "recent", "spread", "phases", "late-input", "no-input", "wide", "stack", "waves"}

// Instrs draws a well-formed instruction list. With used set, every result but the
// last is read by a later instruction.
func Instrs(t *rapid.T, maxLen int, used bool) ([]ref.ValInstr, string) {
	style := Pick(t, "style", InstrStyles...)
	n := Int(t, "n", 1, maxLen)
	if rapid.Bool().Draw(t, "long") {
		n = Uni(t, "n2", n, maxLen)
	}
	outs := []int{0}
	unread := map[int]bool{} // outputs not read yet
	var order []int          // unread outputs in order
	var ins []ref.ValInstr
	take := func(i int) int {
		if unread[i] {
			delete(unread, i)
			order = slices.DeleteFunc(order, func(j int) bool { return j == i })
		}
		return i
	}
	last := func() int { return outs[len(outs)-1] }
	emit := func(v ref.ValInstr) {
		take(v.X)
		if v.K == "+" {
			take(v.Y)
		}
		v.Out = last() + 1
		if v.K == "s" {
			v.Out = last() + int(v.S)
		}
		ins = append(ins, v)
		outs = append(outs, v.Out)
		unread[v.Out] = true
		order = append(order, v.Out)
	}
	lo := 1 // with styles that stop reading the input
	if style != "no-input" && style != "late-input" {
		lo = 0
	}
	width := Uni(t, "width", 2, 14)
	down := false // waves
	pick := func(name string) int {
		m := len(outs) - 1
		from := min(lo, m)
		switch style {
		case "recent", "stack":
			return outs[max(from, m-Int(t, name, 0, 4))]
		case "spread":
			if rapid.Bool().Draw(t, "old") {
				return outs[min(m, from+Int(t, name, 0, 4))]
			}
			return outs[max(from, m-Int(t, name, 0, 3))]
		case "wide":
			return outs[max(from, m-Uni(t, name, 0, width))]
		}
		return outs[Uni(t, name, from, m)]
	}
	// A result for every style to start from.
	kind := func() string {
		return Pick(t, "kind", "+", "+", "+", "d", "s")
	}
	for len(ins) < n {
		if style == "late-input" && len(ins)*4 > n*3 {
			lo = 0
		}
		if style == "phases" && len(ins)*2 > n {
			lo = min(2, len(outs)-1)
		}
		k := kind()
		x := pick("x")
		if style == "stack" && len(order) > width {
			// Reduce.
			emit(ref.ValInstr{K: "+", X: order[len(order)-1], Y: order[len(order)-2]})
			continue
		}
		if style == "waves" {
			// Build up to a number of unread results, then consume them.
			if len(order) > 4*width {
				down = true
			} else if len(order) < 3 {
				down = false
			}
			if down {
				a := Uni(t, "a", 0, len(order)-2)
				emit(ref.ValInstr{K: "+", X: order[a], Y: order[len(order)-1]})
				continue
			}
			x = outs[len(outs)-1-Int(t, "x", 0, min(3, len(outs)-1))]
			if len(order) > 1 && x == order[len(order)-1] && k != "+" {
				x = outs[0]
			}
			if k == "+" {
				emit(ref.ValInstr{K: "+", X: x, Y: 0})
				continue
			}
		}
		if style == "wide" && len(order) > width {
			emit(ref.ValInstr{K: "+", X: order[0], Y: x})
			continue
		}
		switch k {
		case "+":
			emit(ref.ValInstr{K: "+", X: x, Y: pick("y")})
		case "d":
			emit(ref.ValInstr{K: "d", X: x})
		case "s":
			emit(ref.ValInstr{K: "s", X: x, S: uint(Int(t, "s", 1, 5))})
		}
	}
	if used {
		// Consume what is unread, pairwise or onto the last result.
		for len(order) > 1 {
			i := Uni(t, "consume", 0, len(order)-2)
			x, y := order[i], order[len(order)-1]
			if rapid.Bool().Draw(t, "swap") {
				x, y = y, x
			}
			emit(ref.ValInstr{K: "+", X: x, Y: y})
		}
	}
	return ins, style
}

// AllUsed reports whether every result but the last is read later.
func AllUsed(ins []ref.ValInstr) bool {
	unread := map[int]bool{}
	for _, v := range ins {
		for _, i := range v.Inputs() {
			delete(unread, i)
		}
		unread[v.Out] = true
	}
	return len(unread) == 1 && len(ins) > 0 && unread[ins[len(ins)-1].Out]
}

// WellFormed reports whether the list is well-formed with consistent indexes.
func WellFormed(ins []ref.ValInstr) bool {
	have := map[int]bool{0: true}
	last := 0
	for _, v := range ins {
		for _, i := range v.Inputs() {
			if !have[i] {
				return false
			}
		}
		switch v.K {
		case "+", "d":
			last++
		case "s":
			if v.S < 1 || v.S > 1<<21 {
				return false
			}
			last += int(v.S)
		default:
			return false
		}
		if v.Out != last {
			return false
		}
		have[last] = true
	}
	return len(ins) > 0
}

// ShrinkInstrs proposes smaller lists: one instruction removed, readers of its
// result redirected to an input of it; shifts shortened.
func ShrinkInstrs(ins []ref.ValInstr) [][]ref.ValInstr {
	var out [][]ref.ValInstr
	renumber := func(src []ref.ValInstr) []ref.ValInstr {
		m := map[int]int{0: 0}
		var o []ref.ValInstr
		last := 0
		for _, v := range src {
			w := v
			var ok bool
			if w.X, ok = m[v.X]; !ok {
				return nil
			}
			if v.K == "+" {
				if w.Y, ok = m[v.Y]; !ok {
					return nil
				}
			}
			last++
			if v.K == "s" {
				last += int(v.S) - 1
			}
			w.Out = last
			m[v.Out] = last
			o = append(o, w)
		}
		return o
	}
	add := func(src []ref.ValInstr) {
		if o := renumber(src); len(o) > 0 && WellFormed(o) {
			out = append(out, o)
		}
	}
	add(ins[:len(ins)/2])
	if len(ins) > 1 {
		add(ins[:len(ins)-1])
	}
	for k := len(ins) - 1; k >= 0; k-- {
		for _, to := range ins[k].Inputs() {
			var o []ref.ValInstr
			for q, v := range ins {
				if q == k {
					continue
				}
				if v.X == ins[k].Out {
					v.X = to
				}
				if v.K == "+" && v.Y == ins[k].Out {
					v.Y = to
				}
				o = append(o, v)
			}
			add(o)
		}
		if ins[k].K == "s" && ins[k].S > 1 {
			o := slices.Clone(ins)
			o[k].S = 1
			add(o)
		}
	}
	return out
}
