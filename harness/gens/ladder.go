package gens

import (
	"slices"

	"github.com/mmcloughlin/addchain/verif/ref"
)

// Marks are sizes around which fixed-size representations change.
var Marks = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025}

// Steps calls f with all sizes up to dense and the marks up to top.
func Steps(dense, top int, f func(n int) bool) {
	for n := 1; n <= dense; n++ {
		if !f(n) {
			return
		}
	}
	for _, n := range Marks {
		if n > dense && n <= top && !f(n) {
			return
		}
	}
}

// LadderOps enumerates regular programs (with pairwise distinct values) of sizes up
// to top: every size up to dense, then Marks.
func LadderOps(dense, top int, mine func() bool, f func(ops []ref.Op, note string) bool) {
	Steps(dense, top, func(n int) bool { return LadderOpsAt(n, mine, f) })
}

// LadderOpsAt is the part of LadderOps for one size.
func LadderOpsAt(n int, mine func() bool, f func(ops []ref.Op, note string) bool) bool {
	emit := func(note string, ops []ref.Op) bool { return !mine() || f(ops, note) }
	dbl := func(ops []ref.Op, k int) []ref.Op {
		for i := 0; i < k; i++ {
			ops = append(ops, ref.Op{I: len(ops), J: len(ops)})
		}
		return ops
	}
	run := func() []ref.Op { return dbl(nil, n) }
	if !emit("doublings", run()) || !emit("doublings, plus 1", append(run(), ref.Op{I: 0, J: n})) || !emit("doublings, plus 1, swapped", append(run(), ref.Op{I: n, J: 0})) {
		return false
	}
	for _, k := range []int{1, n / 2, n - 1} {
		// An inner element of the run is read again, by an addition and by a doubling run.
		if k < 1 || k >= n {
			continue
		}
		if !emit("doublings, inner", append(run(), ref.Op{I: k, J: n})) {
			return false
		}
		ops := append(run(), ref.Op{I: 0, J: k}) // 2^k+1
		if !emit("doublings, branch", dbl(ops, n)) {
			return false
		}
	}
	// Two runs of n with an addition between them and one after them.
	ops := append(run(), ref.Op{I: 0, J: n})
	ops = dbl(ops, n)
	ops = append(ops, ref.Op{I: n, J: len(ops)})
	if !emit("two runs", ops) {
		return false
	}
	// One element other than the first is read n times in all: in additions only, and
	// with the operation directly behind it, a doubling, among them.
	adds, dbls := []ref.Op{{}}, []ref.Op{{}}
	for i := 1; i <= n; i++ {
		if i == 1 {
			adds = append(adds, ref.Op{I: 0, J: 1})
		} else {
			adds = append(adds, ref.Op{I: 1, J: i})
		}
		dbls = append(dbls, ref.Op{I: 1, J: i})
	}
	if !emit("one element read often", adds) || !emit("one element doubled and read often", dbls) || !emit("one element doubled, read often, then a run", dbl(slices.Clone(dbls), 3)) {
		return false
	}
	var count, fib, bits, sums, back []ref.Op
	for i := 0; i < n; i++ {
		count = append(count, ref.Op{I: i, J: 0})
		if i == 0 {
			fib = append(fib, ref.Op{})
		} else {
			fib = append(fib, ref.Op{I: i - 1, J: i})
		}
		bits = append(bits, ref.Op{I: 2 * i, J: 2 * i}, ref.Op{I: 0, J: 2*i + 1})
		sums = append(sums, ref.Op{I: i, J: i})
	}
	back = append(back, sums...)
	for i := 1; i < n; i++ {
		sums = append(sums, ref.Op{I: i, J: len(sums)})
		back = append(back, ref.Op{I: n - i, J: len(back)})
	}
	return emit("counting", count) && emit("fibonacci", fib) && emit("binary ones", bits) && emit("all powers in order", sums) && emit("all powers backwards", back)
}

// LadderInstrs enumerates regular well-formed instruction lists in which every result
// is read: n values alive at once, runs of n instructions, shifts by n.
func LadderInstrs(dense, top int, mine func() bool, f func(ins []ref.ValInstr, note string) bool) {
	Steps(dense, top, func(n int) bool {
		emit := func(note string, build func(b *builder)) bool {
			if !mine() {
				return true
			}
			b := &builder{}
			build(b)
			return f(b.ins, note)
		}
		live := func(b *builder) {
			for i := 0; i < n; i++ {
				switch i % 3 {
				case 0:
					b.add(0, b.last)
				case 1:
					b.dbl(b.last)
				case 2:
					b.shl(b.last, uint(1+i%4))
				}
			}
		}
		return emit("first in first out", func(b *builder) {
			live(b)
			outs := b.outs()
			for _, o := range outs[:len(outs)-1] {
				b.add(b.last, o)
			}
		}) && emit("last in first out", func(b *builder) {
			live(b)
			outs := b.outs()
			for i := len(outs) - 2; i >= 0; i-- {
				b.add(outs[i], b.last)
			}
		}) && emit("pairs", func(b *builder) {
			live(b)
			q := b.outs()
			for len(q) > 1 {
				b.add(q[0], q[1])
				q = append(q[2:], b.last)
			}
		}) && emit("values of the input", func(b *builder) {
			// n values computed from the input alone, then summed, the input last.
			for i := 0; i < n; i++ {
				b.shl(0, uint(i+1))
			}
			outs := b.outs()
			for _, o := range outs[:len(outs)-1] {
				b.add(o, b.last)
			}
			b.add(b.last, 0)
		}) && emit("waves", func(b *builder) {
			// n values are built up and consumed again, three times.
			for w := 0; w < 3; w++ {
				from := len(b.ins)
				live(b)
				outs := b.outs()[from:]
				for i := range outs[:len(outs)-1] {
					if w == 1 {
						i = len(outs) - 2 - i
					}
					b.add(outs[i], b.last)
				}
			}
		}) && emit("one shift", func(b *builder) {
			b.shl(0, uint(n))
			b.add(0, b.last)
			b.shl(b.last, uint(n))
		}) && emit("narrow", func(b *builder) {
			for i := 0; i < n; i++ {
				b.dbl(b.last)
				b.add(b.last, 0)
			}
		}) && emit("narrow shifts", func(b *builder) {
			b.dbl(0)
			first := b.last
			for i := 0; i < n; i++ {
				b.shl(b.last, uint(1+i%3))
				b.add(first, b.last)
			}
		})
	})
}

type builder struct {
	ins  []ref.ValInstr
	last int
}

func (b *builder) put(v ref.ValInstr, d int) {
	b.last += d
	v.Out = b.last
	b.ins = append(b.ins, v)
}
func (b *builder) add(x, y int)      { b.put(ref.ValInstr{K: "+", X: x, Y: y}, 1) }
func (b *builder) dbl(x int)         { b.put(ref.ValInstr{K: "d", X: x}, 1) }
func (b *builder) shl(x int, s uint) { b.put(ref.ValInstr{K: "s", X: x, S: s}, int(s)) }
func (b *builder) outs() (outs []int) {
	for _, v := range b.ins {
		outs = append(outs, v.Out)
	}
	return outs
}

// LargeForms are the shapes of LargeInstrs.
const LargeForms = 6

// LargeInstrs is a list with one size n of the order of 2^8 to 2^16 (2^20 for shifts):
// instructions, values alive at once, or the amount of a shift. Values stay small
// except in the shifts.
func LargeInstrs(form, n int) []ref.ValInstr {
	b := &builder{}
	switch form {
	case 0: // one element after the other
		for i := 0; i < n; i++ {
			b.add(b.last, 0)
		}
	case 1: // n values alive, consumed from the last
		for i := 0; i < n; i++ {
			b.add(b.last, 0)
		}
		outs := b.outs()
		for i := len(outs) - 2; i >= 0; i-- {
			b.add(outs[i], b.last)
		}
	case 2: // n values alive, consumed from the first, the input read at the end
		for i := 0; i < n; i++ {
			b.add(0, b.last)
		}
		outs := b.outs()
		for _, o := range outs[:len(outs)-1] {
			b.add(o, b.last)
		}
		b.add(b.last, 0)
	case 3: // a shift by n in the middle
		b.dbl(0)
		b.add(b.last, 0)
		k := b.last
		b.shl(b.last, uint(n))
		b.add(b.last, k)
		b.add(b.last, 0)
		b.add(b.last, k)
	case 4: // the result of a shift by n read at the end, and a second shift
		b.shl(0, uint(n))
		k := b.last
		b.add(k, 0)
		b.shl(b.last, 3)
		b.add(b.last, k)
		b.dbl(b.last)
		b.add(b.last, k)
	case 5: // a dozen values alive all the time
		for i := 0; i < 12; i++ {
			b.add(b.last, 0)
		}
		outs := b.outs()
		for i := 0; i < n; i++ {
			b.add(outs[0], 0)
			outs = append(outs[1:], b.last)
		}
		for _, o := range outs[:11] {
			b.add(b.last, o)
		}
	}
	return b.ins
}
