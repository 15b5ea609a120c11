// Package gens holds the generators shared by the checks.
package gens

import (
	"math/big"
	"math/rand/v2"

	"github.com/mmcloughlin/addchain/verif/ref"
	"pgregory.net/rapid"
)

// Int draws from [lo,hi] with rapid's bias to small values.
func Int(t *rapid.T, name string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, name)
}

// Uni draws (nearly) uniformly from [lo,hi].
func Uni(t *rapid.T, name string, lo, hi int) int {
	n := hi - lo + 1
	if n <= 1 {
		return lo
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	v := 0
	for i := 0; i < bits+3; i++ {
		v <<= 1
		if rapid.Bool().Draw(t, name) {
			v |= 1
		}
	}
	return lo + v*n/(1<<(bits+3))
}

// Pick draws one of the values uniformly.
func Pick[T any](t *rapid.T, name string, vs ...T) T {
	return vs[Uni(t, name, 0, len(vs)-1)]
}

// Rand draws a seed and returns a PRNG; used where drawing every bit through
// rapid would be too slow.
func Rand(t *rapid.T) *rand.Rand {
	var s uint64
	for i := 0; i < 32; i++ {
		s <<= 1
		if rapid.Bool().Draw(t, "seed") {
			s |= 1
		}
	}
	return rand.New(rand.NewPCG(s, s^0x9e3779b97f4a7c15))
}

// Bits returns a random integer of exactly n bits (n >= 1).
func Bits(r *rand.Rand, n int) *big.Int {
	x := new(big.Int)
	for x.BitLen() < n {
		k := n - x.BitLen()
		if k > 64 {
			k = 64
		}
		w := r.Uint64() >> uint(64-k)
		if x.Sign() == 0 {
			w |= 1 << uint(k-1)
		}
		x.Lsh(x, uint(k))
		x.Or(x, new(big.Int).SetUint64(w))
	}
	return x
}

func pow2(k int) *big.Int { return new(big.Int).Lsh(ref.One, uint(k)) }

// Families of targets, by name.
var Families = []string{"small", "dense", "pow2", "pow2-c", "pow2+c", "ones", "sparse", "solinas", "runs", "blocks", "trailing", "periodic", "nearsmall"}

// Target draws an integer in [1, 2^maxBits) from one of the bit-pattern families
// the algorithms branch on, and returns the family's name. runs lists run lengths
// of interest (K, K+1, T, T+1, ...).
func Target(t *rapid.T, maxBits int, runs ...int) (*big.Int, string) {
	f := Pick(t, "family", Families...)
	bits := Pick(t, "size", 8, 16, 32, 64, 65, 100, 128, 129, 200, 256, 257, 400, 512, 521, 768, 1024)
	if bits > maxBits {
		bits = maxBits
	}
	bits = Int(t, "bits", 1, bits)
	if rapid.Bool().Draw(t, "big") {
		bits = Uni(t, "bits2", bits, min(maxBits, 2*bits))
	}
	x := new(big.Int)
	switch f {
	case "small":
		x.SetInt64(int64(Int(t, "x", 1, min(1<<min(maxBits, 12), 4096)-1)))
	case "dense":
		x = Bits(Rand(t), bits)
	case "pow2":
		x = pow2(bits - 1)
	case "pow2-c":
		x = pow2(bits)
		x.Sub(x, big.NewInt(int64(Int(t, "c", 1, 1000))))
	case "pow2+c":
		x = pow2(bits - 1)
		x.Add(x, big.NewInt(int64(Int(t, "c", 0, 1000))))
	case "ones":
		x = ref.Ones(uint(bits))
	case "sparse":
		for i, n := 0, Int(t, "n", 1, 6); i < n; i++ {
			x.SetBit(x, Uni(t, "bit", 0, bits-1), 1)
		}
	case "solinas":
		x = pow2(bits - 1)
		for i, n := 0, Int(t, "n", 1, 4); i < n; i++ {
			y := pow2(Uni(t, "bit", 0, bits-1))
			if rapid.Bool().Draw(t, "sign") {
				x.Add(x, y)
			} else {
				x.Sub(x, y)
			}
		}
		if rapid.Bool().Draw(t, "minus") {
			x.Sub(x, big.NewInt(int64(Int(t, "c", 0, 4))))
		}
	case "runs":
		if len(runs) == 0 {
			runs = []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}
		}
		for x.BitLen() < bits {
			l := Pick(t, "run", runs...)
			if l <= 0 {
				l = 1
			}
			x.Lsh(x, uint(l+Int(t, "gap", 1, 6)))
			x.Or(x, ref.Ones(uint(l)))
		}
		x.Lsh(x, uint(Int(t, "tz", 0, 5)))
	case "blocks":
		// Random small windows separated by zeros.
		for x.BitLen() < bits {
			w := Uni(t, "w", 1, 63)
			x.Lsh(x, uint(6+Int(t, "gap", 0, 8)))
			x.Or(x, big.NewInt(int64(w)))
		}
	case "trailing":
		x = Bits(Rand(t), Int(t, "hi", 1, min(bits, 40)))
		x.Lsh(x, uint(bits))
	case "periodic":
		p := Bits(Rand(t), Int(t, "period", 1, 12))
		l := p.BitLen() + Int(t, "gap", 0, 4)
		for x.BitLen() < bits {
			x.Lsh(x, uint(l))
			x.Or(x, p)
		}
	case "nearsmall":
		// a*b + c with small parts: hits continued-fraction corner cases.
		x.SetInt64(int64(Int(t, "a", 1, 50)))
		for x.BitLen() < bits {
			x.Mul(x, big.NewInt(int64(Int(t, "b", 2, 40))))
			x.Add(x, big.NewInt(int64(Int(t, "c", 0, 3))))
		}
	}
	if x.BitLen() > maxBits {
		x.Rsh(x, uint(x.BitLen()-maxBits))
	}
	if x.Sign() <= 0 {
		x.SetInt64(1)
	}
	return x, f
}

// Programs (lists of additions with pairwise distinct values).

// OpsStyle names a shape of random programs.
var OpsStyles = []string{"uniform", "recent", "doubling", "star", "mixed", "reuse"}

// Ops draws a program of up to maxLen additions with pairwise distinct values,
// with the operands of an addition in either order.
func Ops(t *rapid.T, maxLen int) ([]ref.Op, string) {
	style := Pick(t, "style", OpsStyles...)
	n := Int(t, "n", 1, maxLen)
	if rapid.Bool().Draw(t, "long") {
		n = Uni(t, "n2", n, maxLen)
	}
	vals := []*big.Int{big.NewInt(1)}
	seen := map[string]bool{"1": true}
	var ops []ref.Op
	push := func(i, j int) bool {
		z := new(big.Int).Add(vals[i], vals[j])
		k := z.Text(62)
		if seen[k] {
			return false
		}
		seen[k] = true
		vals = append(vals, z)
		ops = append(ops, ref.Op{I: i, J: j})
		return true
	}
	var marks []int // elements inside doubling runs
	for len(ops) < n {
		last := len(vals) - 1
		i, j := last, last
		st := style
		if st == "mixed" {
			st = Pick(t, "sub", "uniform", "recent", "doubling", "star", "reuse")
		}
		run := 1
		switch st {
		case "uniform":
			i, j = Uni(t, "i", 0, last), Uni(t, "j", 0, last)
		case "recent":
			i, j = last-Int(t, "i", 0, min(last, 4)), last-Int(t, "j", 0, min(last, 4))
		case "doubling":
			i = last
			if Int(t, "from", 0, 3) == 1 {
				i = Uni(t, "i", 0, last)
			}
			j = i
			run = Int(t, "run", 1, 8)
			if Uni(t, "kind", 0, 2) == 0 {
				j, run = Uni(t, "j", 0, last), 1
			}
		case "star":
			i, j = last, Uni(t, "j", 0, last)
		case "reuse":
			i = last
			if len(marks) > 0 {
				j = marks[Uni(t, "m", 0, len(marks)-1)]
			} else {
				run = Int(t, "run", 2, 6)
			}
			if Uni(t, "kind", 0, 3) == 0 {
				j = i
				run = Int(t, "run", 1, 6)
			}
		}
		if rapid.Bool().Draw(t, "swap") {
			i, j = j, i
		}
		ok := false
		for r := 0; r < run && len(ops) < n; r++ {
			if !push(i, j) {
				break
			}
			ok = true
			i = len(vals) - 1
			j = i
			if run > 1 {
				marks = append(marks, i)
			}
		}
		if !ok {
			// Doubling the largest value is always new.
			m := 0
			for k := range vals {
				if vals[k].Cmp(vals[m]) > 0 {
					m = k
				}
			}
			push(m, m)
		}
	}
	return ops, style
}

// EnumOps enumerates all programs with exactly n additions and pairwise distinct
// values, with both orders of distinct operands. mine selects work items at the
// third addition. f returns false to stop.
func EnumOps(n int, bothOrders bool, mine func() bool, f func(ops []ref.Op, vals []int64) bool) {
	ops := make([]ref.Op, 0, n)
	vals := make([]int64, 1, n+1)
	vals[0] = 1
	depth := min(3, n)
	var rec func() bool
	rec = func() bool {
		if len(ops) == depth && !mine() {
			return true
		}
		if len(ops) == n {
			return f(ops, vals)
		}
		k := len(vals)
		for j := 0; j < k; j++ {
			for i := 0; i < k; i++ {
				if i > j && !bothOrders {
					break
				}
				v := vals[i] + vals[j]
				dup := false
				for _, w := range vals {
					if w == v {
						dup = true
						break
					}
				}
				if dup {
					continue
				}
				ops = append(ops, ref.Op{I: i, J: j})
				vals = append(vals, v)
				ok := rec()
				ops = ops[:len(ops)-1]
				vals = vals[:len(vals)-1]
				if !ok {
					return false
				}
			}
		}
		return true
	}
	rec()
}

// EnumChains enumerates all valid chains with exactly n elements, in every element
// order (each distinct sequence once). mine selects work items at the third
// element.
func EnumChains(n int, mine func() bool, f func(vals []int64) bool) {
	vals := make([]int64, 1, n)
	vals[0] = 1
	depth := min(4, n)
	var rec func() bool
	rec = func() bool {
		if len(vals) == depth && !mine() {
			return true
		}
		if len(vals) == n {
			return f(vals)
		}
		k := len(vals)
		var next []int64
		for j := 0; j < k; j++ {
		inner:
			for i := 0; i <= j; i++ {
				v := vals[i] + vals[j]
				for _, w := range vals {
					if w == v {
						continue inner
					}
				}
				for _, w := range next {
					if w == v {
						continue inner
					}
				}
				next = append(next, v)
			}
		}
		for _, v := range next {
			vals = append(vals, v)
			ok := rec()
			vals = vals[:len(vals)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	rec()
}

// Chain draws a valid chain of up to maxLen+1 elements; the element order is that
// of the random program, so usually not ascending.
func Chain(t *rapid.T, maxLen int) []*big.Int {
	ops, _ := Ops(t, maxLen)
	c, err := ref.Eval(ops)
	if err != nil {
		panic(err)
	}
	return c
}

// ShrinkInt proposes smaller positive integers.
func ShrinkInt(x *big.Int) []*big.Int {
	var out []*big.Int
	n := x.BitLen()
	for _, k := range []int{n / 2, n / 4, n / 8, 2, 1} {
		if k > 0 && k < n {
			out = append(out, new(big.Int).Rsh(x, uint(k)))
			out = append(out, new(big.Int).And(x, ref.Ones(uint(n-k))))
		}
	}
	for i := n - 1; i >= 0; i-- {
		if x.Bit(i) == 1 {
			out = append(out, new(big.Int).SetBit(x, i, 0))
		}
	}
	if x.Cmp(ref.One) > 0 {
		out = append(out, new(big.Int).Sub(x, ref.One))
	}
	return out
}
