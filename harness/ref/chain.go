// Package ref holds reference models written from the property statements. It
// imports nothing from the code under test.
package ref

import (
	"fmt"
	"math/big"
	"math/bits"
)

// One is the integer 1.
var One = big.NewInt(1)

func key(x *big.Int) string {
	if x.Sign() < 0 {
		return "-" + string(x.Bytes())
	}
	return string(x.Bytes())
}

// CheckChain reports why c is not an addition chain: it must start at 1, have no
// zero and no repeated value, and every later element must be the sum of two
// (possibly equal) earlier elements.
func CheckChain(c []*big.Int) error {
	if len(c) == 0 {
		return fmt.Errorf("empty")
	}
	if c[0] == nil || c[0].Cmp(One) != 0 {
		return fmt.Errorf("does not start with 1")
	}
	seen := map[string]bool{key(c[0]): true}
	d := new(big.Int)
	for k := 1; k < len(c); k++ {
		x := c[k]
		if x == nil {
			return fmt.Errorf("nil at %d", k)
		}
		if x.Sign() == 0 {
			return fmt.Errorf("zero at %d", k)
		}
		if seen[key(x)] {
			return fmt.Errorf("repeated value %v at %d", x, k)
		}
		ok := false
		for j := k - 1; j >= 0; j-- {
			d.Sub(x, c[j])
			if d.Sign() != 0 && seen[key(d)] {
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Errorf("element %d (%v) is not the sum of two earlier elements", k, x)
		}
		seen[key(x)] = true
	}
	return nil
}

// CheckChain64 is CheckChain on machine integers (no overflow may occur).
func CheckChain64(c []int64) bool {
	if len(c) == 0 || c[0] != 1 {
		return false
	}
	for k := 1; k < len(c); k++ {
		if c[k] == 0 {
			return false
		}
		sum := false
		for i := 0; i < k; i++ {
			if c[i] == c[k] {
				return false
			}
			for j := i; j < k; j++ {
				if c[i]+c[j] == c[k] {
					sum = true
				}
			}
		}
		if !sum {
			return false
		}
	}
	return true
}

// Op is an addition of elements I and J.
type Op struct {
	I, J int
}

// Eval evaluates a list of additions; operands must exist.
func Eval(ops []Op) ([]*big.Int, error) {
	c := []*big.Int{big.NewInt(1)}
	for k, op := range ops {
		if op.I < 0 || op.J < 0 || op.I > k || op.J > k {
			return nil, fmt.Errorf("operation %d uses element out of range: %v", k, op)
		}
		c = append(c, new(big.Int).Add(c[op.I], c[op.J]))
	}
	return c, nil
}

// Ascending reports whether c starts with 1 and is strictly increasing.
func Ascending(c []*big.Int) bool {
	if len(c) == 0 || c[0].Cmp(One) != 0 {
		return false
	}
	for i := 1; i < len(c); i++ {
		if c[i-1].Cmp(c[i]) >= 0 {
			return false
		}
	}
	return true
}

// Distinct reports whether all values differ.
func Distinct(c []*big.Int) bool {
	m := map[string]bool{}
	for _, x := range c {
		if m[key(x)] {
			return false
		}
		m[key(x)] = true
	}
	return true
}

// Contains reports membership.
func Contains(c []*big.Int, x *big.Int) bool {
	for _, y := range c {
		if x.Cmp(y) == 0 {
			return true
		}
	}
	return false
}

// Equal compares lists.
func Equal(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil || a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// Clone deep-copies a list.
func Clone(c []*big.Int) []*big.Int {
	if c == nil {
		return nil
	}
	r := make([]*big.Int, len(c))
	for i := range c {
		r[i] = new(big.Int).Set(c[i])
	}
	return r
}

// Big converts machine integers.
func Big(c []int64) []*big.Int {
	r := make([]*big.Int, len(c))
	for i := range c {
		r[i] = big.NewInt(c[i])
	}
	return r
}

// Subsequence reports whether a is a subsequence of b.
func Subsequence(a, b []*big.Int) bool {
	j := 0
	for _, x := range b {
		if j < len(a) && a[j].Cmp(x) == 0 {
			j++
		}
	}
	return j == len(a)
}

// Ones returns 2^n - 1.
func Ones(n uint) *big.Int {
	x := new(big.Int).Lsh(One, n)
	return x.Sub(x, One)
}

// CheckLongChain decides what CheckChain decides, for chains of very many long
// values that are mostly doublings: sums are looked up by fingerprint (the value
// modulo a prime, which is additive) and confirmed by an exact addition.
func CheckLongChain(c []*big.Int) error {
	if len(c) == 0 || c[0] == nil || c[0].Cmp(One) != 0 {
		return fmt.Errorf("does not start with 1")
	}
	const M = 1<<63 - 25 // prime
	print := func(x *big.Int) uint64 {
		h := uint64(0)
		words := x.Bits()
		for i := len(words) - 1; i >= 0; i-- {
			h = bits.Rem64(h, uint64(words[i]), M)
		}
		return h
	}
	h := make([]uint64, len(c))
	at := map[uint64][]int{}
	sum := new(big.Int)
	confirm := func(i int, rest uint64, k int) bool {
		for _, j := range at[rest] {
			if sum.Add(c[i], c[j]).Cmp(c[k]) == 0 {
				return true
			}
		}
		return false
	}
	for k, x := range c {
		if x == nil || x.Sign() <= 0 {
			return fmt.Errorf("element %d is not positive", k)
		}
		h[k] = print(x)
		for _, j := range at[h[k]] {
			if c[j].Cmp(x) == 0 {
				return fmt.Errorf("element %d repeats element %d", k, j)
			}
		}
		ok := k == 0
		for i := k - 1; i >= 0 && !ok; i-- {
			rest := h[k] + M - h[i]
			if rest >= M {
				rest -= M
			}
			ok = confirm(i, rest, k)
		}
		if !ok {
			return fmt.Errorf("element %d (of %d bits) is not the sum of two earlier elements", k, x.BitLen())
		}
		at[h[k]] = append(at[h[k]], k)
	}
	return nil
}
