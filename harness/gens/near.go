package gens

import (
	"math/big"

	"github.com/mmcloughlin/addchain/verif/ref"
)

// Near returns numbers that differ from x but that a shortened comparison
// confuses with it: one bit flipped (at the ends, in the middle, and on either
// side of the word boundaries), the sign flipped, a word added above, the top
// word alone and the bottom word alone.
func Near(x *big.Int) []*big.Int {
	var out []*big.Int
	add := func(y *big.Int) {
		if y.Cmp(x) != 0 && !ref.Contains(out, y) {
			out = append(out, y)
		}
	}
	n := x.BitLen()
	mag := new(big.Int).Abs(x)
	signed := func(y *big.Int) *big.Int {
		if x.Sign() < 0 {
			return y.Neg(y)
		}
		return y
	}
	for _, b := range []int{0, 1, 7, 8, 31, 32, 52, 53, 63, 64, 127, 128, n / 4, n / 2, 3 * n / 4, n - 65, n - 64, n - 54, n - 33, n - 2, n - 1} {
		if b >= 0 && b < n {
			add(signed(new(big.Int).SetBit(mag, b, 1-mag.Bit(b))))
		}
	}
	add(new(big.Int).Neg(x))
	for _, w := range []uint{8, 16, 32, 53, 64} {
		add(signed(new(big.Int).Add(mag, new(big.Int).Lsh(ref.One, w))))
	}
	if n > 64 {
		add(signed(new(big.Int).Rsh(mag, uint(n-64))))
		add(signed(new(big.Int).SetUint64(mag.Uint64())))
	}
	return out
}
