// C09: dictionary decompositions represent the target exactly, without overlap.
package main

import (
	"fmt"
	"math"
	"math/big"
	"slices"
	"sort"

	"github.com/mmcloughlin/addchain/alg/dict"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/algs"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

type decomp struct {
	X    *big.Int        `json:"x"`
	D    algs.Decomposer `json:"d"`
	Note string          `json:"note,omitempty"`
}

func allOnes(d *big.Int) bool {
	for i := 0; i < d.BitLen(); i++ {
		if d.Bit(i) == 0 {
			return false
		}
	}
	return d.Sign() > 0
}

// wide reports whether d has more than k bits.
func wide(d *big.Int, k uint) bool { return uint64(d.BitLen()) > uint64(k) }

func checkSum(sum dict.Sum, x *big.Int, d algs.Decomposer) error {
	total := new(big.Int)
	var next uint
	for i, t := range sum {
		if t.D == nil || t.D.Sign() <= 0 {
			return fmt.Errorf("term %d has d = %v", i, t.D)
		}
		if i > 0 && t.E <= sum[i-1].E {
			return fmt.Errorf("exponents are not strictly increasing at term %d", i)
		}
		if i > 0 && t.E < next {
			return fmt.Errorf("term %d overlaps the one before", i)
		}
		if t.E > uint(x.BitLen()) {
			return fmt.Errorf("term %d has exponent %d", i, t.E)
		}
		next = t.E + uint(t.D.BitLen())
		total.Add(total, new(big.Int).Lsh(t.D, t.E))
		switch d.M {
		case "fw":
			if wide(t.D, d.K) {
				return fmt.Errorf("term %d (%v) has more than K bits", i, t.D)
			}
		case "sw":
			if t.D.Bit(0) == 0 || wide(t.D, d.K) {
				return fmt.Errorf("term %d (%v) is even or has more than K bits", i, t.D)
			}
		case "rl":
			if !allOnes(t.D) || d.T > 0 && wide(t.D, d.T) {
				return fmt.Errorf("term %d (%v) is not a run of at most T ones", i, t.D)
			}
		case "hy":
			if t.D.Bit(0) == 0 {
				return fmt.Errorf("term %d (%v) is even", i, t.D)
			}
			if wide(t.D, d.K) && (!allOnes(t.D) || d.T > 0 && wide(t.D, d.T)) {
				return fmt.Errorf("term %d (%v) has more than K bits and is not a run of at most T ones", i, t.D)
			}
		}
	}
	if total.Cmp(x) != 0 {
		return fmt.Errorf("terms sum to %v", total)
	}
	return nil
}

func (c *decomp) Check(r *pbt.Rec) error {
	if c.X.Sign() <= 0 || c.D.M != "rl" && c.D.K == 0 {
		return pbt.ErrInvalid
	}
	x := new(big.Int).Set(c.X)
	dec := c.D.Build()
	r.Class("method:%s", c.D.M)
	if c.Note != "" {
		r.Class("family:%s", c.Note)
	}
	sum := dec.Decompose(x)
	show := func() string { return fmt.Sprintf("%v of %v (%s): %s", c.D, c.X, c.X.Text(2), short(sum)) }
	if x.Cmp(c.X) != 0 {
		return fmt.Errorf("%s: x was changed to %v", show(), x)
	}
	if err := checkSum(sum, c.X, c.D); err != nil {
		return fmt.Errorf("%s: %v", show(), err)
	}
	before := clone(sum)
	if got := sum.Int(); got == nil || got.Cmp(c.X) != 0 {
		return fmt.Errorf("%s: Sum.Int() = %v", show(), got)
	}
	if err := checkDictionary(sum, before); err != nil {
		return fmt.Errorf("%s: %v", show(), err)
	}
	// The decomposition is still that of x after the dictionary was derived.
	if err := checkSum(sum, c.X, c.D); err != nil {
		return fmt.Errorf("%s: after Int and Dictionary: %v", show(), err)
	}
	if x.Cmp(c.X) != 0 {
		return fmt.Errorf("%s: x was changed to %v by Int or Dictionary", show(), x)
	}
	if len(sum) >= 2 {
		r.NonTrivial()
	}
	if c.D.M == "hy" {
		long := false
		for _, t := range sum {
			long = long || wide(t.D, c.D.K)
		}
		if long {
			r.Class("hybrid with long run")
		}
	}
	return nil
}

func checkDictionary(sum, before dict.Sum) error {
	var want []*big.Int
	for _, t := range before {
		if !ref.Contains(want, t.D) {
			want = append(want, t.D)
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i].Cmp(want[j]) < 0 })
	got := sum.Dictionary()
	if !ref.Equal(got, want) {
		return fmt.Errorf("Dictionary() = %v, want %v", got, want)
	}
	return nil
}

func clone(s dict.Sum) dict.Sum {
	o := make(dict.Sum, len(s))
	for i, t := range s {
		o[i] = dict.Term{D: new(big.Int).Set(t.D), E: t.E}
	}
	return o
}

func short(s dict.Sum) string {
	o := fmt.Sprint(s)
	if len(o) > 600 {
		o = o[:600] + "..."
	}
	return o
}

func (c *decomp) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, x := range gens.ShrinkInt(c.X) {
		out = append(out, &decomp{X: x, D: c.D})
	}
	d := c.D
	for _, k := range []uint{1, 2, 3, d.K / 2, d.K - 1} {
		if k >= 1 && k < d.K {
			e := d
			e.K = k
			out = append(out, &decomp{X: c.X, D: e})
		}
	}
	for _, k := range []uint{0, 1, 2, 3, d.T / 2, d.T - 1} {
		if k < d.T {
			e := d
			e.T = k
			out = append(out, &decomp{X: c.X, D: e})
		}
	}
	return out
}

// terms is an arbitrary list of terms: Term.Int, Sum.Int, SortByExponent and
// Dictionary against their definitions.
type terms struct {
	D []*big.Int `json:"d"`
	E []uint     `json:"e"`
}

func (c *terms) Check(r *pbt.Rec) error {
	if len(c.D) != len(c.E) {
		return pbt.ErrInvalid
	}
	sum := dict.Sum{}
	total := new(big.Int)
	for i := range c.D {
		t := dict.Term{D: new(big.Int).Set(c.D[i]), E: c.E[i]}
		want := new(big.Int).Mul(c.D[i], new(big.Int).Exp(big.NewInt(2), new(big.Int).SetUint64(uint64(c.E[i])), nil))
		if got := t.Int(); got.Cmp(want) != 0 {
			return fmt.Errorf("Term{%v,%d}.Int() = %v", c.D[i], c.E[i], got)
		}
		if t.D.Cmp(c.D[i]) != 0 {
			return fmt.Errorf("Term.Int changed the term %v", c.D[i])
		}
		total.Add(total, want)
		sum = append(sum, t)
	}
	before := clone(sum)
	if got := sum.Int(); got.Cmp(total) != 0 {
		return fmt.Errorf("Sum%v.Int() = %v, want %v", before, got, total)
	}
	if err := checkDictionary(sum, before); err != nil {
		return fmt.Errorf("Sum%v: %v", before, err)
	}
	for i := range sum {
		if sum[i].E != before[i].E || sum[i].D.Cmp(before[i].D) != 0 {
			return fmt.Errorf("Int or Dictionary changed the sum %v into %v", before, sum)
		}
	}
	sum.SortByExponent()
	key := func(t dict.Term) string { return fmt.Sprint(t.E, " ", t.D) }
	m := map[string]int{}
	for i := range sum {
		m[key(sum[i])]++
		m[key(before[i])]--
		if i > 0 && sum[i-1].E > sum[i].E {
			return fmt.Errorf("SortByExponent(%v) = %v", before, sum)
		}
	}
	for _, n := range m {
		if n != 0 {
			return fmt.Errorf("SortByExponent(%v) = %v", before, sum)
		}
	}
	if len(c.D) > 1 {
		r.NonTrivial()
	}
	return nil
}

func (c *terms) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range c.D {
		out = append(out, &terms{D: slices.Delete(slices.Clone(c.D), i, i+1), E: slices.Delete(slices.Clone(c.E), i, i+1)})
	}
	return out
}

func genTerms(t *rapid.T) pbt.Case {
	c := &terms{}
	n := gens.Uni(t, "n", 0, 8)
	r := gens.Rand(t)
	for i := 0; i < n; i++ {
		var d *big.Int
		if len(c.D) > 0 && gens.Uni(t, "dup", 0, 2) == 0 {
			d = c.D[gens.Uni(t, "which", 0, len(c.D)-1)]
		} else {
			d = gens.Bits(r, 1+r.IntN(gens.Pick(t, "w", 3, 12, 70, 200)))
		}
		c.D = append(c.D, d)
		c.E = append(c.E, uint(gens.Uni(t, "e", 0, gens.Pick(t, "emax", 4, 70, 300))))
	}
	return c
}

var hugeK = []uint{31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 65535, 65536, 65537, 1 << 31, 1<<31 + 2, 1<<32 - 1, 1 << 32, math.MaxInt64 - 1, math.MaxInt64, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}

func genDecomp(t *rapid.T) pbt.Case {
	d := algs.Decomposer{M: gens.Pick(t, "m", "fw", "sw", "rl", "hy", "hy")}
	size := func(name string) uint {
		switch gens.Uni(t, name+"-kind", 0, 6) {
		case 6:
			return uint(gens.Uni(t, name, 1, 1100))
		case 0:
			return gens.Pick(t, name, hugeK...)
		case 1:
			return uint(gens.Uni(t, name, 1, 70))
		}
		return uint(gens.Uni(t, name, 1, 12))
	}
	d.K = size("K")
	if d.M == "rl" {
		d.K = 0
	}
	if d.M == "rl" || d.M == "hy" {
		d.T = size("T")
		switch gens.Uni(t, "T-rel", 0, 5) {
		case 0:
			d.T = 0
		case 1:
			d.T = d.K
		case 2:
			d.T = d.K + 1
		case 3:
			if d.K > 1 {
				d.T = d.K - 1
			}
		}
	}
	var runs []int
	for _, k := range []uint{d.K, d.T} {
		if k > 0 && k <= 600 {
			runs = append(runs, max(1, int(k)-1), int(k), int(k)+1, 2*int(k), 2*int(k)+1, 3*int(k)-1)
		}
	}
	runs = append(runs, 1, 2, 3)
	x, f := gens.Target(t, gens.Pick(t, "bits", 20, 64, 65, 130, 1100), runs...)
	return &decomp{X: x, D: d, Note: f}
}

func configs(maxK, maxT int) []algs.Decomposer {
	var out []algs.Decomposer
	for k := 1; k <= maxK; k++ {
		out = append(out, algs.Decomposer{M: "fw", K: uint(k)}, algs.Decomposer{M: "sw", K: uint(k)})
		for t := 0; t <= maxT; t++ {
			out = append(out, algs.Decomposer{M: "hy", K: uint(k), T: uint(t)})
		}
	}
	for t := 0; t <= maxT; t++ {
		out = append(out, algs.Decomposer{M: "rl", T: uint(t)})
	}
	return out
}

// long takes targets beyond the widths of narrow counters.
func long(e *pbt.Enum) {
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(ref.One, n) }
	var xs []*big.Int
	for _, n := range pbt.Pick(e.Tier, []uint{255, 256, 257, 1023, 1024, 4097}, []uint{127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 16384, 32769}) {
		a := new(big.Int).Lsh(ref.Ones(n), n+3) // two runs
		xs = append(xs, ref.Ones(n), a.Or(a, ref.Ones(n)))
		b := new(big.Int).Lsh(ref.Ones(n/2), n) // a run, and other bits
		xs = append(xs, b.Or(b, new(big.Int).Div(pow(n-2), big.NewInt(5))), new(big.Int).Div(pow(n+1), big.NewInt(3)))
	}
	for _, n := range []uint{32768, 65535, 65536, 65537, 70000} {
		a := pow(n)
		a.Or(a, pow(n/2)).Or(a, pow(300)).Or(a, ref.Ones(9))
		xs = append(xs, a, new(big.Int).Lsh(big.NewInt(0x2d), n))
	}
	if e.Tier == pbt.Thorough {
		xs = append(xs, ref.Ones(65536), ref.Ones(66000), new(big.Int).Div(pow(66000), big.NewInt(7)))
	}
	sizes := []uint{1, 2, 5, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 768, 1023, 1024, 1025, 4096, 65535, 65536, 65537}
	for _, x := range xs {
		for i, k := range sizes {
			ds := []algs.Decomposer{{M: "fw", K: k}, {M: "sw", K: k}, {M: "rl", T: k}, {M: "hy", K: k}, {M: "hy", K: 3, T: k}, {M: "hy", K: k, T: k + 1}, {M: "hy", K: k, T: 2}, {M: "hy", K: k, T: sizes[(i+3)%len(sizes)]}}
			for _, d := range ds {
				if x.BitLen() > 5000 && k < 5 && d.M != "rl" && e.Tier == pbt.Quick {
					continue
				}
				if e.Mine() && !e.Do(&decomp{X: x, D: d, Note: "long"}) {
					return
				}
			}
		}
	}
}

// ladder takes targets with n terms or n bits.
func ladder(e *pbt.Enum) {
	gens.Steps(pbt.Pick(e.Tier, 130, 300), pbt.Pick(e.Tier, 600, 1025), func(n int) bool {
		var xs []*big.Int
		for _, p := range []struct{ ones, gap uint }{{1, 1}, {2, 1}, {3, 2}, {5, 1}, {1, 9}} {
			x := new(big.Int)
			for i := 0; i < n; i++ {
				x.Lsh(x, p.ones+p.gap)
				x.Or(x, ref.Ones(p.ones))
			}
			xs = append(xs, x)
		}
		p := new(big.Int).Lsh(ref.One, uint(n))
		xs = append(xs, ref.Ones(uint(n)), p, new(big.Int).Add(p, ref.One), new(big.Int).Lsh(big.NewInt(11), uint(n)))
		for i, x := range xs {
			for _, k := range []uint{1, 2, 3, 4, uint(n), uint(n) + 1, uint(max(1, n-1))} {
				for _, d := range []algs.Decomposer{{M: "fw", K: k}, {M: "sw", K: k}, {M: "rl", T: k}, {M: "hy", K: k}, {M: "hy", K: 3, T: k}, {M: "hy", K: k, T: 2}} {
					if (i+n)%4 != int(k)%4 && e.Tier == pbt.Quick {
						continue
					}
					if e.Mine() && !e.Do(&decomp{X: x, D: d, Note: "ladder"}) {
						return false
					}
				}
			}
		}
		return true
	})
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C09",
		Rule: "A case is an integer and a decomposition method with its K and T (or an arbitrary list of terms); it is non-trivial when the decomposition has at least two terms. Oracle: direct transcription of the property (exact sum, positive d, increasing exponents, no overlap, shape of the terms, dictionary, x unchanged).",
		Kinds: map[string]func() pbt.Case{
			"decomp": func() pbt.Case { return &decomp{} },
			"terms":  func() pbt.Case { return &terms{} },
		},
		Sections: []pbt.Section{
			{Name: "small-grid", CaseCPU: 20, Enum: func(e *pbt.Enum) {
				bits := pbt.Pick(e.Tier, 13, 16)
				cs := configs(bits+1, bits+1)
				for x := int64(1); x < 1<<bits; x++ {
					if !e.Mine() {
						continue
					}
					for _, d := range cs {
						if !e.Do(&decomp{X: big.NewInt(x), D: d}) {
							return
						}
					}
				}
			}},
			{Name: "extreme-sizes", CaseCPU: 20, Enum: func(e *pbt.Enum) {
				for x := int64(1); x < 300; x++ {
					if !e.Mine() {
						continue
					}
					for _, k := range hugeK {
						for _, d := range []algs.Decomposer{{M: "fw", K: k}, {M: "sw", K: k}, {M: "rl", T: k}, {M: "hy", K: k}, {M: "hy", K: 2, T: k}, {M: "hy", K: k, T: 3}, {M: "hy", K: k, T: k}} {
							if !e.Do(&decomp{X: big.NewInt(x), D: d}) {
								return
							}
						}
					}
				}
			}},
			{Name: "long-targets", Enum: long, CaseCPU: 60},
			{Name: "ladder", Enum: ladder, CaseCPU: 20},
			{Name: "random", Fuzz: 90, N: 240000, Gen: genDecomp, CaseCPU: 20},
			{Name: "term-lists", N: 20000, Gen: genTerms, Seconds: 15},
		},
	})
}
