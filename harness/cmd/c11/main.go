// C11: a chain of run lengths becomes a valid chain of the runs themselves.
package main

import (
	"fmt"
	"math/big"
	"slices"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/dict"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/algs"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

type lengths struct {
	L    []*big.Int `json:"lengths"`
	Note string     `json:"note,omitempty"`
	Long bool       `json:"long,omitempty"` // lengths up to maxLong
}

const (
	maxLength = 6000
	maxLong   = 1 << 17 // a gigabyte of shifted runs
)

func (l *lengths) Check(r *pbt.Rec) error {
	if ref.CheckChain(l.L) != nil {
		return pbt.ErrInvalid
	}
	oversize := false
	for _, x := range l.L {
		if x.BitLen() > 64 {
			oversize = true
		}
	}
	if !oversize {
		for _, x := range l.L {
			limit := int64(maxLength)
			if l.Long {
				limit = maxLong
			}
			if !x.IsInt64() || x.Int64() > limit {
				return pbt.ErrInvalid // fits a word but cannot be computed in memory
			}
		}
	}
	if l.Note != "" {
		r.Class("source:" + l.Note)
	}
	out, err := dict.RunsChain(addchain.Chain(ref.Clone(l.L)))
	if oversize {
		r.Class("oversize")
		r.NonTrivial()
		if err == nil {
			return fmt.Errorf("RunsChain(%v) accepts a length beyond 64 bits and returns %d elements", l.L, len(out))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("RunsChain(%v): %v", l.L, err)
	}
	if l.Long {
		if err := ref.CheckLongChain(out); err != nil {
			return fmt.Errorf("RunsChain(%v): not a valid chain: %v", l.L, err)
		}
		have := map[int]bool{}
		for _, x := range out {
			if n := x.BitLen(); x.TrailingZeroBits() == 0 && x.Cmp(ref.Ones(uint(n))) == 0 {
				have[n] = true
			}
		}
		for _, x := range l.L {
			if !have[int(x.Int64())] {
				return fmt.Errorf("RunsChain(%v) lacks the run of %v ones", l.L, x)
			}
		}
		r.Class("long")
		r.NonTrivial()
		return nil
	}
	if err := l.contains(out); err != nil {
		return err
	}
	// The result belongs to the caller, who may change it.
	for _, x := range out {
		x.SetInt64(-7)
	}
	if out, err = dict.RunsChain(addchain.Chain(ref.Clone(l.L))); err == nil {
		err = l.contains(out)
	}
	if err != nil {
		return fmt.Errorf("when an earlier result has been overwritten: %w", err)
	}
	switch {
	case !ref.Ascending(l.L):
		r.Class("unordered")
	default:
		r.Class("ascending")
	}
	// Non-trivial: some length is the sum of two different lengths, or is used
	// for more than one other length.
	if len(l.L) >= 3 {
		r.NonTrivial()
	}
	return nil
}

// contains reports whether out is a valid chain with all runs.
func (l *lengths) contains(out []*big.Int) error {
	if err := ref.CheckChain(out); err != nil {
		return fmt.Errorf("RunsChain(%v): not a valid chain: %v: %s", l.L, err, short(out))
	}
	have := map[string]bool{}
	for _, x := range out {
		have[x.Text(62)] = true
	}
	for _, x := range l.L {
		if !have[ref.Ones(uint(x.Uint64())).Text(62)] {
			return fmt.Errorf("RunsChain(%v) lacks the run of %v ones: %s", l.L, x, short(out))
		}
	}
	return nil
}

func short(c []*big.Int) string {
	s := fmt.Sprint(c)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func (l *lengths) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := 1; i < len(l.L); i++ {
		d := &lengths{L: slices.Delete(slices.Clone(l.L), i, i+1), Long: l.Long}
		if ref.CheckChain(d.L) == nil {
			out = append(out, d)
		}
	}
	return out
}

// genLengths draws chains whose values stay below a bound, by rejecting large sums.
func genLengths(t *rapid.T) pbt.Case {
	bound := int64(gens.Pick(t, "bound", 12, 60, 300, 1000, 3000))
	n := gens.Uni(t, "n", 1, gens.Pick(t, "size", 6, 12, 30))
	c := []int64{1}
	for tries := 0; len(c) <= n && tries < 4*n; tries++ {
		var i, j int
		switch gens.Uni(t, "how", 0, 3) {
		case 0:
			i, j = len(c)-1, len(c)-1
		case 1:
			i, j = len(c)-1, gens.Uni(t, "j", 0, len(c)-1)
		case 2:
			i, j = gens.Uni(t, "i", 0, len(c)-1), gens.Uni(t, "j", 0, len(c)-1)
		case 3:
			i = gens.Uni(t, "i", 0, len(c)-1)
			j = i
		}
		v := c[i] + c[j]
		if v <= bound && !slices.Contains(c, v) {
			c = append(c, v)
		}
	}
	if rapid.Bool().Draw(t, "sort") {
		slices.Sort(c)
	}
	return &lengths{L: ref.Big(c), Note: "random"}
}

// genSequence draws lengths as the runs algorithm does: the output of a sequence
// algorithm for a set of run lengths.
func genSequence(t *rapid.T) pbt.Case {
	var ts []*big.Int
	for i, n := 0, gens.Uni(t, "n", 1, 6); i < n; i++ {
		ts = append(ts, big.NewInt(int64(gens.Uni(t, "l", 1, gens.Pick(t, "max", 8, 64, 521, 1024)))))
	}
	s := gens.Pick(t, "seq", "cf:binary", "cf:co_binary", "cf:dichotomic", "cf:sqrt", "cf:dyadic", "cf:fermat", "h:halving,delta", "h:halving,approx", "h:delta", "h:approx")
	c, err := algs.Seq(s).FindSequence(ts)
	if err != nil || ref.CheckChain(c) != nil {
		// Belongs to C08; use a fixed chain here.
		return &lengths{L: ref.Big([]int64{1, 2, 3}), Note: "fallback"}
	}
	return &lengths{L: ref.Clone(c), Note: s}
}

// genOversize draws valid chains that exceed 64 bits somewhere.
func genOversize(t *rapid.T) pbt.Case {
	top := gens.Pick(t, "top", 64, 65, 66, 70, 80, 128)
	c := []*big.Int{big.NewInt(1)}
	add := func(x *big.Int) {
		if !ref.Contains(c, x) {
			c = append(c, x)
		}
	}
	style := gens.Pick(t, "style", "doublings", "ones", "mixed")
	for c[len(c)-1].BitLen() <= top {
		last := c[len(c)-1]
		switch style {
		case "doublings":
			add(new(big.Int).Lsh(last, 1))
		case "ones":
			x := new(big.Int).Lsh(last, 1)
			add(x)
			add(new(big.Int).Add(x, ref.One))
		case "mixed":
			x := new(big.Int).Add(last, c[gens.Uni(t, "j", max(0, len(c)-3), len(c)-1)])
			add(x)
			add(new(big.Int).Lsh(x, 1))
		}
	}
	// Smaller elements after the oversize one, or everything in another order.
	for i, n := 0, gens.Uni(t, "after", 0, 3); i < n; i++ {
		x := new(big.Int).Add(c[gens.Uni(t, "i", 0, min(4, len(c)-1))], c[gens.Uni(t, "j", 0, min(4, len(c)-1))])
		add(x)
	}
	return &lengths{L: c, Note: "oversize " + style}
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:          "C11",
		Rule:        "A case is a valid chain of run lengths; it is non-trivial when it has at least 3 lengths or exceeds a machine word. Oracle: own chain predicate, membership of 2^l-1 for every l, an error for lengths of more than 64 bits.",
		Assumptions: []string{"Lengths that fit a 64-bit word but whose runs do not fit memory (beyond 6000 here or, in the section of long lengths, beyond 131072) are not generated unless the chain also exceeds 64 bits."},
		Kinds:       map[string]func() pbt.Case{"lengths": func() pbt.Case { return &lengths{} }},
		Sections: []pbt.Section{
			{Name: "all-valid-chains", Enum: func(e *pbt.Enum) {
				for n := 1; n <= pbt.Pick(e.Tier, 8, 9); n++ {
					gens.EnumChains(n, e.Mine, func(v []int64) bool { return e.Do(&lengths{L: ref.Big(v)}) })
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				top := pbt.Pick(e.Tier, 300, 1025)
				gens.LadderOps(pbt.Pick(e.Tier, 70, 300), top, e.Mine, func(ops []ref.Op, note string) bool {
					c, err := ref.Eval(ops)
					if err != nil {
						return true
					}
					limit := pbt.Pick(e.Tier, int64(1100), int64(maxLength))
					for k, x := range c {
						if !x.IsInt64() || x.Int64() > limit {
							c = c[:k]
							break
						}
					}
					return e.Do(&lengths{L: c, Note: note})
				})
			}},
			{Name: "long-lengths", Exclusive: true, CaseCPU: 120, Enum: func(e *pbt.Enum) {
				// Around the powers of two at which a narrow counter would wrap.
				chain := func(top int, extra ...int64) []*big.Int {
					c := []int64{1}
					for c[len(c)-1] < int64(top) {
						c = append(c, 2*c[len(c)-1])
					}
					return ref.Big(append(c, extra...))
				}
				cases := [][]*big.Int{
					chain(1<<14, 1<<14+1, 1<<14+1<<13, 32769),
					chain(1 << 17),
				}
				if e.Tier == pbt.Thorough {
					cases = append(cases,
						chain(1<<15, 1<<15+1, 1<<16+1),
						chain(1<<16, 1<<16+1, 1<<16+2, 1<<17),
						chain(1<<16, 1<<16+1<<15, 1<<16+1<<14),
						chain(1<<16, 3<<14, 1<<16+3<<14))
				}
				for _, c := range cases {
					if e.Mine() && !e.Do(&lengths{L: c, Note: "doublings", Long: true}) {
						return
					}
				}
			}},
			{Name: "oversize", N: 2000, Gen: genOversize, Seconds: 10},
			{Name: "random-lengths", Fuzz: 90, N: 30000, Gen: genLengths},
			{Name: "sequence-outputs", N: 16000, Gen: genSequence},
		},
	})
}
