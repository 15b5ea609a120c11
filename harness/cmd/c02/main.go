// C02: chain validation accepts exactly the addition chains and lists exactly their ops.
package main

import (
	"fmt"
	"math/big"
	"slices"

	"github.com/mmcloughlin/addchain"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

type seq struct {
	C       []*big.Int   `json:"c"`
	Targets []*big.Int   `json:"targets"` // for Produces
	Sets    [][]*big.Int `json:"sets"`    // for Superset
	Note    string       `json:"note,omitempty"`
}

func (s *seq) Check(r *pbt.Rec) error {
	in := ref.Clone(s.C)
	c := addchain.Chain(ref.Clone(s.C))
	unchanged := func(what string) error {
		if !ref.Equal(c, in) {
			return fmt.Errorf("%s changed the chain %v to %v", what, in, c)
		}
		return nil
	}

	why := ref.CheckChain(in)
	valid := why == nil
	verr := c.Validate()
	if (verr == nil) != valid {
		return fmt.Errorf("Validate(%v) = %v, by definition: %v", in, verr, why)
	}
	if err := unchanged("Validate"); err != nil {
		return err
	}

	// Program.
	p, perr := c.Program()
	if (perr == nil) != valid {
		return fmt.Errorf("Program(%v): error %v, by definition: %v", in, perr, why)
	}
	if valid {
		if len(p) != len(in)-1 {
			return fmt.Errorf("Program(%v) has %d operations", in, len(p))
		}
		ops := make([]ref.Op, len(p))
		for i, op := range p {
			ops[i] = ref.Op{I: op.I, J: op.J}
		}
		v, err := ref.Eval(ops)
		if err != nil {
			return fmt.Errorf("Program(%v) = %v: %v", in, p, err)
		}
		if !ref.Equal(v, in) {
			return fmt.Errorf("Program(%v) = %v evaluates to %v", in, p, v)
		}
		if got := p.Evaluate(); !ref.Equal(got, in) {
			return fmt.Errorf("Program(%v).Evaluate() = %v", in, got)
		}
	}
	if err := unchanged("Program"); err != nil {
		return err
	}

	// Produces.
	for _, t := range s.Targets {
		x := new(big.Int).Set(t)
		want := valid && in[len(in)-1].Cmp(t) == 0
		if err := c.Produces(x); (err == nil) != want {
			return fmt.Errorf("%v.Produces(%v) = %v, want success=%v", in, t, err, want)
		}
		if x.Cmp(t) != 0 {
			return fmt.Errorf("Produces changed its target %v to %v", t, x)
		}
		r.Evals(1)
	}

	// Superset.
	for _, ts := range s.Sets {
		want := valid
		for _, t := range ts {
			want = want && ref.Contains(in, t)
		}
		arg := ref.Clone(ts)
		if err := c.Superset(arg); (err == nil) != want {
			return fmt.Errorf("%v.Superset(%v) = %v, want success=%v", in, ts, err, want)
		}
		if !ref.Equal(arg, ts) {
			return fmt.Errorf("Superset changed its targets %v to %v", ts, arg)
		}
		r.Evals(1)
	}

	// IsAscending.
	if got, want := c.IsAscending(), ref.Ascending(in); got != want {
		return fmt.Errorf("%v.IsAscending() = %v", in, got)
	}

	// Ops and Op at every position.
	sum := new(big.Int)
	multi := false
	for k := range in {
		var want []ref.Op
		for i := 0; i < k; i++ {
			for j := i; j < k; j++ {
				if sum.Add(in[i], in[j]).Cmp(in[k]) == 0 {
					want = append(want, ref.Op{I: i, J: j})
				}
			}
		}
		if len(want) > 1 {
			multi = true
		}
		var got []ref.Op
		for _, op := range c.Ops(k) {
			got = append(got, ref.Op{I: op.I, J: op.J})
		}
		cmp := func(a, b ref.Op) int {
			if a.I != b.I {
				return a.I - b.I
			}
			return a.J - b.J
		}
		sorted := slices.Clone(got)
		slices.SortFunc(sorted, cmp)
		if !slices.Equal(sorted, want) {
			return fmt.Errorf("%v.Ops(%d) = %v, by definition %v", in, k, got, want)
		}
		op, err := c.Op(k)
		if (err == nil) != (len(want) > 0) {
			return fmt.Errorf("%v.Op(%d): error %v, by definition %v", in, k, err, want)
		}
		if err == nil && !slices.Contains(want, ref.Op{I: op.I, J: op.J}) {
			return fmt.Errorf("%v.Op(%d) = %v, by definition %v", in, k, op, want)
		}
		r.Evals(1)
	}
	if err := unchanged("Ops/Op/IsAscending/Produces/Superset"); err != nil {
		return err
	}

	if s.Note != "" {
		r.Class("mutation:" + s.Note)
	}
	switch {
	case valid && ref.Ascending(in):
		r.Class("valid ascending")
	case valid:
		r.Class("valid unordered")
	case ref.Ascending(in):
		r.Class("invalid ascending")
	default:
		r.Class("invalid")
	}
	if multi {
		r.Class("some position has several ops")
	}
	if len(in) >= 3 {
		r.NonTrivial()
	}
	return nil
}

// Shrinks removes elements and reduces values.
func (s *seq) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range s.C {
		d := *s
		d.C = slices.Delete(slices.Clone(s.C), i, i+1)
		out = append(out, &d)
	}
	if len(s.Targets) > 0 || len(s.Sets) > 0 {
		d := *s
		d.Targets, d.Sets = nil, nil
		out = append(out, &d)
		for i := range s.Targets {
			d := *s
			d.Targets = slices.Delete(slices.Clone(s.Targets), i, i+1)
			out = append(out, &d)
		}
		for i := range s.Sets {
			d := *s
			d.Sets = slices.Delete(slices.Clone(s.Sets), i, i+1)
			out = append(out, &d)
		}
	}
	return out
}

func mk(c []int64, note string) *seq {
	b := ref.Big(c)
	s := &seq{C: b, Note: note}
	// Targets: the last element, the first, a neighbour, zero and the maximum.
	if n := len(c); n > 0 {
		last := c[n-1]
		m := slices.Max(c)
		s.Targets = ref.Big([]int64{last, c[0], last + 1, m, 0})
		s.Sets = [][]*big.Int{
			{}, ref.Big([]int64{last}), ref.Big([]int64{c[0], last}), ref.Big(slices.Clone(c)),
			ref.Big([]int64{last + 1}), ref.Big([]int64{c[n/2], m + 1}), ref.Big([]int64{m + 1, c[n/2]}), ref.Big([]int64{0}), ref.Big([]int64{1, 1}),
			ref.Big([]int64{-1}),
		}
	} else {
		s.Targets = ref.Big([]int64{0, 1})
		s.Sets = [][]*big.Int{{}, ref.Big([]int64{1})}
	}
	return s
}

// addNear adds n targets that are almost the element at k, different ones for
// different lengths of the sequence.
func (s *seq) addNear(k, n int) {
	near := gens.Near(s.C[k])
	for i := 0; i < min(n, len(near)); i++ {
		t := near[(i+len(s.C)*n)%len(near)]
		s.Targets = append(s.Targets, t)
		s.Sets = append(s.Sets, []*big.Int{t})
	}
}

// words enumerates all sequences of the given length over lo..hi.
func words(e *pbt.Enum, prefix []int64, length int, lo, hi int64) {
	w := make([]int64, len(prefix)+length)
	copy(w, prefix)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(w) {
			if !e.Mine() {
				return true
			}
			return e.Do(mk(slices.Clone(w), ""))
		}
		for v := lo; v <= hi; v++ {
			w[i] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	rec(len(prefix))
}

func gen(t *rapid.T) pbt.Case {
	c := gens.Chain(t, gens.Pick(t, "size", 4, 10, 40, 90))
	if rapid.Bool().Draw(t, "sort") {
		slices.SortFunc(c, (*big.Int).Cmp)
	}
	note := ""
	at := func(name string) int { return gens.Uni(t, name, 0, len(c)-1) }
	for i, n := 0, gens.Pick(t, "mutations", 0, 0, 1, 1, 1, 2, 3); i < n && len(c) > 0; i++ {
		m := gens.Pick(t, "mutation", "swap", "delete", "repeat", "inc", "dec", "neg", "zero", "set-sum", "random", "double-last", "first", "move", "truncate", "half", "big", "near")
		note += m + " "
		k := at("k")
		switch m {
		case "swap":
			j := at("j")
			c[k], c[j] = c[j], c[k]
		case "delete":
			c = slices.Delete(c, k, k+1)
		case "repeat":
			c = slices.Insert(c, at("j"), new(big.Int).Set(c[k]))
		case "inc":
			c[k] = new(big.Int).Add(c[k], ref.One)
		case "dec":
			c[k] = new(big.Int).Sub(c[k], ref.One)
		case "neg":
			c[k] = new(big.Int).Neg(c[k])
		case "zero":
			if rapid.Bool().Draw(t, "insert") {
				c = slices.Insert(c, k, new(big.Int))
			} else {
				c[k] = new(big.Int)
			}
		case "set-sum":
			c[k] = new(big.Int).Add(c[at("i")], c[at("j")])
		case "random":
			c[k] = gens.Bits(gens.Rand(t), gens.Uni(t, "bits", 1, 200))
		case "double-last":
			c = append(c, new(big.Int).Lsh(c[len(c)-1], 1))
		case "first":
			c[0] = big.NewInt(int64(gens.Uni(t, "v", -2, 4)))
		case "move":
			x := c[k]
			c = slices.Delete(c, k, k+1)
			c = slices.Insert(c, gens.Uni(t, "to", 0, len(c)), x)
		case "truncate":
			c = c[:k]
		case "half":
			c[k] = new(big.Int).Rsh(c[k], 1)
		case "near":
			if near := gens.Near(c[k]); len(near) > 0 {
				c[k] = near[gens.Uni(t, "near", 0, len(near)-1)]
			}
		case "big":
			// Same low words, different high part.
			c[k] = new(big.Int).Add(c[k], new(big.Int).Lsh(ref.One, uint(gens.Pick(t, "limb", 32, 63, 64, 128, 192))))
		}
	}
	s := &seq{C: c, Note: note}
	if note == "" {
		s.Note = "none"
	} else if i := slices.Index([]byte(note), ' '); i >= 0 {
		s.Note = note[:i]
	}
	pick := func() *big.Int {
		if len(c) == 0 {
			return big.NewInt(1)
		}
		x := new(big.Int).Set(c[at("t")])
		switch gens.Uni(t, "tk", 0, 7) {
		case 0:
			x.Add(x, ref.One)
		case 1:
			x.Sub(x, ref.One)
		case 2, 3:
			if near := gens.Near(x); len(near) > 0 {
				x.Set(near[gens.Uni(t, "near", 0, len(near)-1)])
			}
		}
		return x
	}
	if len(c) > 0 {
		s.Targets = append(s.Targets, new(big.Int).Set(c[len(c)-1]))
	}
	s.Targets = append(s.Targets, pick())
	for i, n := 0, gens.Uni(t, "sets", 1, 3); i < n; i++ {
		set := []*big.Int{}
		for j, m := 0, gens.Uni(t, "set", 0, 5); j < m; j++ {
			if len(c) > 0 && gens.Uni(t, "in", 0, 3) > 0 {
				set = append(set, new(big.Int).Set(c[at("e")]))
			} else {
				set = append(set, pick())
			}
		}
		s.Sets = append(s.Sets, set)
	}
	return s
}

// ladderCase checks a regular chain, and spoiled versions of it.
func ladderCase(e *pbt.Enum) func(ops []ref.Op, note string) bool {
	return func(ops []ref.Op, note string) bool {
		c, err := ref.Eval(ops)
		if err != nil {
			return true
		}
		one := func(c []*big.Int, note string) bool {
			s := &seq{C: c, Targets: []*big.Int{c[len(c)-1], c[0], c[len(c)/2]}, Sets: [][]*big.Int{c, {c[len(c)/2], c[0]}, {}, {big.NewInt(-1)}}, Note: note}
			s.addNear(len(c)-1, 3)
			s.addNear(len(c)/2, 1)
			return e.Do(s)
		}
		if !one(c, note) {
			return false
		}
		// Wrong at the end, in the middle, and behind the middle.
		near := gens.Near(c[len(c)-1])
		for i, k := range []int{len(c) - 1, len(c) / 2, (3*len(c) + 3) / 4, len(c) - 1, len(c) - 1, len(c) - 1} {
			if k >= len(c) {
				continue
			}
			d := ref.Clone(c)
			switch i {
			case 0:
				d[k].Add(d[k], ref.One)
			case 1:
				d[k].Set(d[0])
			case 2:
				d[k].Neg(d[k])
			default:
				// Almost the right sum.
				if len(near) == 0 {
					continue
				}
				d[k] = near[(i*7+len(c))%len(near)]
			}
			if !one(d, note+", spoiled") {
				return false
			}
		}
		return true
	}
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:    "C02",
		Rule:  "A case is an integer sequence with targets and target sets; it is non-trivial when the sequence has at least 3 elements. Oracle: quadratic transcription of the definition for accept/reject of Validate/Program/Produces/Superset/IsAscending and for Ops(k) as a set at every position.",
		Kinds: map[string]func() pbt.Case{"seq": func() pbt.Case { return &seq{} }},
		Sections: []pbt.Section{
			{Name: "all-sequences", Enum: func(e *pbt.Enum) {
				for l := 0; l <= 4; l++ {
					words(e, nil, l, -2, 5)
				}
				words(e, []int64{1}, pbt.Pick(e.Tier, 4, 5), -1, 9)
				words(e, []int64{1, 2}, pbt.Pick(e.Tier, 4, 5), 0, 10)
				words(e, []int64{1, 2}, pbt.Pick(e.Tier, 5, 6), 1, 6)
			}},
			{Name: "all-valid-chains", Enum: func(e *pbt.Enum) {
				for n := 1; n <= pbt.Pick(e.Tier, 8, 9); n++ {
					gens.EnumChains(n, e.Mine, func(v []int64) bool { return e.Do(mk(slices.Clone(v), "")) })
				}
			}},
			{Name: "near-valid-chains", Enum: func(e *pbt.Enum) {
				for n := 2; n <= pbt.Pick(e.Tier, 7, 8); n++ {
					gens.EnumChains(n, e.Mine, func(v []int64) bool {
						for k := range v {
							for _, d := range []int64{1, -1} {
								w := slices.Clone(v)
								w[k] += d
								if !e.Do(mk(w, "off by one")) {
									return false
								}
							}
							for j := range v {
								if j < k {
									w := slices.Clone(v)
									w[j], w[k] = w[k], w[j]
									if !e.Do(mk(w, "swapped")) {
										return false
									}
								}
							}
						}
						return true
					})
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				gens.LadderOps(pbt.Pick(e.Tier, 40, 130), pbt.Pick(e.Tier, 130, 300), e.Mine, ladderCase(e))
			}},
			{Name: "large", CaseCPU: 600, Shards: 32, Enum: func(e *pbt.Enum) {
				for _, n := range pbt.Pick(e.Tier, []int{256, 257}, []int{256, 257, 511, 512, 513}) {
					if !gens.LadderOpsAt(n, e.Mine, ladderCase(e)) {
						return
					}
				}
			}},
			{Name: "mutated-chains", Fuzz: 90, N: 80000, Gen: gen},
		},
	})
}
