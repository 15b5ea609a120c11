// C10: chain optimisation only removes elements and keeps the chain valid.
package main

import (
	"fmt"
	"math/big"
	"slices"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/opt"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/algs"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// chain to optimise directly.
type chain struct {
	C    []*big.Int `json:"c"`
	Note string     `json:"note,omitempty"`
}

func (c *chain) Check(r *pbt.Rec) error {
	if ref.CheckChain(c.C) != nil {
		return pbt.ErrInvalid
	}
	removed, err := optimise(c.C)
	if err != nil {
		return err
	}
	if c.Note != "" {
		r.Class("source:" + c.Note)
	}
	switch {
	case removed == 0:
		r.Class("nothing removed")
	case removed == 1:
		r.Class("one removed")
	default:
		r.Class("several removed")
	}
	if !ref.Ascending(c.C) {
		r.Class("unordered")
	}
	// Non-trivial: some position can be produced in more than one way, so that
	// the choice of what to remove matters.
	if choices(c.C) {
		r.NonTrivial()
	}
	return nil
}

func choices(c []*big.Int) bool {
	idx := map[string]bool{}
	for k, x := range c {
		n := 0
		d := new(big.Int)
		for i := 0; i < k; i++ {
			d.Sub(x, c[i])
			if d.Cmp(c[i]) >= 0 && idx[d.Text(62)] {
				n++
			}
		}
		if n > 1 {
			return true
		}
		idx[x.Text(62)] = true
	}
	return false
}

func optimise(in []*big.Int) (int, error) {
	// Spare capacity behind the input shows writes beyond its end.
	arg := make([]*big.Int, 0, len(in)+4)
	arg = append(arg, ref.Clone(in)...)
	ptr := slices.Clone(arg)
	out, err := opt.Optimize(addchain.Chain(arg))
	if err != nil {
		return 0, fmt.Errorf("Optimize(%v): error %v", in, err)
	}
	if !ref.Equal(arg, in) || !slices.Equal(ptr, arg) {
		return 0, fmt.Errorf("Optimize(%v) changed its input to %v", in, arg)
	}
	return len(in) - len(out), relation(in, out)
}

func relation(in, out []*big.Int) error {
	if err := ref.CheckChain(out); err != nil {
		return fmt.Errorf("Optimize(%v) = %v: not a valid chain: %v", in, out, err)
	}
	if !ref.Subsequence(out, in) {
		return fmt.Errorf("Optimize(%v) = %v: not a subsequence", in, out)
	}
	if out[len(out)-1].Cmp(in[len(in)-1]) != 0 {
		return fmt.Errorf("Optimize(%v) = %v: last element differs", in, out)
	}
	return nil
}

func (c *chain) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := 1; i < len(c.C); i++ {
		d := &chain{C: slices.Delete(slices.Clone(c.C), i, i+1)}
		if ref.CheckChain(d.C) == nil {
			out = append(out, d)
		}
	}
	return out
}

// wrapped compares opt.Algorithm with the algorithm it wraps.
type wrapped struct {
	N   *big.Int    `json:"n"`
	Cfg algs.Config `json:"cfg"`
}

func (w *wrapped) Check(r *pbt.Rec) error {
	if w.N.Sign() <= 0 || w.Cfg.Opt || !w.Cfg.InRange(w.N) {
		return pbt.ErrInvalid
	}
	a := w.Cfg.Build()
	if o, ok := a.(opt.Algorithm); ok {
		a = o.Algorithm
	}
	plain, err := a.FindChain(new(big.Int).Set(w.N))
	if err != nil || ref.CheckChain(plain) != nil {
		// Not a valid chain: outside this property (see C01).
		r.Class("inner algorithm failed")
		return nil
	}
	in := ref.Clone(plain)
	n := new(big.Int).Set(w.N)
	got, err := opt.Algorithm{Algorithm: a}.FindChain(n)
	if err != nil {
		return fmt.Errorf("opt(%v) on %v: %v", w.Cfg, w.N, err)
	}
	if n.Cmp(w.N) != 0 {
		return fmt.Errorf("opt(%v) changed its target %v to %v", w.Cfg, w.N, n)
	}
	if err := relation(in, got); err != nil {
		return fmt.Errorf("opt(%v) on %v: %v", w.Cfg, w.N, err)
	}
	if _, err := optimise(in); err != nil {
		return fmt.Errorf("%v on %v: %v", w.Cfg, w.N, err)
	}
	r.Evals(1)
	if len(got) < len(in) {
		r.Class("shortened")
	} else {
		r.Class("kept")
	}
	if choices(in) {
		r.NonTrivial()
	}
	return nil
}

func (w *wrapped) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, n := range gens.ShrinkInt(w.N) {
		if n.Sign() > 0 && w.Cfg.InRange(n) {
			out = append(out, &wrapped{N: n, Cfg: w.Cfg})
		}
	}
	return out
}

// genUnion draws redundant chains: unions of several chains with the same end.
func genUnion(t *rapid.T) pbt.Case {
	size := gens.Pick(t, "size", 12, 40, 100)
	n, _ := gens.Target(t, gens.Pick(t, "bits", 5, 8, 16, size))
	seen := map[string]bool{}
	var c []*big.Int
	add := func(x *big.Int) {
		if k := x.Text(62); !seen[k] {
			seen[k] = true
			c = append(c, new(big.Int).Set(x))
		}
	}
	add(big.NewInt(1))
	parts := gens.Uni(t, "parts", 2, 4)
	note := "union"
	for p := 0; p < parts; p++ {
		switch gens.Uni(t, "method", 0, 3) {
		case 0: // left-to-right binary
			x := big.NewInt(1)
			for i := n.BitLen() - 2; i >= 0; i-- {
				x = new(big.Int).Lsh(x, 1)
				add(x)
				if n.Bit(i) == 1 {
					x = new(big.Int).Add(x, ref.One)
					add(x)
				}
			}
		case 1: // right-to-left binary
			d, x := big.NewInt(1), new(big.Int)
			for i := 0; i < n.BitLen(); i++ {
				add(d)
				if n.Bit(i) == 1 {
					x = new(big.Int).Add(x, d)
					add(x)
				}
				d = new(big.Int).Lsh(d, 1)
			}
		case 2: // windowed
			w := gens.Uni(t, "w", 2, 4)
			for i := int64(2); i < 1<<w; i++ {
				add(big.NewInt(i))
			}
			x := new(big.Int)
			for h := n.BitLen(); h > 0; {
				l := max(0, h-w)
				d := new(big.Int).Rsh(n, uint(l))
				d.And(d, ref.Ones(uint(h-l)))
				for i := 0; i < h-l && x.Sign() != 0; i++ {
					x = new(big.Int).Lsh(x, 1)
					add(x)
				}
				x = new(big.Int).Add(x, d)
				if x.Sign() != 0 {
					add(x)
				}
				h = l
			}
		case 3: // random extra elements
			for i, m := 0, gens.Uni(t, "extra", 1, size/3); i < m; i++ {
				add(new(big.Int).Add(c[gens.Uni(t, "i", 0, len(c)-1)], c[gens.Uni(t, "j", 0, len(c)-1)]))
			}
			note = "union with extras"
		}
	}
	if rapid.Bool().Draw(t, "sorted") {
		slices.SortFunc(c, (*big.Int).Cmp)
		note += ", sorted"
	} else if n.BitLen() > 1 && rapid.Bool().Draw(t, "end") {
		// Move the target to the end.
		for i, x := range c {
			if x.Cmp(n) == 0 {
				c = append(slices.Delete(c, i, i+1), n)
				break
			}
		}
		note += ", target last"
	}
	if ref.CheckChain(c) != nil {
		// Moving an element can break validity; repair by sorting.
		slices.SortFunc(c, (*big.Int).Cmp)
	}
	if rapid.Bool().Draw(t, "cut") {
		c = c[:gens.Uni(t, "len", 1, len(c))]
	}
	if err := ref.CheckChain(c); err != nil {
		panic(fmt.Sprint("generator made an invalid chain: ", c, err))
	}
	return &chain{C: c, Note: note}
}

// genInterval draws a chain that is an interval 1..m with holes: every element has
// many alternative sums.
func genInterval(t *rapid.T) pbt.Case {
	m := gens.Uni(t, "m", 3, 40)
	c := []int64{1}
	for v := int64(2); v <= int64(m); v++ {
		if gens.Uni(t, "keep", 0, 3) == 0 && v < int64(m) {
			continue
		}
		d := append(slices.Clone(c), v)
		if ref.CheckChain64(d) {
			c = d
		}
	}
	note := "interval"
	if rapid.Bool().Draw(t, "order") {
		note = "interval, unordered"
		// Random valid order: repeatedly pick an element whose sum is available.
		rest := slices.Clone(c[1:])
		o := []int64{1}
		for len(rest) > 0 {
			var ready []int
			for i, v := range rest {
				if ref.CheckChain64(append(slices.Clone(o), v)) {
					ready = append(ready, i)
				}
			}
			k := ready[gens.Uni(t, "k", 0, len(ready)-1)]
			o = append(o, rest[k])
			rest = slices.Delete(rest, k, k+1)
		}
		c = o
	}
	return &chain{C: ref.Big(c), Note: note}
}

func genRandom(t *rapid.T) pbt.Case {
	c := gens.Chain(t, gens.Pick(t, "size", 6, 12, 40, 120))
	if rapid.Bool().Draw(t, "sort") {
		slices.SortFunc(c, (*big.Int).Cmp)
	}
	return &chain{C: c, Note: "random"}
}

func genWrapped(t *rapid.T) pbt.Case {
	var c algs.Config
	k := uint(gens.Int(t, "K", 1, 16))
	tt := uint(gens.Int(t, "T", 0, 40))
	switch gens.Pick(t, "kind", "dict", "dict", "runs", "seq", "rtl", "ens") {
	case "dict":
		c = algs.Config{Kind: "dict", D: &algs.Decomposer{M: gens.Pick(t, "m", "fw", "sw", "rl", "hy"), K: k, T: tt}}
	case "runs":
		c.Kind = "runs"
	case "seq":
		c.Kind = "seq"
	case "rtl":
		c.Kind = "rtl"
	case "ens":
		c = algs.Config{Kind: "ens", Ens: gens.Uni(t, "member", 0, len(ensemble.Ensemble())-1)}
	}
	n, _ := gens.Target(t, gens.Pick(t, "bits", 12, 64, 200), int(k), int(k)+1, int(tt), int(tt)+1)
	if c.Kind != "ens" && c.Kind != "rtl" {
		var ok []string
		for _, s := range algs.SeqNames {
			d := c
			d.Seq = s
			if d.InRange(n) {
				ok = append(ok, s)
			}
		}
		c.Seq = gens.Pick(t, "seq", ok...)
	}
	return &wrapped{N: n, Cfg: c}
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C10",
		Rule: "A case is a valid chain, or (target, algorithm) whose chain is optimised; it is non-trivial when some element is the sum of earlier elements in more than one way. Oracle: output valid by own predicate, subsequence of the input, same first and last element, input deep-unchanged.",
		Kinds: map[string]func() pbt.Case{
			"chain":   func() pbt.Case { return &chain{} },
			"wrapped": func() pbt.Case { return &wrapped{} },
		},
		Sections: []pbt.Section{
			{Name: "all-valid-chains", Enum: func(e *pbt.Enum) {
				for n := 1; n <= pbt.Pick(e.Tier, 8, 9); n++ {
					gens.EnumChains(n, e.Mine, func(v []int64) bool { return e.Do(&chain{C: ref.Big(v)}) })
				}
			}},
			{Name: "ascending-chains", Enum: func(e *pbt.Enum) {
				for n := 1; n <= pbt.Pick(e.Tier, 9, 11); n++ {
					ascending(n, e.Mine, func(v []int64) bool { return e.Do(&chain{C: ref.Big(v)}) })
				}
			}},
			{Name: "large", CaseCPU: 600, Shards: 32, Enum: func(e *pbt.Enum) {
				for _, n := range pbt.Pick(e.Tier, []int{255, 256, 257, 513}, []int{511, 512, 513, 600, 1023, 1024, 1025}) {
					if !gens.LadderOpsAt(n, e.Mine, func(ops []ref.Op, note string) bool {
						c, err := ref.Eval(ops)
						return err != nil || e.Do(&chain{C: c, Note: note})
					}) {
						return
					}
				}
			}},
			{Name: "ladder", Enum: func(e *pbt.Enum) {
				gens.LadderOps(pbt.Pick(e.Tier, 60, 130), pbt.Pick(e.Tier, 130, 300), e.Mine, func(ops []ref.Op, note string) bool {
					c, err := ref.Eval(ops)
					if err != nil {
						return true
					}
					return e.Do(&chain{C: c, Note: note})
				})
			}},
			{Name: "intervals", N: 30000, Gen: genInterval},
			{Name: "unions", Fuzz: 90, N: 20000, Gen: genUnion},
			{Name: "random", Fuzz: 90, N: 10000, Gen: genRandom},
			{Name: "algorithm-outputs", N: 4000, Gen: genWrapped},
		},
	})
}

// ascending enumerates strictly ascending valid chains of n elements.
func ascending(n int, mine func() bool, f func([]int64) bool) {
	v := []int64{1}
	var rec func() bool
	rec = func() bool {
		if len(v) == min(n, 5) && !mine() {
			return true
		}
		if len(v) == n {
			return f(v)
		}
		last := v[len(v)-1]
		for x := last + 1; x <= 2*last; x++ {
			if ok := ref.CheckChain64(append(slices.Clone(v), x)); !ok {
				continue
			}
			v = append(v, x)
			ok := rec()
			v = v[:len(v)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	rec()
}
