// C01: every search algorithm returns a genuine addition chain ending at the target.
package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"

	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"pgregory.net/rapid"

	"github.com/mmcloughlin/addchain/verif/algs"
	"github.com/mmcloughlin/addchain/verif/gens"
	"github.com/mmcloughlin/addchain/verif/pbt"
	"github.com/mmcloughlin/addchain/verif/ref"
)

// one configuration on one target.
type one struct {
	N      *big.Int    `json:"n"`
	Cfg    algs.Config `json:"cfg"`
	Family string      `json:"family,omitempty"`
}

func (c *one) Check(r *pbt.Rec) error {
	if c.N.Sign() <= 0 || !c.Cfg.InRange(c.N) {
		return pbt.ErrInvalid
	}
	if c.Family != "" {
		r.Class("family:" + c.Family)
	}
	r.Class("kind:" + c.Cfg.Kind)
	a := c.Cfg.Build()
	chain, err := verify(c.N, a)
	if err != nil {
		return fmt.Errorf("%v on %v: %w", c.Cfg, c.N, err)
	}
	// The same instance again, and a fresh one: the same chain.
	if err := same(c.N, a, chain); err != nil {
		return fmt.Errorf("%v on %v, same instance: %w", c.Cfg, c.N, err)
	}
	if err := same(c.N, c.Cfg.Build(), chain); err != nil {
		return fmt.Errorf("%v on %v, fresh instance: %w", c.Cfg, c.N, err)
	}
	r.Evals(2)
	note(r, c.N, chain)
	return nil
}

// Shrinks proposes smaller targets.
func (c *one) Shrinks() []pbt.Case {
	var out []pbt.Case
	for _, n := range gens.ShrinkInt(c.N) {
		d := &one{N: n, Cfg: c.Cfg}
		if n.Sign() > 0 && c.Cfg.InRange(n) {
			out = append(out, d)
		}
	}
	return out
}

func note(r *pbt.Rec, n *big.Int, chain []*big.Int) {
	ones := 0
	for i := 0; i < n.BitLen(); i++ {
		ones += int(n.Bit(i))
	}
	if ones > 1 {
		r.NonTrivial()
	}
	r.Class("bits<=%d", (n.BitLen()+127)/128*128)
}

// verify runs the executor on a copy of n and checks the whole result.
func verify(n *big.Int, a alg.ChainAlgorithm) ([]*big.Int, error) {
	target := new(big.Int).Set(n)
	res := exec.Execute(target, a)
	if target.Cmp(n) != 0 {
		return nil, fmt.Errorf("target was changed to %v", target)
	}
	if res.Err != nil {
		return nil, fmt.Errorf("error: %v", res.Err)
	}
	c := []*big.Int(res.Chain)
	if err := ref.CheckChain(c); err != nil {
		return nil, fmt.Errorf("not an addition chain: %v: %v", err, short(c))
	}
	if c[len(c)-1].Cmp(n) != 0 {
		return nil, fmt.Errorf("chain ends at %v", c[len(c)-1])
	}
	if len(res.Program) != len(c)-1 {
		return nil, fmt.Errorf("%d operations for a chain of %d elements", len(res.Program), len(c))
	}
	ops := make([]ref.Op, len(res.Program))
	for i, op := range res.Program {
		ops[i] = ref.Op{I: op.I, J: op.J}
	}
	v, err := ref.Eval(ops)
	if err != nil {
		return nil, err
	}
	if !ref.Equal(v, c) {
		return nil, fmt.Errorf("operations evaluate to %v, chain is %v", short(v), short(c))
	}
	out := ref.Clone(c)
	// The result belongs to the caller, who may change it. (It may contain the target object.)
	for i, x := range c {
		if x != target {
			x.SetInt64(-7)
		}
		c[i] = nil
	}
	for i := range res.Program {
		res.Program[i].I = -1
	}
	return out, nil
}

func same(n *big.Int, a alg.ChainAlgorithm, want []*big.Int) error {
	target := new(big.Int).Set(n)
	c, err := a.FindChain(target)
	if err != nil {
		return fmt.Errorf("second run: error: %v", err)
	}
	if target.Cmp(n) != 0 {
		return fmt.Errorf("second run: target was changed to %v", target)
	}
	if !ref.Equal(c, want) {
		return fmt.Errorf("second run gives a different chain: %v, before %v", short(c), short(want))
	}
	return nil
}

func short(c []*big.Int) string {
	s := fmt.Sprint(c)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// whole ensemble on one target, sharing the instances as the search command does.
type whole struct {
	N      *big.Int `json:"n"`
	Family string   `json:"family,omitempty"`
	Twice  int      `json:"twice"` // every Twice-th member is run again
}

func (c *whole) Check(r *pbt.Rec) error {
	if c.N.Sign() <= 0 {
		return pbt.ErrInvalid
	}
	as := ensemble.Ensemble()
	if len(as) == 0 {
		return fmt.Errorf("empty ensemble")
	}
	as2 := ensemble.Ensemble()
	if len(as2) != len(as) {
		return fmt.Errorf("ensemble size changes: %d, %d", len(as), len(as2))
	}
	r.Evals(len(as) - 1)
	for i, a := range as {
		chain, err := verify(c.N, a)
		if err != nil {
			return fmt.Errorf("ensemble[%d] %v on %v: %w", i, a, c.N, err)
		}
		if c.Twice > 0 && i%c.Twice == int(c.N.Bit(0)+2*c.N.Bit(1)+4*c.N.Bit(2))%c.Twice {
			if err := same(c.N, as2[i], chain); err != nil {
				return fmt.Errorf("ensemble[%d] %v on %v: %w", i, a, c.N, err)
			}
			r.Evals(1)
		}
		if i == 0 {
			note(r, c.N, chain)
		}
	}
	if c.Family != "" {
		r.Class("family:" + c.Family)
	}
	return nil
}

// series runs one instance on several targets. With Reuse they are all handed over
// in the same integer object (a chain may contain that object, so earlier results
// are not looked at again); without, all results are inspected again at the end.
type series struct {
	Ns    []*big.Int  `json:"ns"`
	Cfg   algs.Config `json:"cfg"`
	Reuse bool        `json:"reuse,omitempty"`
}

func (c *series) Check(r *pbt.Rec) error {
	if len(c.Ns) == 0 {
		return pbt.ErrInvalid
	}
	for _, n := range c.Ns {
		if n == nil || n.Sign() <= 0 || !c.Cfg.InRange(n) {
			return pbt.ErrInvalid
		}
	}
	a := c.Cfg.Build()
	target := new(big.Int)
	var chains, copies [][]*big.Int
	for i, n := range c.Ns {
		if !c.Reuse {
			target = new(big.Int)
		}
		target.Set(n)
		chain, err := a.FindChain(target)
		if err != nil {
			return fmt.Errorf("%v, target %d of %v: %v", c.Cfg, i, c.Ns, err)
		}
		if target.Cmp(n) != 0 {
			return fmt.Errorf("%v, target %d of %v was changed to %v", c.Cfg, i, c.Ns, target)
		}
		if err := ref.CheckChain(chain); err != nil {
			return fmt.Errorf("%v, target %d of %v: not an addition chain: %v: %v", c.Cfg, i, c.Ns, err, short(chain))
		}
		if chain[len(chain)-1].Cmp(n) != 0 {
			return fmt.Errorf("%v, target %d of %v: chain ends at %v", c.Cfg, i, c.Ns, chain[len(chain)-1])
		}
		fresh, err := c.Cfg.Build().FindChain(new(big.Int).Set(n))
		if err != nil || !ref.Equal(fresh, chain) {
			return fmt.Errorf("%v, target %d of %v: %v, a fresh instance gives %v, %v", c.Cfg, i, c.Ns, short(chain), short(fresh), err)
		}
		chains = append(chains, chain)
		copies = append(copies, ref.Clone(chain))
	}
	r.Evals(2*len(c.Ns) - 1)
	// Later searches must leave earlier results alone.
	for i := range chains {
		if !c.Reuse && !ref.Equal(chains[i], copies[i]) {
			return fmt.Errorf("%v on %v: chain %d was %v, it became %v", c.Cfg, c.Ns, i, short(copies[i]), short(chains[i]))
		}
	}
	if len(c.Ns) > 1 {
		r.NonTrivial()
	}
	r.Class("kind:" + c.Cfg.Kind)
	return nil
}

func (c *series) Shrinks() []pbt.Case {
	var out []pbt.Case
	for i := range c.Ns {
		if len(c.Ns) > 1 {
			d := &series{Cfg: c.Cfg, Reuse: c.Reuse}
			d.Ns = append(append(d.Ns, c.Ns[:i]...), c.Ns[i+1:]...)
			out = append(out, d)
		}
		for _, n := range gens.ShrinkInt(c.Ns[i]) {
			d := &series{Cfg: c.Cfg, Reuse: c.Reuse, Ns: append([]*big.Int{}, c.Ns...)}
			d.Ns[i] = n
			out = append(out, d)
		}
	}
	return out
}

func genSeries(t *rapid.T) pbt.Case {
	c := genOne(gens.Pick(t, "max", 20, 70, 140, 260))(t).(*one)
	s := &series{Ns: []*big.Int{c.N}, Cfg: c.Cfg, Reuse: rapid.Bool().Draw(t, "reuse")}
	for i, k := 1, gens.Uni(t, "targets", 2, 5); i < k; i++ {
		n, _ := gens.Target(t, max(c.N.BitLen(), 4), 1, 2, 3)
		if gens.Uni(t, "near", 0, 2) == 0 {
			// A target that shares much with the one before.
			n = new(big.Int).Set(s.Ns[i-1])
			b := gens.Uni(t, "bit", 0, n.BitLen())
			n.SetBit(n, b, 1-n.Bit(b))
		}
		if n.Sign() > 0 && c.Cfg.InRange(n) {
			s.Ns = append(s.Ns, n)
		}
		if len(s.Ns) <= i {
			s.Ns = append(s.Ns, new(big.Int).Set(s.Ns[0]))
		}
	}
	return s
}

// histories takes one instance through many targets and back to the first ones.
func histories(e *pbt.Enum) {
	r := rand.New(rand.NewPCG(11, 13))
	target := func(k, bits int) *big.Int {
		switch k % 4 {
		case 0: // dense
			return new(big.Int).SetBit(gens.Bits(r, bits), 0, 1)
		case 1: // runs
			n := new(big.Int)
			for n.BitLen() < bits {
				j := 1 + r.IntN(20)
				n.Lsh(n, uint(j+1+r.IntN(3))).Or(n, ref.Ones(uint(j)))
			}
			return n
		case 2: // sparse
			n := new(big.Int).Lsh(ref.One, uint(bits))
			return n.SetBit(n, r.IntN(bits), 1)
		}
		return new(big.Int).Sub(new(big.Int).Lsh(ref.One, uint(bits)), gens.Bits(r, 1+bits/4))
	}
	for i, c := range rotation() {
		for style := 0; style < 5; style++ {
			if e.Tier == pbt.Quick && (i+style)%3 != 0 {
				continue
			}
			s := &series{Cfg: c, Reuse: style%2 == 1}
			for k := 0; k < pbt.Pick(e.Tier, 150, 600); k++ {
				bits := []int{10, 40, 130, 260}[(k+i)%4]
				if k%10 == 9 {
					bits = 1000
				}
				kind := k
				if style < 4 {
					kind = style // one kind of targets
				}
				if n := target(kind, bits); c.InRange(n) {
					s.Ns = append(s.Ns, n)
				}
			}
			if len(s.Ns) < 3 {
				continue
			}
			s.Ns = append(s.Ns, s.Ns[0], s.Ns[1], s.Ns[2], big.NewInt(224), big.NewInt(64))
			if e.Mine() && !e.Do(s) {
				return
			}
		}
	}
}

// fullDictionaries takes one instance through targets that need every odd number
// of up to k bits, then through small ones.
func fullDictionaries(e *pbt.Enum) {
	for _, k := range pbt.Pick(e.Tier, []uint{6, 9, 10}, []uint{6, 7, 8, 9, 10, 11}) {
		n := new(big.Int)
		for d := int64(1) << k; d > 0; d-- {
			if d%2 == 1 {
				n.Lsh(n, k+1).Or(n, big.NewInt(d))
			}
		}
		for _, q := range []string{"h:halving,delta", "h:halving,approx", "cf:dichotomic"} {
			for _, m := range []string{"sw", "fw"} {
				c := algs.Config{Kind: "dict", D: &algs.Decomposer{M: m, K: k}, Seq: q}
				if !c.InRange(n) {
					continue
				}
				s := &series{Cfg: c, Ns: []*big.Int{big.NewInt(0x7000700e)}}
				for i := 0; i < 5; i++ {
					s.Ns = append(s.Ns, n)
				}
				s.Ns = append(s.Ns, big.NewInt(0x7000700e), big.NewInt(0xf0f00f00), new(big.Int).Rsh(n, uint(n.BitLen()-200)))
				if e.Mine() && !e.Do(s) {
					return
				}
			}
		}
	}
}

// rotation of configurations that scale to the largest targets.
func rotation() []algs.Config {
	var out []algs.Config
	cf := []string{"cf:binary", "cf:dichotomic", "cf:co_binary", "cf:sqrt"}
	hs := []string{"h:halving,delta", "h:halving,approx"}
	for i, k := range []uint{1, 2, 3, 4, 5, 8, 16, 64, 128} {
		for j, tt := range []uint{0, 1, 16, 128} {
			out = append(out,
				algs.Config{Kind: "dict", D: &algs.Decomposer{M: "hy", K: k, T: tt}, Seq: cf[(i+j)%4], Opt: (i+j)%3 == 0},
				algs.Config{Kind: "dict", D: &algs.Decomposer{M: "rl", T: k * tt}, Seq: cf[(i+2*j)%4]})
		}
		out = append(out,
			algs.Config{Kind: "dict", D: &algs.Decomposer{M: "sw", K: k}, Seq: cf[i%4]},
			algs.Config{Kind: "dict", D: &algs.Decomposer{M: "fw", K: k}, Seq: cf[(i+1)%4], Opt: i%2 == 0})
	}
	for _, s := range append(cf, hs...) {
		out = append(out, algs.Config{Kind: "runs", Seq: s}, algs.Config{Kind: "seq", Seq: s})
	}
	return append(out, algs.Config{Kind: "rtl"})
}

// lengths takes every bit length, with all ones and the neighbours of powers of two.
func lengths(e *pbt.Enum) {
	cfgs := rotation()
	next := 0
	for k := 1; k <= 1024; k++ {
		for _, c := range []int64{-1, 0, 1, -3} {
			n := new(big.Int).Lsh(ref.One, uint(k-1))
			n.Add(n, big.NewInt(c))
			if c < 0 {
				n.Add(n, new(big.Int).Lsh(ref.One, uint(k-1)))
			}
			if n.Sign() <= 0 {
				continue
			}
			reps := pbt.Pick(e.Tier, 1, 8)
			for i := 0; i < reps; i++ {
				cfg := cfgs[next%len(cfgs)]
				next++
				if cfg.Kind == "seq" && n.BitLen() > 300 && cfg.Seq[0] == 'h' {
					continue
				}
				if e.Mine() && !e.Do(&one{N: n, Cfg: cfg, Family: "length"}) {
					return
				}
			}
		}
	}
}

// huge takes targets of several thousand bits.
func huge(e *pbt.Enum) {
	bits := pbt.Pick(e.Tier, []int{1025, 2047, 2048, 2049, 3000}, []int{1025, 1500, 2047, 2048, 2049, 2500, 3000, 4095, 4096, 4097})
	cf := []string{"cf:binary", "cf:dichotomic", "cf:co_binary", "cf:sqrt", "h:halving,delta", "h:halving,approx"}
	next := 0
	for _, b := range bits {
		top := new(big.Int).Lsh(ref.One, uint(b-1))
		odd := new(big.Int).Add(top, ref.One)
		alt := new(big.Int)
		for i := b - 1; i >= 0; i -= 2 {
			alt.SetBit(alt, i, 1)
		}
		mix := new(big.Int).SetBit(new(big.Int), b-1, 1)
		for i, h := 0, uint64(b); i < b; i++ {
			h = h*6364136223846793005 + 1442695040888963407
			mix.SetBit(mix, i, uint(h>>40)&1)
		}
		mix.SetBit(mix, b-1, 1)
		split := new(big.Int).Lsh(ref.Ones(uint(b/2-40)), uint(b-b/2+40)) // one long run and a far, short one
		split.Or(split, ref.Ones(9))
		for _, n := range []*big.Int{top, odd, ref.Ones(uint(b)), alt, mix, split} {
			var cfgs []algs.Config
			for _, k := range []uint{1, 4, 7, 63, 64, 65, 255, 256, 257} {
				next++
				m := []string{"sw", "fw", "hy"}[next%3]
				d := &algs.Decomposer{M: m, K: k}
				if m == "hy" {
					d.T = []uint{0, 1, 64, 255, 300, 1024}[next%6]
				}
				cfgs = append(cfgs, algs.Config{Kind: "dict", D: d, Seq: cf[next%4], Opt: next%5 == 0 && b < 2500})
			}
			for _, t := range []uint{0, 1, 7, 64, 256, 1000, uint(b)} {
				next++
				cfgs = append(cfgs, algs.Config{Kind: "dict", D: &algs.Decomposer{M: "rl", T: t}, Seq: cf[next%4]})
			}
			for _, s := range cf {
				cfgs = append(cfgs, algs.Config{Kind: "runs", Seq: s})
			}
			cfgs = append(cfgs, algs.Config{Kind: "rtl"})
			if b == 2049 || e.Tier == pbt.Thorough && b < 2500 {
				for _, s := range cf[:4] {
					cfgs = append(cfgs, algs.Config{Kind: "seq", Seq: s})
				}
			}
			for i, c := range cfgs {
				if e.Tier != pbt.Thorough && (i+next)%3 != 0 {
					continue
				}
				if e.Mine() && !e.Do(&one{N: n, Cfg: c, Family: "huge"}) {
					return
				}
			}
		}
	}
}

// repeats takes targets in which one block occurs many times.
func repeats(e *pbt.Enum) {
	cfgs := rotation()
	next := 0
	for ones := 1; ones <= 40; ones++ {
		for gap := 1; gap <= 3; gap++ {
			for _, m := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 170, 255, 256, 257, 300, 341, 342, 500, 511, 512} {
				bits := m*(ones+gap) - gap
				if bits > 1024 {
					break
				}
				n := new(big.Int)
				for i := 0; i < m; i++ {
					n.Lsh(n, uint(ones+gap))
					n.Or(n, ref.Ones(uint(ones)))
				}
				list := []algs.Config{
					{Kind: "runs", Seq: "cf:dichotomic"}, {Kind: "runs", Seq: "h:halving,delta"},
					{Kind: "dict", D: &algs.Decomposer{M: "rl"}, Seq: "cf:binary"},
				}
				for i := 0; i < pbt.Pick(e.Tier, 3, 20); i++ {
					if c := cfgs[next%len(cfgs)]; c.Kind != "seq" {
						list = append(list, c)
					}
					next++
				}
				for _, c := range list {
					if e.Mine() && !e.Do(&one{N: n, Cfg: c, Family: "repeat"}) {
						return
					}
				}
			}
		}
	}
}

// grid of small targets x all configurations.
func grid(maxN int64, maxK, maxT uint) func(e *pbt.Enum) {
	return func(e *pbt.Enum) {
		var cfgs []algs.Config
		add := func(c algs.Config) {
			cfgs = append(cfgs, c)
			c.Opt = true
			cfgs = append(cfgs, c)
		}
		add(algs.Config{Kind: "rtl"})
		for _, s := range algs.SeqNames {
			add(algs.Config{Kind: "runs", Seq: s})
			add(algs.Config{Kind: "seq", Seq: s})
			for k := uint(1); k <= maxK; k++ {
				add(algs.Config{Kind: "dict", D: &algs.Decomposer{M: "fw", K: k}, Seq: s})
				add(algs.Config{Kind: "dict", D: &algs.Decomposer{M: "sw", K: k}, Seq: s})
			}
			for t := uint(0); t <= maxT; t++ {
				add(algs.Config{Kind: "dict", D: &algs.Decomposer{M: "rl", T: t}, Seq: s})
				for k := uint(1); k <= maxK; k++ {
					add(algs.Config{Kind: "dict", D: &algs.Decomposer{M: "hy", K: k, T: t}, Seq: s})
				}
			}
		}
		for n := int64(1); n <= maxN; n++ {
			for _, c := range cfgs {
				x := big.NewInt(n)
				if !c.InRange(x) || !e.Mine() {
					continue
				}
				if !e.Do(&one{N: x, Cfg: c}) {
					return
				}
			}
		}
	}
}

func drawConfig(t *rapid.T) (algs.Config, []int) {
	var c algs.Config
	k := uint(gens.Int(t, "K", 1, 130))
	if rapid.Bool().Draw(t, "smallK") {
		k = uint(gens.Int(t, "K2", 1, 10))
	}
	tt := uint(gens.Int(t, "T", 0, 130))
	if rapid.Bool().Draw(t, "smallT") {
		tt = uint(gens.Int(t, "T2", 0, 10))
	}
	runs := []int{int(k), int(k) + 1, int(tt), int(tt) + 1, 1, 2, 3, max(1, int(k)-1), int(2 * tt)}
	switch gens.Pick(t, "kind", "dict", "dict", "dict", "dict", "dict", "runs", "seq", "rtl", "ens", "ens") {
	case "dict":
		d := &algs.Decomposer{M: gens.Pick(t, "method", "fw", "sw", "rl", "hy", "hy"), K: k, T: tt}
		if d.M == "rl" {
			d.K = 0
		}
		if d.M == "fw" || d.M == "sw" {
			d.T = 0
		}
		c = algs.Config{Kind: "dict", D: d}
	case "runs":
		c = algs.Config{Kind: "runs"}
	case "seq":
		c = algs.Config{Kind: "seq"}
	case "rtl":
		c = algs.Config{Kind: "rtl"}
	case "ens":
		return algs.Config{Kind: "ens", Ens: gens.Uni(t, "member", 0, 1023)}, runs
	}
	c.Opt = rapid.Bool().Draw(t, "opt")
	return c, runs
}

func genOne(maxBits int) func(t *rapid.T) pbt.Case {
	return func(t *rapid.T) pbt.Case {
		c, runs := drawConfig(t)
		n, fam := gens.Target(t, maxBits, runs...)
		if c.Kind != "ens" && c.Kind != "rtl" {
			var ok []string
			for _, s := range algs.SeqNames {
				d := c
				d.Seq = s
				if d.InRange(n) {
					ok = append(ok, s)
				}
			}
			c.Seq = gens.Pick(t, "seq", ok...)
		}
		return &one{N: n, Cfg: c, Family: fam}
	}
}

// genSmall targets the range of the small-input sequence algorithms.
func genSmall(t *rapid.T) pbt.Case {
	s := gens.Pick(t, "seq", "cf:total", "cf:dyadic", "cf:fermat", "h:delta", "h:approx", "h:delta,halving", "h:approx,halving", "h:approx,delta")
	bits := min(algs.SeqMaxBits(s), 11)
	if gens.Uni(t, "direct", 0, 2) == 0 {
		n := big.NewInt(int64(gens.Uni(t, "n", 1, 1<<bits-1)))
		return &one{N: n, Cfg: algs.Config{Kind: "seq", Seq: s, Opt: rapid.Bool().Draw(t, "opt")}}
	}
	k := uint(gens.Uni(t, "K", 1, bits))
	d := &algs.Decomposer{M: gens.Pick(t, "method", "fw", "sw", "rl", "hy"), K: k, T: uint(gens.Uni(t, "T", 1, bits))}
	n, fam := gens.Target(t, 300, int(k), int(k)+1, int(d.T), int(d.T)+1)
	return &one{N: n, Cfg: algs.Config{Kind: "dict", D: d, Seq: s, Opt: rapid.Bool().Draw(t, "opt")}, Family: fam}
}

func main() {
	pbt.Main(&pbt.Spec{
		ID:   "C01",
		Rule: "A case is (target n, algorithm configuration) or (n, whole ensemble); it is non-trivial when n is not a power of two. Oracle: own chain-validity predicate, end element, own re-evaluation of the operation list, target deep-unchanged, equal chain on a second run and from a fresh instance.",
		Kinds: map[string]func() pbt.Case{
			"one":    func() pbt.Case { return &one{} },
			"whole":  func() pbt.Case { return &whole{} },
			"series": func() pbt.Case { return &series{} },
		},
		Sections: []pbt.Section{
			{Name: "ensemble-small", Enum: func(e *pbt.Enum) {
				for n := int64(1); n <= pbt.Pick(e.Tier, int64(1200), int64(20000)); n++ {
					if e.Mine() && !e.Do(&whole{N: big.NewInt(n), Twice: 8}) {
						return
					}
				}
			}},
			{Name: "grid-small", Enum: func(e *pbt.Enum) {
				if e.Tier == pbt.Thorough {
					grid(300, 10, 10)(e)
				} else {
					grid(70, 6, 6)(e)
				}
			}},
			{Name: "every-length", Enum: lengths},
			{Name: "repeats", Enum: repeats},
			{Name: "huge", Enum: huge, CaseCPU: 600, Shards: 32},
			{Name: "histories", Enum: histories, CaseCPU: 600, Shards: 32},
			{Name: "full-dictionaries", Enum: fullDictionaries, CaseCPU: 600, Shards: 18},
			{Name: "series", N: 3000, Gen: genSeries},
			{Name: "configs-260", Fuzz: 90, N: 14000, Gen: genOne(260)},
			{Name: "configs-1024", N: 1200, Gen: genOne(1024), Shards: 16, Seconds: 120},
			{Name: "configs-smallseq", N: 6000, Gen: genSmall},
			{Name: "ensemble-random", N: 48, Shards: 16, Seconds: 120, Gen: func(t *rapid.T) pbt.Case {
				n, fam := gens.Target(t, gens.Pick(t, "max", 24, 64, 130, 260), 2, 3, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129)
				return &whole{N: n, Family: fam, Twice: 8}
			}},
		},
	})
}
